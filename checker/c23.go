package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifcheck/absint"
)

// C23: matching keeps its place in the document.
//
// The functions that move the reading position are interpreted on every small
// shape of definition node, with the tokenizer's position a symbolic term and
// the neighbouring functions modelled by what they consume: every value is
// consumed from its first token to its end, by what is there to handle it.

func init() { checks["C23"] = c23 }

func c23(c *Check) {
	c.Cov["rule"] = "the reading position after a value is the end of that value; looking up stored values leaves it alone; a stored value is the text from its first byte to its end; every member and element is handled once, by the node of its own key"
	c.fromSlot()
	for loops := 0; loops <= 2; loops++ {
		for ops := 0; ops <= 2; ops++ {
			c.after(loops, ops)
		}
	}
	for loops := 0; loops <= 2; loops++ {
		for ops := 0; ops <= 2; ops++ {
			for f := 0; f < 8; f++ {
				c.execNode(loops, ops, f&1 != 0, f&2 != 0, f&4 != 0)
			}
		}
	}
	for _, arr := range []bool{false, true} {
		c.members(arr)
	}
	c.nesting("FastMatcher.leaveValue")
	c.nesting("FastMatcher.skipValue")
	c.Assume = append(c.Assume, "tokens and their lengths are those of C01; literal values are those of C22", "documents are well formed here (C19 covers the others)", "the definition is well formed (C20): slots are in range and loops over the value at hand have no target")
}

// place is the environment: the position is the tokenizer's own field.
type place struct {
	*matEnv
	key  string
	data *V
}

func (c *Check) newPlace(key string) *place {
	p := &place{matEnv: newMat(c), key: key}
	p.e.NoWiden = true
	p.e.MaxRec = 4
	p.data = Sym("document", types.NewSlice(byteT))
	p.e.OnFault = func(f Fault) {
		if f.Must {
			p.bad(f.St, p.e.Pos(InstrPos(f.Instr)), "a well-formed document is read without fault", "%s: %s", f.Kind, f.What)
		} else {
			c.Undec("%s: cannot exclude %s at %s: %s", key, f.Kind, p.e.Pos(InstrPos(f.Instr)), f.What)
		}
	}
	p.hook("binTreeState.IsResolved", func(x *CallCtx, st *State) ([]Out, bool) {
		if x.Args[1] != Zero {
			return nil, false
		}
		if g(st, "resolved") != "" {
			return []Out{{st, True}}, true
		}
		a := st.Clone()
		sg(a, "resolved", "y")
		return []Out{{a, True}, {st, False}}, true
	})
	return p
}

func (p *place) bad(st *State, w, rule, f string, a ...interface{}) {
	if g(st, "err") != "" {
		return // what follows an error is judged by its result alone (lost)
	}
	p.c.Bad(p.key, w, rule, fmt.Sprintf(f, a...), p.e.TraceLines(st, 25))
}

func (p *place) pos(st *State) *V       { return p.get(st, p.M, p.mT, "tokens.pos") }
func (p *place) setPos(st *State, v *V) { p.set(st, p.M, p.mT, "tokens.pos", v) }

// start is a state with the reader at a position of the document.
func (p *place) start(pos *V, slots int) *State {
	st := p.state()
	_, _, n, _ := SliceParts(p.data)
	p.set(st, p.M, p.mT, "tokens.data", p.data)
	p.set(st, p.M, p.mT, "tokens.dataLen", n)
	p.setPos(st, pos)
	st.Facts.Assume(Cmp(tGEQ, pos, Zero, intT()), true)
	st.Facts.Assume(Cmp(tLEQ, pos, n, intT()), true)
	tree := Sym("buckets", types.NewPointer(p.c.lookupType("binTreeState")))
	st.Facts.Assume(IsNilCond(tree), false)
	p.set(st, p.M, p.mT, "buckets", tree)
	return st
}

// slots fills the slots: stored ones hold a non-empty text of the document.
func (p *place) slots(st *State, stored []bool) (starts, sizes []*V) {
	sT := p.c.lookupType("slotData")
	_, _, n, _ := SliceParts(p.data)
	var vals []*V
	for i, b := range stored {
		v := ZeroVal(sT)
		a, z := Zero, Zero
		if b {
			a, z = Sym(fmt.Sprintf("start%d", i+1), intT()), Sym(fmt.Sprintf("size%d", i+1), intT())
			st.Facts.Assume(Cmp(tGEQ, a, Zero, intT()), true)
			st.Facts.Assume(Cmp(tGEQ, z, CInt(1), intT()), true)
			st.Facts.Assume(Cmp(tLEQ, Add(a, z), n, intT()), true)
			v = p.c.withField(p.c.withField(v, sT, "start", a), sT, "size", z)
		}
		starts, sizes = append(starts, a), append(sizes, z)
		vals = append(vals, v)
	}
	p.set(st, p.M, p.mT, "slots", p.e.NewSlice(st, "slots", sT, vals))
	return
}

func (p *place) slot(st *State, i int64) (start, size *V) {
	sT := p.c.lookupType("slotData")
	v := p.elem(st, p.get(st, p.M, p.mT, "slots"), CInt(i), sT)
	return p.c.fieldOf(v, sT, "start"), p.c.fieldOf(v, sT, "size")
}

// parse models the literal parser: its result is a term of class and text.
func (p *place) parseHook() {
	p.hook("fastLitParser.Parse", func(x *CallCtx, st *State) ([]Out, bool) {
		return []Out{{st, T("parse", "", p.fvT, x.Args[1], x.Args[2])}}, true
	})
}

// made is what a constructor of values returns.
func (p *place) made(st *State, name string, arg *V) *V {
	fs := p.e.Call(p.c.fn(name), st.Clone(), []*V{arg})
	if len(fs) != 1 || fs[0].Panic {
		return nil
	}
	return fs[0].Ret
}

func (p *place) text(from, to *V) *V {
	ptr, off, _, _ := SliceParts(p.data)
	return MkSlice(ptr, Add(off, from), Sub(to, from), nil)
}

// sameSpan: a value of an object or array made of a part of the document.
func (p *place) sameSpan(st *State, v *V, kind string, from, to *V) bool {
	if !p.c.eqv(st, p.c.fieldOf(v, p.fvT, "dataType"), p.c.konst(kind)) {
		return false
	}
	ptr, off, n, _ := SliceParts(p.c.fieldOf(v, p.fvT, "sliceData"))
	dp, do, _, _ := SliceParts(p.data)
	return ptr == dp && p.c.eqv(st, off, Add(do, from)) && p.c.eqv(st, n, Sub(to, from))
}

func (c *Check) fromSlot() {
	p := c.newPlace("literalFromSlot")
	p.parseHook()
	fn := c.fn("FastMatcher.literalFromSlot")
	const rule = "a stored value is the text it was stored for, and looking it up leaves the position alone"
	P0 := Sym("pos", intT())
	classes := append([]string{}, p.values...)
	for k := int64(0); k < 3; k++ {
		for _, have := range []bool{true, false} {
			st := p.start(P0, 3)
			stored := []bool{true, true, true}
			stored[k] = have
			starts, sizes := p.slots(st, stored)
			cls := ""
			p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
				if !c.eqv(s, p.pos(s), starts[k]) || !have {
					p.bad(s, p.at(x), rule, "slot %d is read at %s", k+1, p.pos(s))
					return nil, true
				}
				n := s.Clone()
				p.setPos(n, e1(p, n, "posAfter"))
				n.Ghost["text"] = p.e.FreshSym(n, "text", types.NewSlice(byteT))
				return []Out{{n, Tuple(p.tok[cls], n.Ghost["text"], p.e.FreshSym(n, "textLen", intT()), Nil)}}, true
			})
			for _, cls = range classes {
				for _, f := range p.e.Call(fn, st.Clone(), []*V{p.M, CInt(k + 1)}) {
					w := p.e.Pos(InstrPos(f.Instr))
					if f.Panic {
						p.bad(f.St, w, rule, "panics: %s", f.What)
						continue
					}
					if !c.eqv(f.St, p.pos(f.St), P0) {
						p.bad(f.St, w, rule, "slot %d, %s: the position is left at %s", k+1, cls, p.pos(f.St))
						continue
					}
					want, ok := "the missing value", false
					switch {
					case !have:
						ok = c.eqv(f.St, c.fieldOf(f.Ret, p.fvT, "dataType"), c.konst("MissingValue"))
					case cls == "tknObjectStart" || cls == "tknArrayStart":
						kind := map[string]string{"tknObjectStart": "ObjectValue", "tknArrayStart": "ArrayValue"}[cls]
						want = fmt.Sprintf("%s of document[%s:%s]", kind, starts[k], Add(starts[k], sizes[k]))
						ok = p.sameSpan(f.St, f.Ret, kind, starts[k], Add(starts[k], sizes[k]))
					default:
						want = "the literal parsed"
						ok = f.St.Ghost["text"] != nil && f.Ret == T("parse", "", p.fvT, p.tok[cls], f.St.Ghost["text"])
					}
					c.Expect(ok, p.key, w, rule, fmt.Sprintf("slot %d, %s: returns %s, not %s", k+1, cls, f.Ret, want), p.e.TraceLines(f.St, 10))
				}
			}
		}
	}
	c.takeUndec(p.e)
}

// e1 is a fresh position of the document.
func e1(p *place, st *State, name string) *V {
	v := p.e.FreshSym(st, name, intT())
	_, _, n, _ := SliceParts(p.data)
	st.Facts.Assume(Cmp(tGEQ, v, Zero, intT()), true)
	st.Facts.Assume(Cmp(tLEQ, v, n, intT()), true)
	return v
}

// nodeList makes operators or loops told apart by their buckets.
func (p *place) opList(st *State, n int, base int64) *V {
	t := p.c.lookupType("OpNode")
	var vs []*V
	for i := 0; i < n; i++ {
		v := Sym(fmt.Sprintf("op%d of %d", i, base), t)
		vs = append(vs, p.c.withField(v, t, "BucketIdx", CInt(base+int64(i))))
	}
	if n == 0 {
		return ZeroVal(types.NewSlice(t))
	}
	return p.e.NewSlice(st, fmt.Sprint("ops", base), t, vs)
}

func (p *place) loopList(st *State, n int, base int64, target func(i int) *V) *V {
	t := p.c.lookupType("LoopNode")
	var vs []*V
	for i := 0; i < n; i++ {
		v := Sym(fmt.Sprintf("loop%d of %d", i, base), t)
		v = p.c.withField(v, t, "BucketIdx", CInt(base+int64(i)))
		v = p.c.withField(v, t, "Target", target(i))
		vs = append(vs, v)
	}
	if n == 0 {
		return ZeroVal(types.NewSlice(t))
	}
	return p.e.NewSlice(st, fmt.Sprint("loops", base), t, vs)
}

// which of the operators or loops a pointer handed on is.
func (p *place) which(st *State, ptr *V, tn string) string {
	b := p.get(st, ptr, p.c.lookupType(tn), "BucketIdx")
	if k, ok := b.Int(); ok {
		return fmt.Sprintf("ran%d", k)
	}
	return ""
}

func (c *Check) after(loops, ops int) {
	p := c.newPlace("matchAfter")
	fn := c.fn("FastMatcher.matchAfter")
	const rule = "conditions evaluated out of order are all evaluated, on their stored values, and leave the position alone"
	aT, srT := c.lookupType("AfterNode"), c.lookupType("SlotRef")
	P0 := Sym("pos", intT())
	for miss := 0; miss < 1<<uint(loops); miss++ {
		st := p.start(P0, 2)
		stored := make([]bool, 2)
		for i := range stored {
			stored[i] = i >= loops || miss>>uint(i)&1 == 0
		}
		starts, _ := p.slots(st, stored)
		node := p.e.NewObj(st, "after", aT, ZeroVal(aT))
		// the loops are over the slots in reverse order
		slotOf := func(i int) int { return loops - 1 - i }
		p.set(st, node, aT, "Ops", p.opList(st, ops, 20))
		p.set(st, node, aT, "Loops", p.loopList(st, loops, 10, func(i int) *V {
			return Iface(srT, c.withField(ZeroVal(srT), srT, "Slot", CInt(int64(slotOf(i)+1))))
		}))
		p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
			for i, a := range starts {
				if stored[i] && i < loops && c.eqv(s, p.pos(s), a) {
					n := s.Clone()
					sg(n, "at", fmt.Sprint(i))
					t := p.e.FreshSym(n, "token", p.tokT)
					n.Facts.Restrict(t, p.tokSet(p.values...))
					d := p.e.FreshSym(n, "text", types.NewSlice(byteT))
					n.Ghost["tok"], n.Ghost["text"] = t, d
					p.setPos(n, e1(p, n, "posAfter"))
					er, ev := p.err(s, "Step")
					return []Out{{n, Tuple(t, d, p.e.FreshSym(n, "len", intT()), Nil)}, {er, Tuple(p.tok["tknUnknown"], Nil, Zero, ev)}}, true
				}
			}
			p.bad(s, p.at(x), rule, "a token is read at %s", p.pos(s))
			return nil, true
		})
		p.hook("FastMatcher.matchLoop", func(x *CallCtx, s *State) ([]Out, bool) {
			w := p.which(s, x.Args[3], "LoopNode")
			i := -1
			fmt.Sscanf(w, "ran1%d", &i)
			if i < 0 || i >= loops {
				return nil, false
			}
			if g(s, "at") != fmt.Sprint(slotOf(i)) || x.Args[1] != s.Ghost["tok"] || x.Args[2] != s.Ghost["text"] {
				p.bad(s, p.at(x), rule, "loop %d of %d runs on the value of slot %q, not %d", i, loops, g(s, "at"), slotOf(i))
				return nil, true
			}
			n := s.Clone()
			sg(n, w, "y")
			sg(n, "at", "")
			p.setPos(n, e1(p, n, "posLoop"))
			er, ev := p.err(n, "matchLoop")
			return []Out{{n, Nil}, {er, ev}}, true
		})
		p.hook("FastMatcher.matchOp", func(x *CallCtx, s *State) ([]Out, bool) {
			w := p.which(s, x.Args[1], "OpNode")
			if w == "" {
				return nil, false
			}
			if !x.Args[2].IsNil() {
				p.bad(s, p.at(x), rule, "a condition out of order is given a value at hand")
			}
			n := s.Clone()
			sg(n, w, "y")
			er, ev := p.err(n, "matchOp")
			return []Out{{n, Nil}, {er, ev}}, true
		})
		for _, f := range p.e.Call(fn, st, []*V{p.M, node}) {
			w := p.e.Pos(InstrPos(f.Instr))
			if f.Panic {
				p.bad(f.St, w, rule, "panics: %s", f.What)
				continue
			}
			if p.lost(f, f.Ret) {
				continue
			}
			if errKind(f.St, f.Ret) <= 0 {
				p.bad(f.St, w, rule, "an error without cause")
				continue
			}
			if g(f.St, "resolved") != "" {
				continue
			}
			what := ""
			for i := 0; i < ops; i++ {
				if g(f.St, fmt.Sprintf("ran%d", 20+i)) == "" {
					what = fmt.Sprintf("condition %d of %d is not evaluated", i+1, ops)
				}
			}
			for i := 0; i < loops; i++ {
				if stored[slotOf(i)] && g(f.St, fmt.Sprintf("ran%d", 10+i)) == "" {
					what = fmt.Sprintf("loop %d of %d is not evaluated", i+1, loops)
				}
			}
			if !c.eqv(f.St, p.pos(f.St), P0) {
				what = fmt.Sprintf("the position is left at %s", p.pos(f.St))
			}
			c.Expect(what == "", p.key, w, rule, what, p.e.TraceLines(f.St, 20))
		}
	}
	c.takeUndec(p.e)
}

func (c *Check) execNode(loops, ops int, elems, after, store bool) {
	p := c.newPlace("matchExec")
	p.parseHook()
	fn := c.fn("FastMatcher.matchExec")
	const rule = "a value is consumed to its end, by all that its node asks for"
	nT, aT := c.lookupType("ExecNode"), c.lookupType("AfterNode")
	P0, end, tlen, tdata := Sym("pos", intT()), Sym("valueEnd", intT()), Sym("textLen", intT()), Sym("text", types.NewSlice(byteT))
	node, child := Sym("node", types.NewPointer(nT)), Sym("child", types.NewPointer(nT))
	aft := Sym("after", types.NewPointer(aT))
	// consume models what reads a value whose first token has been read
	consume := func(x *CallCtx, s *State, who string, ghosts ...string) []Out {
		if !c.eqv(s, p.pos(s), P0) {
			p.bad(s, p.at(x), rule, "%s starts at %s, not behind the value's first token", who, p.pos(s))
			return nil
		}
		n := s.Clone()
		p.setPos(n, end)
		sg(n, "done", "y")
		for _, k := range ghosts {
			sg(n, k, "y")
		}
		er, ev := p.err(n, who)
		return []Out{{n, Nil}, {er, ev}}
	}
	for _, cls := range []string{"literal", "tknObjectStart", "tknArrayStart", "invalid"} {
		if cls != "tknArrayStart" && cls != "literal" && cls != "tknObjectStart" && (loops+ops > 1) {
			continue
		}
		st := p.start(P0, 2)
		starts, sizes := p.slots(st, []bool{true, true, true})
		_, _, dl, _ := SliceParts(p.data)
		st.Facts.Assume(Cmp(tGEQ, end, P0, intT()), true)
		st.Facts.Assume(Cmp(tLEQ, end, dl, intT()), true)
		st.Facts.Assume(Cmp(tGEQ, tlen, CInt(1), intT()), true)
		st.Facts.Assume(Cmp(tLEQ, tlen, P0, intT()), true)
		st.Facts.Assume(IsNilCond(node), false)
		st.Facts.Assume(IsNilCond(aft), false)
		st.Facts.Assume(IsNilCond(child), false)
		p.set(st, node, nT, "Ops", p.opList(st, ops, 20))
		p.set(st, node, nT, "Loops", p.loopList(st, loops, 10, func(int) *V { return Nil }))
		av, sv := Nil, Zero
		if after {
			av = aft
		}
		if store {
			sv = CInt(2)
		}
		p.set(st, node, nT, "After", av)
		p.set(st, node, nT, "StoreId", sv)
		p.set(st, node, nT, "Elems", p.strMap(st, map[string]*V{"a": child}, elems, nT))
		tk := Sym("token", p.tokT)
		e := end
		switch cls {
		case "literal":
			st.Facts.Restrict(tk, p.tokSet(p.values[:7]...))
			e = P0
		case "invalid":
			var rest []string
			for _, n := range p.allTokens() {
				ok := true
				for _, v := range p.values {
					ok = ok && n != v
				}
				if ok {
					rest = append(rest, n)
				}
			}
			st.Facts.Restrict(tk, p.tokSet(rest...))
		default:
			tk = p.tok[cls]
			st.Facts.Assume(eqI(tlen, CInt(1)), true)
		}
		p.hook("FastMatcher.skipValue", func(x *CallCtx, s *State) ([]Out, bool) {
			if x.Args[1] != tk {
				return nil, false
			}
			if cls == "literal" {
				return []Out{{s, Nil}}, true
			}
			return consume(x, s, "skipValue", "skipped"), true
		})
		p.hook("FastMatcher.leaveValue", func(x *CallCtx, s *State) ([]Out, bool) {
			return consume(x, s, "leaveValue", "skipped"), true
		})
		p.hook("FastMatcher.matchObjectOrArray", func(x *CallCtx, s *State) ([]Out, bool) {
			if x.Args[1] != tk || x.Args[3] != node {
				p.bad(s, p.at(x), rule, "the members are read with %s and %s", x.Args[1], x.Args[3])
				return nil, true
			}
			var outs []Out
			for i, o := range consume(x, s, "matchObjectOrArray", "members") {
				if i == 0 {
					r := o.St.Clone()
					sg(r, "resolved", "y")
					outs = append(outs, Out{r, Tuple(Nil, True)}, Out{o.St, Tuple(Nil, False)})
				} else {
					// as the function itself answers (see membersRun)
					for _, b := range []bool{true, false} {
						if c.errFlags[b] || b && len(c.errFlags) == 0 {
							outs = append(outs, Out{o.St.Clone(), Tuple(o.Ret, map[bool]*V{true: True, false: False}[b])})
						}
					}
				}
			}
			return outs, true
		})
		p.hook("FastMatcher.matchLoop", func(x *CallCtx, s *State) ([]Out, bool) {
			w := p.which(s, x.Args[3], "LoopNode")
			if w == "" {
				return nil, false
			}
			if x.Args[1] != tk {
				p.bad(s, p.at(x), rule, "a loop runs on %s", x.Args[1])
				return nil, true
			}
			if cls != "tknArrayStart" {
				return []Out{{s, Nil}}, true
			}
			return consume(x, s, "matchLoop", w), true
		})
		p.hook("FastMatcher.matchAfter", func(x *CallCtx, s *State) ([]Out, bool) {
			if x.Args[1] != aft {
				return nil, false
			}
			if !c.eqv(s, p.pos(s), e) {
				p.bad(s, p.at(x), rule, "conditions over several values are evaluated at %s, before the value's end", p.pos(s))
			}
			n := s.Clone()
			sg(n, "after", "y")
			er, ev := p.err(n, "matchAfter")
			return []Out{{n, Nil}, {er, ev}}, true
		})
		p.hook("FastMatcher.matchOp", func(x *CallCtx, s *State) ([]Out, bool) {
			w := p.which(s, x.Args[1], "OpNode")
			if w == "" || x.Args[2].IsNil() {
				return nil, false
			}
			lit := p.e.Load(s, x.Args[2], p.fvT)
			ok, want := false, "the literal"
			switch cls {
			case "literal":
				ok = lit == T("parse", "", p.fvT, tk, tdata)
			case "tknObjectStart", "tknArrayStart":
				kind := map[string]string{"tknObjectStart": "ObjectValue", "tknArrayStart": "ArrayValue"}[cls]
				want = kind + " from the first bracket to the end of the value"
				ok = p.sameSpan(s, lit, kind, AddI(P0, -1), end)
			}
			if !ok {
				p.bad(s, p.at(x), "a condition is given the value it is about", "%s: given %s, not %s", cls, lit, want)
			}
			n := s.Clone()
			sg(n, w, "y")
			er, ev := p.err(n, "matchOp")
			return []Out{{n, Nil}, {er, ev}}, true
		})
		n := 0
		for _, f := range p.e.Call(fn, st, []*V{p.M, tk, tdata, tlen, node}) {
			w := p.e.Pos(InstrPos(f.Instr))
			if f.Panic {
				p.bad(f.St, w, rule, "panics: %s", f.What)
				continue
			}
			if p.lost(f, f.Ret) {
				continue
			}
			ek := errKind(f.St, f.Ret)
			if cls == "invalid" {
				n++
				c.Expect(ek < 0, p.key, w, "what is no value is an error", "accepted", p.e.TraceLines(f.St, 20))
				continue
			}
			if ek <= 0 {
				p.bad(f.St, w, rule, "%s: an error without cause", cls)
				continue
			}
			n++
			if g(f.St, "resolved") != "" {
				continue
			}
			what := ""
			for i := 0; i < ops; i++ {
				if g(f.St, fmt.Sprintf("ran%d", 20+i)) == "" {
					what = fmt.Sprintf("condition %d of %d is not evaluated", i+1, ops)
				}
			}
			if cls == "tknArrayStart" {
				for i := 0; i < loops; i++ {
					if g(f.St, fmt.Sprintf("ran%d", 10+i)) == "" {
						what = fmt.Sprintf("loop %d of %d is not evaluated", i+1, loops)
					}
				}
			}
			if elems && cls != "literal" && g(f.St, "members") == "" {
				what = "the conditions on its members are not evaluated"
			}
			if after && g(f.St, "after") == "" {
				what = "the conditions over several values are not evaluated"
			}
			if !c.eqv(f.St, p.pos(f.St), e) {
				what = fmt.Sprintf("the position is left at %s, not the end of the value", p.pos(f.St))
			}
			for i := int64(0); i < 3; i++ {
				a, z := p.slot(f.St, i)
				wa, wz := starts[i], sizes[i]
				if store && i == 1 {
					wa = Sub(P0, tlen)
					wz = Sub(e, wa)
				}
				if !c.eqv(f.St, a, wa) || !c.eqv(f.St, z, wz) {
					what = fmt.Sprintf("slot %d holds the text from %s of length %s, not from %s of length %s", i+1, a, z, wa, wz)
				}
			}
			c.Expect(what == "", p.key, w, rule, fmt.Sprintf("%s (loops %d, conditions %d, members %v, after %v, stored %v): %s", cls, loops, ops, elems, after, store, what), p.e.TraceLines(f.St, 25))
		}
		if n == 0 {
			c.Undec("matchExec: no normal outcome for %s", cls)
		}
	}
	c.takeUndec(p.e)
}

// strMap makes a map from texts to values (nil when absent).
func (p *matEnv) strMap(st *State, m map[string]*V, have bool, nT types.Type) *V {
	if !have {
		return Nil
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	k := T("alloc", fmt.Sprintf("map of members%d", len(st.Heap)), types.NewMap(types.Typ[types.String], types.NewPointer(nT)))
	args := []*V{Nil}
	for _, s := range keys {
		args = append(args, CStr(s), m[s])
	}
	st.Heap[k] = T("mapv", "", nil, args...)
	return T("map", "", nil, k)
}

// texts hooks the formatting functions of constant arguments.
func (c *Check) texts(e *Engine) {
	utf8Hooks(c, e)
	e.Hooks["fmt.Sprintf"] = func(x *CallCtx, st *State) ([]Out, bool) {
		f, ok := x.Args[0].Str()
		if !ok {
			return nil, false
		}
		var args []interface{}
		if !x.Args[1].IsNil() {
			_, _, n, _ := SliceParts(x.Args[1])
			k, ok := n.Int()
			if !ok {
				return nil, false
			}
			p, off, _, _ := SliceParts(x.Args[1])
			for i := int64(0); i < k; i++ {
				a := e.Load(st, ExtendPtr(p, PI(AddI(off, i), types.NewInterfaceType(nil, nil))), types.NewInterfaceType(nil, nil))
				if a.Op != "iface" {
					return nil, false
				}
				if n, ok := a.Args[0].Int(); ok {
					args = append(args, n)
				} else if s, ok := a.Args[0].Str(); ok {
					args = append(args, s)
				} else if a.Args[0].Op == "fconst" {
					v, _ := strconv.ParseFloat(a.Args[0].Aux, 64)
					args = append(args, v)
				} else {
					return nil, false
				}
			}
		}
		return []Out{{st, CStr(fmt.Sprintf(f, args...))}}, true
	}
	e.Hooks["time.Parse"] = func(x *CallCtx, st *State) ([]Out, bool) {
		layout, ok := x.Args[0].Str()
		s, ok2 := x.Args[1].Str()
		if !ok || !ok2 {
			return nil, false
		}
		t := x.Sig.Results().At(0).Type()
		if _, err := time.Parse(layout, s); err != nil {
			return []Out{{st, Tuple(ZeroVal(t), Iface(types.Typ[types.Int], Sym("?time error", types.Typ[types.Int])))}}, true
		}
		return []Out{{st, Tuple(T("call", "time.Parse", t, x.Args...), Nil)}}, true
	}
	e.Hooks["strconv.Itoa"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if n, ok := x.Args[0].Int(); ok {
			return []Out{{st, CStr(fmt.Sprint(n))}}, true
		}
		return nil, false
	}
	e.Hooks["strconv.FormatInt"] = func(x *CallCtx, st *State) ([]Out, bool) {
		n, ok := x.Args[0].Int()
		b, ok2 := x.Args[1].Int()
		if ok && ok2 {
			return []Out{{st, CStr(strconv.FormatInt(n, int(b)))}}, true
		}
		return nil, false
	}
}

type member struct{ text, key string }

// members: objects and arrays with nothing, one, ... values; the keys of an
// object in every combination, the nodes there are for some of them.
func (c *Check) members(arr bool) {
	keys := []member{{`"a"`, "a"}, {`"b"`, "b"}, {`"\u0061"`, "a"}, {`"\"b"`, `"b`}, {`""`, ""}}
	elems := [][]string{nil, {"a"}, {"a", "b", ""}, {`"b`, "b"}}
	if arr {
		elems = [][]string{nil, {"[0]"}, {"[1]", "[2]"}, {"[10]", "[11]", "[1]", "[0]", "a", ""}}
		for n := 0; n <= 12; n++ {
			c.membersRun(arr, make([]member, n), elems[n%4])
			c.membersRun(arr, make([]member, n), elems[3])
		}
		return
	}
	for _, el := range elems {
		c.membersRun(arr, nil, el)
		for _, a := range keys {
			c.membersRun(arr, []member{a}, el)
			for _, b := range keys {
				c.membersRun(arr, []member{a, b}, el)
			}
		}
		c.membersRun(arr, []member{keys[0], keys[3], keys[1], keys[4], keys[2], keys[0]}, el)
	}
}

func (c *Check) membersRun(arr bool, ms []member, elems []string) {
	p := c.newPlace("matchObjectOrArray")
	p.e.MaxUnroll = 40
	c.texts(p.e)
	const rule = "every member is consumed from its first token to its end, by the node of its own key"
	nT := c.lookupType("ExecNode")
	node := Sym("node", types.NewPointer(nT))
	P0 := Sym("pos", intT())
	st := p.start(P0, 0)
	st.Facts.Assume(IsNilCond(node), false)
	kids := map[string]*V{}
	for _, k := range elems {
		kids[k] = Sym("node of "+k, types.NewPointer(nT))
		st.Facts.Assume(IsNilCond(kids[k]), false)
	}
	p.set(st, node, nT, "Elems", p.strMap(st, kids, elems != nil, nT))
	st.Ghost["expect"], st.Ghost["n"] = P0, Zero
	sg(st, "phase", "first")
	open, close, shape := "tknObjectStart", "tknObjectEnd", "an object"
	if arr {
		open, close, shape = "tknArrayStart", "tknArrayEnd", "an array"
	}
	in := fmt.Sprintf("%s of %d", shape, len(ms))
	keyOf := func(i int64) string {
		if arr {
			return fmt.Sprintf("[%d]", i)
		}
		return ms[i].key
	}
	move := func(s *State, name string) {
		v := e1(p, s, name)
		s.Ghost["expect"] = v
		p.setPos(s, v)
	}
	there := func(s *State, x *CallCtx, who string) bool {
		if c.eqv(s, p.pos(s), s.Ghost["expect"]) {
			return true
		}
		p.bad(s, p.at(x), rule, "%s: %s at %s instead of %s", in, who, p.pos(s), s.Ghost["expect"])
		return false
	}
	p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
		if !there(s, x, "a token is read") {
			return nil, true
		}
		n, _ := s.Ghost["n"].Int()
		more := int(n) < len(ms)
		s = s.Clone()
		tok, phase := "", ""
		switch ph := g(s, "phase"); ph {
		case "first", "next":
			switch {
			case !more:
				tok, phase = close, "done"
			case ph == "next" && g(s, "comma") == "":
				tok, phase = "tknListDelim", ph
				sg(s, "comma", "y")
			case arr:
				tok, phase = "value", "value"
			default:
				tok, phase = "key", "colon"
			}
		case "colon":
			tok, phase = "tknObjectKeyDelim", "member"
		case "member":
			tok, phase = "value", "value"
		default:
			p.bad(s, p.at(x), rule, "%s: a token is read while the reader is at %q", in, ph)
			return nil, true
		}
		sg(s, "phase", phase)
		er, ev := p.err(s, "Step")
		outs := []Out{{er, Tuple(p.tok["tknUnknown"], Nil, Zero, ev)}}
		move(s, "posAfter")
		text := p.e.FreshSym(s, "text", types.NewSlice(byteT))
		l := p.e.FreshSym(s, "len", intT())
		tv := p.tok[tok]
		switch tok {
		case "value":
			cls := p.values[(int(n)*4+len(ms)+len(elems))%len(p.values)]
			tv = p.tok[cls]
			if lit := map[string]string{"tknString": `"a"`, "tknEscString": `"\""`}[cls]; lit != "" {
				text, l = p.constText(s, lit), CInt(int64(len(lit)))
			}
			sg(s, "comma", "")
			s.Ghost["tok"], s.Ghost["text"], s.Ghost["len"] = tv, text, l
		case "key":
			k := ms[n].text
			text, l = p.constText(s, k), CInt(int64(len(k)))
			tv = p.tok["tknString"]
			if strings.Contains(k, `\`) {
				tv = p.tok["tknEscString"]
			}
		}
		return append(outs, Out{s, Tuple(tv, text, l, Nil)}), true
	})
	consumed := func(x *CallCtx, s *State, who string, r *V) []Out {
		n := s.Clone()
		sg(n, "phase", "next")
		n.Ghost["n"] = AddI(n.Ghost["n"], 1)
		move(n, "posAfter")
		er, ev := p.err(n, who)
		return []Out{{n, Nil}, {er, ev}}
	}
	p.hook("FastMatcher.matchExec", func(x *CallCtx, s *State) ([]Out, bool) {
		w := p.at(x)
		n, _ := s.Ghost["n"].Int()
		if !there(s, x, "a member is evaluated") {
			return nil, true
		}
		if g(s, "phase") != "value" {
			p.bad(s, w, rule, "%s: a member is evaluated while the reader is at %q", in, g(s, "phase"))
			return nil, true
		}
		if x.Args[1] != s.Ghost["tok"] || x.Args[2] != s.Ghost["text"] || x.Args[3] != s.Ghost["len"] {
			p.bad(s, w, rule, "%s: member %d is evaluated with %s, %s, %s", in, n+1, x.Args[1], x.Args[2], x.Args[3])
			return nil, true
		}
		if kids[keyOf(n)] == nil || x.Args[4] != kids[keyOf(n)] {
			p.bad(s, w, rule, "%s: the member of key %q is evaluated by %s", in, keyOf(n), x.Args[4])
			return nil, true
		}
		return consumed(x, s, "matchExec", x.Args[4]), true
	})
	p.hook("FastMatcher.skipValue", func(x *CallCtx, s *State) ([]Out, bool) {
		w := p.at(x)
		n, _ := s.Ghost["n"].Int()
		if !there(s, x, "a member is skipped") {
			return nil, true
		}
		if g(s, "phase") != "value" || x.Args[1] != s.Ghost["tok"] {
			p.bad(s, w, rule, "%s: skipping %s while the reader is at %q", in, x.Args[1], g(s, "phase"))
			return nil, true
		}
		if kids[keyOf(n)] != nil {
			p.bad(s, w, rule, "%s: the member of key %q is skipped, and there is a node for it", in, keyOf(n))
			return nil, true
		}
		return consumed(x, s, "skipValue", nil), true
	})
	n := 0
	for _, f := range p.e.Call(c.fn("FastMatcher.matchObjectOrArray"), st, []*V{p.M, p.tok[open], Sym("text0", types.NewSlice(byteT)), node}) {
		w := p.e.Pos(InstrPos(f.Instr))
		if f.Panic {
			p.bad(f.St, w, rule, "%s: panics: %s", in, f.What)
			continue
		}
		er, ret := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
		if p.lost(f, er) {
			if v := f.St.Facts.Eval(ret); v != 0 && errKind(f.St, er) < 0 {
				if c.errFlags == nil {
					c.errFlags = map[bool]bool{}
				}
				c.errFlags[v > 0] = true
			}
			continue
		}
		if errKind(f.St, er) <= 0 {
			p.bad(f.St, w, rule, "%s: an error without cause", in)
			continue
		}
		n++
		if g(f.St, "resolved") != "" {
			continue
		}
		ok := g(f.St, "phase") == "done" && c.eqv(f.St, p.pos(f.St), f.St.Ghost["expect"])
		c.Expect(ok, p.key, w, rule, fmt.Sprintf("%s: ends while the reader is at %q, position %s", in, g(f.St, "phase"), p.pos(f.St)), p.e.TraceLines(f.St, 20))
		c.Expect(f.St.Facts.Eval(ret) < 0, p.key, w, "a value read to its end is evaluated further", fmt.Sprintf("%s: returns %s", in, ret), p.e.TraceLines(f.St, 20))
	}
	if n == 0 {
		c.Undec("matchObjectOrArray: no normal outcome for %s", in)
	}
	c.takeUndec(p.e)
}

func (p *place) constText(st *State, k string) *V {
	var bs []*V
	for i := 0; i < len(k); i++ {
		bs = append(bs, CInt(int64(k[i])))
	}
	return p.e.NewSlice(st, "text of a token", byteT, bs)
}
