package main

import (
	"fmt"
	"go/types"

	. "verifcheck/absint"
)

// C19: malformed documents.
//
// Errors: in the environments of C03 and C23 every call that can fail also
// fails; whatever is returned then must be an error. Panics: the functions of
// the match path are interpreted once more with a tokenizer that may return
// any token at any time; no panic and no faulting operation may be reachable.

func init() { checks["C19"] = c19 }

func c19(c *Check) {
	c.Cov["rule"] = "every error met while matching is returned; with any sequence of tokens no panic, index, slice, nil or type-assertion fault is reachable"
	c.only = errRule
	for _, mode := range []string{"LoopTypeAny", "LoopTypeEvery", "LoopTypeAnyEvery"} {
		c.matchLoop(mode)
	}
	for _, arr := range []bool{false, true} {
		ms := []member{{`"a"`, "a"}, {`"\u0061b"`, "ab"}, {`"c"`, "c"}}
		for _, el := range [][]string{nil, {"a", "[1]"}, {"c", "ab", "[0]"}} {
			for n := 0; n <= 3; n++ {
				c.membersRun(arr, ms[:n], el)
			}
		}
	}
	for n := 0; n <= 2; n++ {
		c.after(n, 2-n)
		for f := 0; f < 8; f += 3 {
			c.execNode(n, 2-n, f&1 != 0, f&2 != 0, f&4 != 0)
		}
		c.execNode(n, 1, true, true, true)
	}
	c.nestingRun("FastMatcher.leaveValue", true, "")
	c.nestingRun("FastMatcher.skipValue", true, "")
	c.entryErrors()
	c.only = ""
	for _, widen := range []bool{true, false} {
		for _, fn := range []string{"leaveValue", "skipValue", "matchLoop", "matchAfter", "matchExec", "matchObjectOrArray", "Match", "MatchWithStatus", "literalFromSlot"} {
			c.anyTokens(fn, widen)
		}
	}
	c.Assume = append(c.Assume, "tokens of strings are quoted (C01); literal parsing, comparison and arithmetic do not fail (C15, C16, C08)", "the definition is well formed (C20): slots in range, loops over the value at hand have no target, others a slot")
}

// entryErrors: the entry point returns the errors of what it calls.
func (c *Check) entryErrors() {
	for _, fn := range []string{"Match", "MatchWithStatus"} {
		p := c.newPlace(fn)
		st := p.entryState(1)
		p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
			n := s.Clone()
			p.setPos(n, e1(p, n, "posAfter"))
			er, ev := p.err(s, "Step")
			return []Out{{n, Tuple(p.e.FreshSym(n, "token", p.tokT), p.e.FreshSym(n, "text", types.NewSlice(byteT)), p.e.FreshSym(n, "len", intT()), Nil)}, {er, Tuple(p.tok["tknUnknown"], Nil, Zero, ev)}}, true
		})
		p.hook("FastMatcher.matchExec", func(x *CallCtx, s *State) ([]Out, bool) {
			er, ev := p.err(s, "matchExec")
			return []Out{{s.Clone(), Nil}, {er, ev}}, true
		})
		p.treeHooks()
		for _, f := range p.e.Call(c.fn("FastMatcher."+fn), st, []*V{p.M, p.data}) {
			if f.Panic {
				continue
			}
			p.lost(f, TupleAt(f.Ret, len(f.Ret.Args)-1))
		}
		c.takeUndec(p.e)
	}
}

// entryState is a matcher of a definition with some expressions.
func (p *place) entryState(exprs int64) *State {
	st := p.start(Sym("pos left", intT()), 0)
	n := Sym("parse node", types.NewPointer(p.c.lookupType("ExecNode")))
	p.set(st, p.M, p.mT, "def.ParseNode", n)
	var bs []*V
	for i := int64(0); i < exprs; i++ {
		bs = append(bs, Sym(fmt.Sprintf("node of expression %d", i), intT()))
	}
	p.set(st, p.M, p.mT, "def.MatchBuckets", p.e.NewSlice(st, "buckets", intT(), bs))
	return st
}

// treeHooks makes the evaluation tree answer anything.
func (p *place) treeHooks() {
	for _, n := range []string{"ResetNode", "SetStallIndex", "ResolveNode", "MarkNode", "Resolve", "Reset"} {
		if p.c.P.Method("binTreeState", n) == nil {
			continue
		}
		fn := p.c.fn("binTreeState." + n)
		p.hook("binTreeState."+n, func(x *CallCtx, s *State) ([]Out, bool) {
			if fn.Signature.Results().Len() == 1 {
				return []Out{{s, p.e.FreshSym(s, "answer", fn.Signature.Results().At(0).Type())}}, true
			}
			return []Out{{s, Tuple()}}, true
		})
	}
	for _, n := range []string{"IsTrue", "IsResolved"} {
		p.hook("binTreeState."+n, func(x *CallCtx, s *State) ([]Out, bool) {
			if n == "IsResolved" && x.Args[1] == Zero {
				if g(s, "resolved") != "" {
					return []Out{{s, True}}, true
				}
				a := s.Clone()
				sg(a, "resolved", "y")
				return []Out{{a, True}, {s, False}}, true
			}
			return []Out{{s.Clone(), True}, {s, False}}, true
		})
	}
}

func (c *Check) anyTokens(name string, widen bool) {
	key := name
	p := c.newPlace(key)
	e := p.e
	e.NoWiden = !widen
	if widen {
		e.Pin = nil
	}
	e.MaxUnroll = 40
	c.texts(e)
	p.parseHook()
	p.treeHooks()
	const rule = "no document makes matching panic"
	bad := func(st *State, w, f string, a ...interface{}) {
		if widen {
			c.Undec("%s with any tokens: %s at %s", key, fmt.Sprintf(f, a...), w)
		} else {
			c.Bad(key, w, rule, fmt.Sprintf(f, a...), e.TraceLines(st, 25))
		}
	}
	e.OnFault = func(f Fault) {
		if f.Must {
			bad(f.St, e.Pos(InstrPos(f.Instr)), "%s: %s", f.Kind, f.What)
		} else {
			c.Undec("%s with any tokens: cannot exclude %s at %s: %s", key, f.Kind, e.Pos(InstrPos(f.Instr)), f.What)
		}
	}
	_, _, dl, _ := SliceParts(p.data)
	// where the position itself does not matter it is any number
	free := widen && (name == "matchObjectOrArray" || name == "matchLoop" || name == "leaveValue" || name == "skipValue")
	all := p.allTokens()
	advance := func(s *State, from *V, by int64) {
		if free {
			p.setPos(s, p.e.FreshSym(s, "posAfter", intT()))
			return
		}
		v := e1(p, s, "posAfter")
		s.Facts.Assume(Cmp(tGEQ, v, AddI(from, by), intT()), true)
		p.setPos(s, v)
	}
	p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
		n := s.Clone()
		from := p.pos(s)
		if !widen {
			k, _ := s.Ghost["steps"].Int()
			if k >= 5 {
				return nil, true
			}
			n.Ghost["steps"] = CInt(k + 1)
		}
		t := e.FreshSym(n, "token", p.tokT)
		n.Facts.Restrict(t, p.tokSet(all...))
		d := e.FreshSym(n, "text", types.NewSlice(byteT))
		_, _, l, _ := SliceParts(d)
		er, ev := p.err(s, "Step")
		delete(er.Ghost, "err")
		outs := []Out{{er, Tuple(p.tok["tknUnknown"], Nil, Zero, ev)}}
		// strings are quoted; every token but the end has a text
		for _, k := range []struct {
			names []string
			min   int64
		}{{[]string{"tknString", "tknEscString"}, 2}, {[]string{"tknEnd"}, 0}, {nil, 1}} {
			m := n.Clone()
			set := p.tokSet(k.names...)
			if k.names == nil {
				set = p.tokSet(all...).Minus(p.tokSet("tknString", "tknEscString", "tknEnd"))
			}
			if !m.Facts.Restrict(t, set) || !m.Facts.Assume(Cmp(tGEQ, l, CInt(k.min), intT()), true) {
				continue
			}
			advance(m, from, k.min)
			outs = append(outs, Out{m, Tuple(t, d, l, Nil)})
		}
		return outs, true
	})
	// callee models what a neighbour does: it may fail, and it reads on
	callee := func(fn string, pre func(x *CallCtx, s *State) string, rets func(s *State) []*V) {
		if fn == name || c.P.Method("FastMatcher", fn) == nil {
			return
		}
		p.hook("FastMatcher."+fn, func(x *CallCtx, s *State) ([]Out, bool) {
			if pre != nil {
				if w := pre(x, s); w != "" {
					bad(s, p.at(x), "%s is called with %s", fn, w)
					return nil, true
				}
			}
			n := s.Clone()
			if fn != "matchOp" && fn != "resetSlots" && fn != "matchAfter" {
				advance(n, p.pos(s), 0)
			}
			if fn == "resetSlots" {
				return []Out{{n, Tuple()}}, true
			}
			er, ev := p.err(s, fn)
			delete(er.Ghost, "err")
			if fn == "matchObjectOrArray" {
				return []Out{{n.Clone(), Tuple(Nil, True)}, {n, Tuple(Nil, False)}, {er, Tuple(ev, True)}}, true
			}
			return []Out{{n, Nil}, {er, ev}}, true
		})
	}
	for _, n := range []string{"ParseStringWLen", "ParseEscStringWLen"} {
		if c.P.Method("fastLitParser", n) == nil {
			continue
		}
		p.hook("fastLitParser."+n, func(x *CallCtx, s *State) ([]Out, bool) {
			_, _, l, _ := SliceParts(x.Args[1])
			if s.Facts.Eval(Cmp(tGEQ, x.Args[2], CInt(2), intT())) <= 0 || s.Facts.Eval(Cmp(tLEQ, x.Args[2], l, intT())) <= 0 {
				return nil, false
			}
			return []Out{{s, e.FreshSym(s, "key", types.NewSlice(byteT))}}, true
		})
	}
	open := func(x *CallCtx, s *State) string {
		for _, t := range []string{"tknObjectStart", "tknArrayStart"} {
			if c.eqv(s, x.Args[1], p.tok[t]) {
				return ""
			}
		}
		return "a token that opens nothing"
	}
	for _, fn := range []string{"leaveValue", "skipValue", "matchLoop", "matchAfter", "matchExec", "matchOp", "resetSlots"} {
		callee(fn, nil, nil)
	}
	callee("matchObjectOrArray", open, nil)

	nT, aT, lT, srT := c.lookupType("ExecNode"), c.lookupType("AfterNode"), c.lookupType("LoopNode"), c.lookupType("SlotRef")
	node, child, aft := Sym("node", types.NewPointer(nT)), Sym("child", types.NewPointer(nT)), Sym("after", types.NewPointer(aT))
	fn := c.fn("FastMatcher." + name)
	// the node: nothing, or something of everything
	for shape := 0; shape < 3; shape++ {
		P0 := Sym("pos", intT())
		st := p.start(P0, 2)
		p.slots(st, []bool{true, shape == 0})
		for _, v := range []*V{node, child, aft} {
			st.Facts.Assume(IsNilCond(v), false)
		}
		k := shape
		p.set(st, node, nT, "Ops", p.opList(st, k, 20))
		p.set(st, node, nT, "Loops", p.loopList(st, k, 10, func(int) *V { return Nil }))
		after, store := Nil, Zero
		if k == 1 {
			after, store = aft, CInt(2)
		}
		p.set(st, node, nT, "After", after)
		p.set(st, node, nT, "StoreId", store)
		p.set(st, node, nT, "Elems", p.strMap(st, map[string]*V{"a": child, "[1]": child}, k > 0, nT))
		if name == "matchObjectOrArray" && widen && k > 0 {
			// any members
			p.set(st, node, nT, "Elems", Sym("members", types.NewMap(types.Typ[types.String], types.NewPointer(nT))))
		}
		p.set(st, aft, aT, "Ops", p.opList(st, k, 40))
		p.set(st, aft, aT, "Loops", p.loopList(st, k, 30, func(i int) *V {
			return Iface(srT, c.withField(ZeroVal(srT), srT, "Slot", CInt(int64(i+1))))
		}))
		tk, tdata, tlen := Sym("token0", p.tokT), Sym("text0", types.NewSlice(byteT)), Sym("textLen0", intT())
		st.Facts.Restrict(tk, p.tokSet(all...))
		st.Facts.Assume(Cmp(tGEQ, P0, tlen, intT()), true)
		st.Facts.Assume(Cmp(tGEQ, tlen, Zero, intT()), true)
		st.Facts.Assume(Cmp(tLSS, Zero, dl, intT()), true)
		starts := []*State{st}
		if name == "matchExec" || name == "matchObjectOrArray" {
			// a token other than the end has a text
			en := st.Clone()
			en.Facts.Restrict(tk, p.tokSet("tknEnd"))
			st.Facts.Restrict(tk, p.tokSet(all...).Minus(p.tokSet("tknEnd")))
			st.Facts.Assume(Cmp(tGEQ, tlen, CInt(1), intT()), true)
			starts = append(starts, en)
		}
		for _, st := range starts {
			st.Ghost["steps"] = Zero
			runs := [][]*V{{p.M, tk, tdata, tlen, node}}
			switch name {
			case "leaveValue":
				runs = [][]*V{{p.M}}
			case "skipValue":
				runs = [][]*V{{p.M, tk}}
			case "Match", "MatchWithStatus":
				p.set(st, p.M, p.mT, "def.ParseNode", map[bool]*V{true: Nil, false: node}[shape == 0])
				var bs []*V
				for i := 0; i < shape; i++ {
					bs = append(bs, Sym(fmt.Sprintf("node of expression %d", i), intT()))
				}
				p.set(st, p.M, p.mT, "def.MatchBuckets", e.NewSlice(st, "buckets", intT(), bs))
				runs = [][]*V{{p.M, p.data}}
			case "matchAfter":
				runs = [][]*V{{p.M, aft}}
			case "matchObjectOrArray":
				runs = [][]*V{{p.M, p.tok["tknObjectStart"], tdata, node}, {p.M, p.tok["tknArrayStart"], tdata, node}}
			case "literalFromSlot":
				runs = [][]*V{{p.M, CInt(1)}, {p.M, CInt(2)}}
			case "matchLoop":
				runs = nil
				for i, mode := range []string{"LoopTypeAny", "LoopTypeEvery", "LoopTypeAnyEvery"} {
					L := Sym(fmt.Sprint("loop", i), types.NewPointer(lT))
					st.Facts.Assume(IsNilCond(L), false)
					p.set(st, L, lT, "Mode", c.konst(mode))
					p.set(st, L, lT, "Node", node)
					p.set(st, L, lT, "BucketIdx", CInt(3))
					runs = append(runs, []*V{p.M, tk, tdata, L})
				}
			}
			for _, args := range runs {
				for _, f := range e.Call(fn, st.Clone(), args) {
					w := e.Pos(InstrPos(f.Instr))
					if f.Panic {
						bad(f.St, w, "%s", f.What)
					} else {
						c.Ok("%s: %s", key, rule)
					}
				}
			}
		}
	}
	c.takeUndec(e)
}
