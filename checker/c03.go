package main

import (
	"fmt"
	"go/types"
	"strings"

	. "verifcheck/absint"
)

// C03: loops quantify over all elements of an array.
//
// The loop function is interpreted with the tokenizer, the body and the
// evaluation tree modelled by small automata: the array grammar, the state of
// the body's subtree and the stall index. Ghost variables remember which body
// verdicts have occurred; the verdict recorded at the end must be the one the
// quantifier gives.

func init() { checks["C03"] = c03 }

func c03(c *Check) {
	c.Cov["rule"] = "typestate of the array reader, the body's subtree and the stall index around every element; recorded verdict = quantifier over the verdicts of all elements"
	for _, mode := range []string{"LoopTypeAny", "LoopTypeEvery", "LoopTypeAnyEvery"} {
		c.matchLoop(mode)
	}
	c.loopRest()
	c.Assume = append(c.Assume, "the body's verdict for an element is the one the evaluation tree computes (C02)", "documents are well formed here (C19 covers the others)")
}

func (c *Check) matchLoop(mode string) {
	m := newMat(c)
	e := m.e
	e.Delay = 1
	key := "matchLoop/" + mode
	lnT, slotT := c.lookupType("LoopNode"), c.lookupType("slotData")
	e.MaxRec = 6
	L := Sym("loop", types.NewPointer(lnT))
	B, node, prevStall, tdata := Sym("bucket", intT()), Sym("bodyNode", types.NewPointer(c.lookupType("ExecNode"))), Sym("outerStall", intT()), Sym("tokenData", types.NewSlice(byteT))
	bad := func(st *State, where, rule, f string, a ...interface{}) {
		if g(st, "err") != "" {
			return // only C19 is about what happens after an error
		}
		c.Bad(key, where, rule, fmt.Sprintf(f, a...), e.TraceLines(st, 25))
	}
	isB := func(st *State, where string, v *V) bool {
		if c.eqv(st, v, B) {
			return true
		}
		bad(st, where, "the loop acts on its own node", "node %s instead of the loop's", v)
		return false
	}
	m.hook("jsonTokenizer.Step", func(x *CallCtx, st *State) ([]Out, bool) {
		var outs []Out
		tk := func(s *State, phase string, names ...string) {
			n := s.Clone()
			t := e.FreshSym(n, "token", m.tokT)
			if !n.Facts.Restrict(t, m.tokSet(names...)) {
				return
			}
			sg(n, "phase", phase)
			n.Ghost["tok"] = t
			d := e.FreshSym(n, "text", types.NewSlice(byteT))
			l := e.FreshSym(n, "textLen", intT())
			n.Ghost["text"], n.Ghost["textLen"] = d, l
			outs = append(outs, Out{n, Tuple(t, d, l, Nil)})
		}
		switch ph := g(st, "phase"); ph {
		case "first":
			tk(st, "done", "tknArrayEnd")
			tk(st, "elem", m.values...)
		case "after":
			tk(st, "done", "tknArrayEnd")
			tk(st, "comma", "tknListDelim")
		case "comma":
			tk(st, "elem", m.values...)
		default:
			bad(st, m.at(x), "the array is read element by element", "a token is read while the reader is at %q", ph)
			return nil, true
		}
		s, ev := m.err(st, "Step")
		return append(outs, Out{s, Tuple(m.tok["tknUnknown"], Nil, Zero, ev)}), true
	})
	m.hook("FastMatcher.matchExec", func(x *CallCtx, st *State) ([]Out, bool) {
		w := m.at(x)
		if g(st, "phase") != "elem" {
			bad(st, w, "each element is judged once", "the body runs while the reader is at %q", g(st, "phase"))
			return nil, true
		}
		if g(st, "body") != "fresh" {
			bad(st, w, "each element starts from a fresh body", "the body's conditions are %s", g(st, "body"))
		}
		for i := int64(0); i < storeNodes; i++ {
			v := m.elem(st, m.get(st, m.M, m.mT, "slots"), CInt(i), slotT)
			if v != ZeroVal(slotT) && !c.eqv(st, v, ZeroVal(slotT)) {
				bad(st, w, "each element starts from a fresh body", "a value stored for the previous element is still there: slot %d, %s", i+1, storeWhere[i])
			}
		}
		if !c.eqv(st, st.Ghost["stall"], B) {
			bad(st, w, "outer decisions are held back during the loop", "the stall index is %s", st.Ghost["stall"])
		}
		if x.Args[1] != st.Ghost["tok"] || x.Args[2] != st.Ghost["text"] || x.Args[3] != st.Ghost["textLen"] || x.Args[4] != node {
			bad(st, w, "the body judges the current element", "called with %s, %s, %s and %s", x.Args[1], x.Args[2], x.Args[3], x.Args[4])
		}
		var outs []Out
		judged := func(v string) *State {
			n := st.Clone()
			sg(n, "phase", "after")
			sg(n, "body", v)
			m.fillSlots(n)
			sg(n, "n", "some")
			if v == "T" || v == "openT" {
				sg(n, "anyT", "y")
			} else {
				sg(n, "anyF", "y")
			}
			return n
		}
		for _, v := range []string{"T", "F", "openT", "openF"} {
			n := judged(v)
			n.Log(InstrPos(x.Instr), "element judged %s", v)
			outs = append(outs, Out{n, Nil})
			// an element that fails may have been read to its end, and its conditions may be decided
			s, ev := m.err(judged(v), "matchExec")
			s.Log(InstrPos(x.Instr), "element fails, judged %s", v)
			outs = append(outs, Out{s, ev})
		}
		return outs, true
	})
	leave := func(x *CallCtx, st *State) ([]Out, bool) {
		if p := g(st, "phase"); p != "after" {
			bad(st, m.at(x), "leaving the array starts inside of it", "leaving while the reader is at %q", p)
			return nil, true
		}
		anyT, anyF := g(st, "anyT") == "y", g(st, "anyF") == "y"
		if mode == "LoopTypeAny" && !anyT || mode != "LoopTypeAny" && !anyF {
			bad(st, m.at(x), "a loop stops early only when its verdict is certain", "left early with no element that settles it (true seen: %v, false seen: %v)", anyT, anyF)
		}
		n := st.Clone()
		sg(n, "phase", "done")
		s, ev := m.err(n, "leaveValue")
		return []Out{{n, Nil}, {s, ev}}, true
	}
	m.hook("FastMatcher.leaveValue", leave)
	m.hook("FastMatcher.skipValue", func(x *CallCtx, st *State) ([]Out, bool) {
		n := st.Clone()
		switch g(st, "phase") {
		case "first":
			if x.Args[1] != m.tok["tknArrayStart"] && st.Facts.Eval(Cmp(tEQL, x.Args[1], m.tok["tknArrayStart"], intT())) <= 0 {
				return nil, false
			}
			sg(n, "phase", "done")
		case "elem":
			sg(n, "phase", "after")
		default:
			bad(st, m.at(x), "leaving the array starts inside of it", "skipping while the reader is at %q", g(st, "phase"))
			return nil, true
		}
		s, ev := m.err(n, "skipValue")
		return []Out{{n, Nil}, {s, ev}}, true
	})
	m.hook("binTreeState.IsResolved", func(x *CallCtx, st *State) ([]Out, bool) {
		if !isB(st, m.at(x), x.Args[1]) {
			return nil, true
		}
		switch g(st, "body") {
		case "T", "F":
			return []Out{{st, True}}, true
		case "fresh", "openT", "openF":
			return []Out{{st, False}}, true
		case "closed":
			return []Out{{st, True}}, true
		case "unknown":
			a, b := st.Clone(), st.Clone()
			sg(a, "body", "closed")
			sg(b, "body", "open before")
			return []Out{{a, True}, {b, False}}, true
		case "open before":
			return []Out{{st, False}}, true
		}
		return nil, false
	})
	m.hook("binTreeState.IsTrue", func(x *CallCtx, st *State) ([]Out, bool) {
		if !isB(st, m.at(x), x.Args[1]) {
			return nil, true
		}
		if b := g(st, "body"); b == "closed" || b == "unknown" {
			return nil, false
		}
		return []Out{{st, bv(g(st, "body") == "T")}}, true
	})
	m.hook("binTreeState.ResetNode", func(x *CallCtx, st *State) ([]Out, bool) {
		if isB(st, m.at(x), x.Args[1]) {
			sg(st, "body", "fresh")
		}
		return []Out{{st, Tuple()}}, true
	})
	if c.P.Method("binTreeState", "ResolveNode") != nil {
		m.hook("binTreeState.ResolveNode", func(x *CallCtx, st *State) ([]Out, bool) {
			if isB(st, m.at(x), x.Args[1]) {
				if !c.eqv(st, st.Ghost["stall"], B) {
					bad(st, m.at(x), "outer decisions are held back during the loop", "an element is finished while the stall index is %s", st.Ghost["stall"])
				}
				switch g(st, "body") {
				case "openT":
					sg(st, "body", "T")
				case "openF":
					sg(st, "body", "F")
				case "T", "F":
				default:
					return nil, false
				}
			}
			return []Out{{st, Tuple()}}, true
		})
	}
	m.hook("binTreeState.SetStallIndex", func(x *CallCtx, st *State) ([]Out, bool) {
		old := st.Ghost["stall"]
		st.Ghost["stall"] = x.Args[1]
		return []Out{{st, old}}, true
	})
	m.hook("binTreeState.MarkNode", func(x *CallCtx, st *State) ([]Out, bool) {
		w := m.at(x)
		if !isB(st, w, x.Args[1]) {
			return nil, true
		}
		if g(st, "marked") != "" {
			bad(st, w, "the verdict is recorded once", "it is recorded a second time")
		}
		if b := g(st, "body"); b != "fresh" && b != "open before" {
			bad(st, w, "the verdict is recorded on an open node", "the node is %s", b)
		}
		if !c.eqv(st, st.Ghost["stall"], prevStall) {
			bad(st, w, "the enclosing context is restored before the verdict is recorded", "the stall index is %s", st.Ghost["stall"])
		}
		var outs []Out
		for _, v := range []bool{true, false} {
			n := st.Clone()
			if n.Facts.Eval(x.Args[2]) != 0 {
				if (n.Facts.Eval(x.Args[2]) > 0) != v {
					continue
				}
			} else if !n.Facts.Assume(x.Args[2], v) {
				continue
			}
			sg(n, "marked", fmt.Sprint(v))
			outs = append(outs, Out{n, Tuple()})
		}
		return outs, true
	})
	e.OnFault = func(f Fault) {
		if f.Must {
			bad(f.St, e.Pos(InstrPos(f.Instr)), "a loop over a well-formed array never fails", "%s: %s", f.Kind, f.What)
		} else {
			c.Undec("%s: cannot exclude %s at %s", key, f.Kind, e.Pos(InstrPos(f.Instr)))
		}
	}
	fn := c.fn("FastMatcher.matchLoop")
	for _, isArr := range []bool{true, false} {
		st := m.state()
		m.set(st, L, lnT, "BucketIdx", B)
		m.set(st, L, lnT, "Mode", c.konst(mode))
		m.set(st, L, lnT, "Node", node)
		st.Facts.Assume(IsNilCond(L), false)
		st.Facts.Assume(IsNilCond(node), false)
		st.Facts.Assume(Cmp(tGTR, B, Zero, intT()), true)
		tree := Sym("buckets", types.NewPointer(c.lookupType("binTreeState")))
		st.Facts.Assume(IsNilCond(tree), false)
		m.set(st, m.M, m.mT, "buckets", tree)
		st.Ghost["stall"] = prevStall
		sg(st, "phase", "first")
		sg(st, "body", "unknown")
		m.storeTree(st, node)
		m.fillSlots(st)
		tk := Sym("token0", m.tokT)
		if isArr {
			tk = m.tok["tknArrayStart"]
		} else {
			st.Facts.Restrict(tk, m.tokSet(m.values...).Minus(m.tokSet("tknArrayStart")))
		}
		// a bucket index that the tree does not know to be that of the loop is a fault of compilation
		n := 0
		for _, f := range e.Call(fn, st, []*V{m.M, tk, tdata, L}) {
			w := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				bad(f.St, w, "a loop over a well-formed array never fails", "%s", f.What)
				continue
			}
			n++
			ek := errKind(f.St, f.Ret)
			if m.lost(f, f.Ret) {
				continue
			}
			if ek <= 0 {
				bad(f.St, w, "a loop over a well-formed array never fails", "returns an error without cause")
				continue
			}
			if v := m.elem(f.St, m.get(f.St, m.M, m.mT, "slots"), CInt(storeNodes), slotT); !c.eqv(f.St, v, Sym("slot of another node", slotT)) {
				bad(f.St, w, "only what was stored for an element is forgotten", "the slot of another node holds %s", v)
				continue
			}
			phase, marked := g(f.St, "phase"), g(f.St, "marked")
			if !c.eqv(f.St, f.St.Ghost["stall"], prevStall) {
				bad(f.St, w, "the enclosing context is restored", "the stall index is left at %s", f.St.Ghost["stall"])
				continue
			}
			if !isArr {
				c.Expect(phase == "first" && marked == "", key, w, "a value that is no array is left alone", fmt.Sprintf("reader at %q, verdict %q", phase, marked), e.TraceLines(f.St, 25))
				continue
			}
			if phase != "done" {
				bad(f.St, w, "the reader is left just after the array", "it is left at %q", phase)
				continue
			}
			if g(f.St, "body") == "closed" {
				c.Expect(marked == "", key, w, "a settled loop is not evaluated", "it is recorded as "+marked, nil)
				continue
			}
			anyT, anyF, some := g(f.St, "anyT") == "y", g(f.St, "anyF") == "y", g(f.St, "n") == "some"
			want := anyT
			switch mode {
			case "LoopTypeEvery":
				want = !anyF
			case "LoopTypeAnyEvery":
				want = some && !anyF
			}
			c.Expect(marked == fmt.Sprint(want), key, w, "the verdict is the quantifier's", fmt.Sprintf("recorded %q, expected %v (an element true: %v, an element false: %v)", marked, want, anyT, anyF), e.TraceLines(f.St, 30))
		}
		if n == 0 {
			c.Undec("%s has no normal outcome", key)
		}
	}
	c.takeUndec(e)
}

func bv(b bool) *V {
	if b {
		return True
	}
	return False
}

// loopRest covers the neighbours of the loop function: the mode a loop rule is
// compiled to, and leaving an array that is nested any number of levels deep.
func (c *Check) loopRest() {
	m := newCompile(c)
	for _, lk := range loopKinds {
		m.judgeCompile("compile/"+lk, []*X{xL(lk, 1, xF(0, "arr"), x2("LessThan", xF(1, "x"), xV("v")))})
		m.judgeCompile("compile/"+lk, []*X{x1("Not", xL(lk, 1, xF(0, "arr"), xN("Or", x1("Exists", xF(1)), x2("LessThan", xF(1, "x"), xF(0, "y")))))})
		for _, lk2 := range loopKinds {
			m.judgeCompile("compile/"+lk, []*X{xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1, "in"), x2("LessThan", xF(2, "x"), xF(1, "v"))))})
		}
	}
	c.nesting("FastMatcher.leaveValue")
	c.nesting("FastMatcher.skipValue")
}

// nesting checks that a function that leaves or skips a value stops exactly at
// the bracket that closes it: with any nesting (widened), and exactly on all
// token sequences up to a length.
func (c *Check) nesting(name string) {
	c.nestingRun(name, true, "")
	c.nestingRun(name, false, "")
	const deep = 270
	c.nestingRun(name, true, strings.Repeat("[", deep)+strings.Repeat("]", deep))
	c.nestingRun(name, true, strings.Repeat("{[", deep/2)+strings.Repeat("]}", deep/2))
	c.nestingRun(name, true, strings.Repeat("{}", deep/2)+strings.Repeat("[]", deep/2)+strings.Repeat("v,", deep))
}

// script2 is the n-th token of a script, and then the brackets that close it.
func script2(script string, n int64, stack string) byte {
	if int(n) < len(script) {
		return script[n]
	}
	if strings.HasSuffix(stack, "{") {
		return '}'
	}
	return ']'
}

// nestingRun: exact explores every token sequence up to a length, or follows
// the one sequence of a script.
func (c *Check) nestingRun(name string, exact bool, script string) {
	m := newMat(c)
	e := m.e
	e.NoWiden = exact
	e.Pin = nil
	e.MaxUnroll = 5000
	skip := strings.HasSuffix(name, "skipValue")
	key := name
	bad := func(st *State, w, f string, a ...interface{}) {
		if g(st, "err") != "" {
			return
		}
		if exact {
			c.Bad(key, w, "a value is left exactly at its end", fmt.Sprintf(f, a...), e.TraceLines(st, 25))
		} else {
			c.Undec("%s at any depth: %s", key, fmt.Sprintf(f, a...))
		}
	}
	opens := map[string]string{"tknObjectStart": "{", "tknArrayStart": "["}
	closes := map[string]string{"tknObjectEnd": "{", "tknArrayEnd": "["}
	others := append([]string{"tknObjectKeyDelim", "tknListDelim"}, valueTokens[:7]...)
	m.hook("jsonTokenizer.Step", func(x *CallCtx, st *State) ([]Out, bool) {
		w := m.at(x)
		if g(st, "left") != "" {
			bad(st, w, "reads on past the value's end")
			return nil, true
		}
		n, _ := st.Ghost["steps"].Int()
		if exact && script == "" && n >= 7 {
			return nil, true
		}
		d := st.Ghost["depth"]
		stack := g(st, "stack")
		var outs []Out
		tk := func(names []string, f func(s *State) bool) {
			if script != "" {
				want, _ := map[byte]string{'{': "tknObjectStart", '[': "tknArrayStart", '}': "tknObjectEnd", ']': "tknArrayEnd", 'v': "tknObjectKeyDelim", ',': "tknObjectKeyDelim"}[script2(script, n, stack)]
				if names[0] != want {
					return
				}
			}
			s := st.Clone()
			t := e.FreshSym(s, "token", m.tokT)
			if !s.Facts.Restrict(t, m.tokSet(names...)) || !f(s) {
				return
			}
			if exact {
				s.Ghost["steps"] = CInt(n + 1)
				s.Log(InstrPos(x.Instr), "token %s", names[0])
			}
			outs = append(outs, Out{s, Tuple(t, e.FreshSym(s, "text", types.NewSlice(byteT)), e.FreshSym(s, "textLen", intT()), Nil)})
		}
		for o, b := range opens {
			tk([]string{o}, func(s *State) bool {
				s.Ghost["depth"] = AddI(d, 1)
				if exact {
					sg(s, "stack", stack+b)
				}
				return true
			})
		}
		for o, b := range closes {
			if exact && !strings.HasSuffix(stack, b) {
				continue
			}
			tk([]string{o}, func(s *State) bool { // the outermost bracket
				sg(s, "left", "y")
				s.Ghost["depth"] = CInt(-1)
				return s.Facts.Assume(eqI(d, Zero), true)
			})
			tk([]string{o}, func(s *State) bool {
				s.Ghost["depth"] = AddI(d, -1)
				if exact {
					sg(s, "stack", stack[:len(stack)-1])
				}
				return s.Facts.Assume(Cmp(tGTR, d, Zero, intT()), true)
			})
		}
		tk(others, func(s *State) bool { return true })
		s, ev := m.err(st, "Step")
		return append(outs, Out{s, Tuple(m.tok["tknUnknown"], Nil, Zero, ev)}), true
	})
	e.OnFault = func(f Fault) {
		if f.Must {
			bad(f.St, e.Pos(InstrPos(f.Instr)), "%s: %s", f.Kind, f.What)
		}
	}
	starts := []string{"tknArrayStart", "tknObjectStart"}
	if skip {
		starts = append(starts, "literal")
	}
	for _, s0 := range starts {
		st := m.state()
		args := []*V{m.M}
		tk := m.tok[s0]
		if s0 == "literal" {
			tk = Sym("token0", m.tokT)
			st.Facts.Restrict(tk, m.tokSet(valueTokens[:7]...))
			sg(st, "left", "y")
		} else {
			sg(st, "stack", map[bool]string{true: opens[s0], false: ""}[exact])
		}
		st.Ghost["depth"], st.Ghost["steps"] = Zero, Zero
		if !exact {
			d0 := Sym("depth0", intT())
			st.Facts.Assume(eqI(d0, Zero), true)
			st.Ghost["depth"] = d0
		}
		if skip {
			args = append(args, tk)
		}
		for _, f := range e.Call(c.fn(name), st, args) {
			w := e.Pos(InstrPos(f.Instr))
			switch {
			case f.Panic:
				bad(f.St, w, "%s", f.What)
			case m.lost(f, f.Ret):
			case errKind(f.St, f.Ret) < 0 || errKind(f.St, f.Ret) == 0:
				bad(f.St, w, "an error for a well-formed value")
			case g(f.St, "left") == "":
				bad(f.St, w, "stops before the value's end")
			default:
				c.Ok("%s from %s", key, s0)
			}
		}
	}
	c.takeUndec(e)
}

// storeNodes is the number of nodes of storeTree, each of which has a slot.
const storeNodes = 7

var storeWhere = [storeNodes]string{"of the element itself", "of a member", "of an element looped over late inside of a member", "of an inner loop's element", "of a member of an inner loop's element", "of a late loop's element", "of a member of a member"}

// storeTree makes a body node with stored nodes at every kind of place below it.
func (m *matEnv) storeTree(st *State, root *V) {
	nT, aT, lT := m.c.lookupType("ExecNode"), m.c.lookupType("AfterNode"), m.c.lookupType("LoopNode")
	n := make([]*V, storeNodes)
	n[0] = root
	for i := range n {
		if i > 0 {
			n[i] = Sym(fmt.Sprintf("stored node %d", i), types.NewPointer(nT))
			st.Facts.Assume(IsNilCond(n[i]), false)
		}
		m.set(st, n[i], nT, "StoreId", CInt(int64(i+1)))
		for _, f := range []string{"Elems", "After"} {
			m.set(st, n[i], nT, f, Nil)
		}
		m.set(st, n[i], nT, "Loops", ZeroVal(types.NewSlice(lT)))
	}
	loop := func(to *V) *V {
		return m.e.NewSlice(st, "loops below", lT, []*V{m.c.withField(Sym("inner "+to.String(), lT), lT, "Node", to)})
	}
	after := func(to *V) *V {
		a := Sym("after "+to.String(), types.NewPointer(aT))
		st.Facts.Assume(IsNilCond(a), false)
		m.set(st, a, aT, "Loops", loop(to))
		return a
	}
	m.set(st, n[0], nT, "Elems", m.strMap(st, map[string]*V{"a": n[1]}, true, nT))
	m.set(st, n[1], nT, "After", after(n[2]))
	m.set(st, n[1], nT, "Elems", m.strMap(st, map[string]*V{"b": n[6]}, true, nT))
	m.set(st, n[0], nT, "Loops", loop(n[3]))
	m.set(st, n[3], nT, "Elems", m.strMap(st, map[string]*V{"c": n[4]}, true, nT))
	m.set(st, n[0], nT, "After", after(n[5]))
}

// fillSlots: every one of the slots may hold something.
func (m *matEnv) fillSlots(st *State) {
	sT := m.c.lookupType("slotData")
	var vs []*V
	for i := 0; i < storeNodes; i++ {
		vs = append(vs, Sym(fmt.Sprintf("stored value %d", i+1), sT))
	}
	vs = append(vs, Sym("slot of another node", sT))
	ex := m.get(st, m.M, m.mT, "slots")
	if ex.Op != "slice" {
		m.set(st, m.M, m.mT, "slots", m.e.NewSlice(st, "slots", sT, vs))
		return
	}
	for i, v := range vs[:storeNodes] {
		m.setElem(st, ex, CInt(int64(i)), sT, v)
	}
}
