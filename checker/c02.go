package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// C02: the evaluation tree computes three-valued logic.
//
// The marking, closing and resetting functions are interpreted abstractly on
// local configurations of a tree of unknown size: the indices of the node, its
// parent, sibling and children are symbols known only to be different, every
// other node is arbitrary. The resulting state map is compared with the truth
// table of the node kind.

func init() { checks["C02"] = c02 }

type treeModel struct {
	heap
	stT, trT, ndT     types.Type
	S, T              *V // *binTreeState, *binTree
	nodes, vals, n    *V
	valT              types.Type
	U, R, TT, FF      *V
	kinds             map[string]*V
	stall             *V
	syms              map[*V]bool
	kindNames, stName map[*V]string
}

func newTree(c *Check) *treeModel {
	m := &treeModel{heap: heap{c: c, e: c.Engine()}}
	m.e.MaxRec = 5
	m.stT, m.trT, m.ndT = c.lookupType("binTreeState"), c.lookupType("binTree"), c.lookupType("binTreeNode")
	m.S = Sym("state", types.NewPointer(m.stT))
	m.T = Sym("tree", types.NewPointer(m.trT))
	m.U, m.R, m.TT, m.FF = c.konst("binTreeStateUnknown"), c.konst("binTreeStateResolved"), c.konst("binTreeStateTrue"), c.konst("binTreeStateFalse")
	m.kinds = map[string]*V{}
	m.kindNames, m.stName = map[*V]string{}, map[*V]string{m.U: "undecided", m.R: "closed", m.TT: "true", m.FF: "false"}
	for k, n := range map[string]string{"leaf": "nodeTypeLeaf", "or": "nodeTypeOr", "and": "nodeTypeAnd", "not": "nodeTypeNot", "merge": "nodeTypeNeor", "loop": "nodeTypeLoop"} {
		m.kinds[k] = c.konst(n)
		m.kindNames[m.kinds[k]] = k
	}
	_, dt := c.fieldPath(m.trT, "data")
	_, vt := c.fieldPath(m.stT, "data")
	m.valT = vt.Underlying().(*types.Slice).Elem()
	m.nodes, m.vals = Sym("nodes", dt), Sym("vals", vt)
	m.n = T("len", "", nil, m.vals)
	m.stall = Sym("stall", intT())
	m.syms = map[*V]bool{m.stall: true, m.vals: true, m.nodes: true, m.n: true, m.S: true, m.T: true}
	return m
}

// fresh makes a state with an arbitrary tree.
func (m *treeModel) fresh() *State {
	st := m.e.NewState()
	m.set(st, m.S, m.stT, "tree", m.T)
	m.set(st, m.S, m.stT, "data", m.vals)
	m.set(st, m.S, m.stT, "stallIndex", m.stall)
	m.set(st, m.T, m.trT, "data", m.nodes)
	st.Facts.Assume(eqI(T("len", "", nil, m.nodes), m.n), true)
	st.Facts.Assume(Cmp(token.GTR, m.n, Zero, intT()), true)
	st.Facts.Assume(IsNilCond(m.S), false)
	st.Facts.Assume(IsNilCond(m.T), false)
	return st
}

func (m *treeModel) node(st *State, idx *V, kind string, parent, left, right *V) {
	v := ZeroVal(m.ndT)
	v = m.c.withField(v, m.ndT, "NodeType", m.kinds[kind])
	v = m.c.withField(v, m.ndT, "ParentIdx", parent)
	v = m.c.withField(v, m.ndT, "Left", left)
	v = m.c.withField(v, m.ndT, "Right", right)
	m.setElem(st, m.nodes, idx, m.ndT, v)
}

func (m *treeModel) val(st *State, idx, v *V) { m.setElem(st, m.vals, idx, m.valT, v) }
func (m *treeModel) read(st *State, idx *V) *V {
	return m.elem(st, m.get(st, m.S, m.stT, "data"), idx, m.valT)
}

// is decides whether the node's final state is v.
func (m *treeModel) is(st *State, idx, v *V) int { return st.Facts.Eval(eqI(m.read(st, idx), v)) }

type tri int // 0 undecided, 1 true, 2 false

func notT(a tri) tri { return [...]tri{0, 2, 1}[a] }
func andT(a, b tri) tri {
	switch {
	case a == 2 || b == 2:
		return 2
	case a == 1 && b == 1:
		return 1
	}
	return 0
}
func triOf(kind string, l, r tri) tri {
	switch kind {
	case "and":
		return andT(l, r)
	case "or":
		return notT(andT(notT(l), notT(r)))
	case "merge": // both sides must be settled; then their disjunction
		if l == 0 || r == 0 {
			return 0
		}
		return notT(andT(notT(l), notT(r)))
	case "not":
		return notT(l)
	}
	return l // loop
}

func (m *treeModel) tv(t tri) *V { return [...]*V{m.U, m.TT, m.FF}[t] }

var binaryKind = map[string]bool{"or": true, "and": true, "merge": true}

// expectNode compares a node's state.
func (m *treeModel) expectNode(f *Final, key, what string, idx *V, want *V, closed bool) {
	c := m.c
	where := m.e.Pos(InstrPos(f.Instr))
	got := m.read(f.St, idx)
	d := m.stName[got]
	if d == "" {
		d = got.String()
	}
	if closed {
		ok := m.is(f.St, idx, m.U) < 0 && m.is(f.St, idx, m.TT) < 0
		c.decide(ok, m.is(f.St, idx, m.U) > 0 || m.is(f.St, idx, m.TT) > 0, key, where, "undecided conditions below a decided node are closed", what+": left "+d+", expected closed", nil)
		return
	}
	r := m.is(f.St, idx, want)
	w := m.stName[want]
	if w == "" {
		w = "unchanged"
	}
	c.decide(r > 0, r < 0, key, where, "three-valued logic", what+": "+d+", expected "+w, nil)
}

// decide records an obligation with three outcomes.
func (c *Check) decide(ok, bad bool, key, where, rule, what string, path []string) {
	switch {
	case ok:
		c.Ok("%s: %s (%s)", key, rule, what)
	case bad:
		c.Bad(key, where, rule, what, path)
	default:
		c.Oblig++
		c.Undec("%s: %s", key, what)
	}
}

func c02(c *Check) {
	c.Cov["rule"] = "abstract interpretation of marking/closing/resetting on local tree configurations with symbolic indices; result compared with the three-valued truth table of the node kind"
	m := newTree(c)
	m.e.MaxUnroll, m.e.MaxStates = 24, 3000
	mark := c.fn("binTreeState.MarkNode")
	idx := func(n string) *V { v := Sym(n, intT()); m.syms[v] = true; return v }
	L, Rr, P, other := idx("left"), idx("right"), idx("parent"), idx("other")
	m.e.Pin = func(v *V) bool { return m.syms[v] }
	faults := map[string]bool{}
	m.e.OnFault = func(f Fault) { faults[m.e.Pos(InstrPos(f.Instr))+" "+f.Kind+" "+f.What] = true }
	run := func(fn *ssa.Function, st *State, key, what string, args []*V, check func(f *Final)) {
		fins := m.e.Call(fn, st, args)
		n := 0
		for _, f := range fins {
			if f.Panic {
				c.Bad(key, m.e.Pos(InstrPos(f.Instr)), "recording a verdict never fails", what+": "+f.What, m.e.TraceLines(f.St, 20))
				continue
			}
			n++
			check(f)
		}
		if n == 0 && len(m.e.Undecided) == 0 && len(fins) == 0 {
			c.Undec("%s has no outcome for %s", key, what)
		}
		c.takeUndec(m.e)
	}
	mustKey := "MarkNode"
	configs := 0
	for _, kind := range []string{"or", "and", "merge", "not", "loop"} {
		for _, leftSide := range []bool{true, false} {
			if !leftSide && !binaryKind[kind] {
				continue
			}
			for sib := tri(0); sib < 3; sib++ {
				if !binaryKind[kind] && sib > 0 {
					continue
				}
				if binaryKind[kind] && triOf(kind, [2]tri{0, sib}[b01(leftSide == false)], [2]tri{sib, 0}[b01(leftSide == false)]) != 0 {
					continue // the parent would be decided already
				}
				for v := tri(1); v < 3; v++ {
					for _, pos := range []string{"root", "inner", "stalled at parent", "stalled at child"} {
						configs++
						st := m.fresh()
						p := P
						if pos == "root" {
							p = Zero
						}
						me, sb := L, Rr
						if !leftSide {
							me, sb = Rr, L
						}
						right := Zero
						if binaryKind[kind] {
							right = Rr
						}
						all := []*V{L, Rr, other, p, Zero}
						if pos == "root" {
							all = []*V{L, Rr, other, Zero}
						}
						distinct(st, all...)
						within(st, m.n, all...)
						stall := m.stall
						switch pos {
						case "stalled at parent":
							st.Facts.Assume(eqI(stall, p), true)
							m.set(st, m.S, m.stT, "stallIndex", p)
						case "stalled at child":
							m.set(st, m.S, m.stT, "stallIndex", me)
						default:
							distinct(st, stall, me)
							if p != Zero {
								distinct(st, stall, p)
							}
						}
						m.node(st, p, kind, Zero, L, right)
						if p != Zero {
							m.node(st, Zero, "not", Zero, p, Zero)
							m.val(st, Zero, m.U)
						}
						m.node(st, L, "leaf", p, Zero, Zero)
						m.val(st, p, m.U)
						m.val(st, L, m.U)
						if binaryKind[kind] {
							m.node(st, Rr, "leaf", p, Zero, Zero)
						}
						m.val(st, sb, m.tv(sib))
						m.val(st, me, m.U)
						before := m.read(st, other)
						sv := m.tv(v)
						what := fmt.Sprintf("%s %s side becomes %s, other side %s, node is %s", kind, side(leftSide), m.stName[sv], m.stName[m.tv(sib)], pos)
						l, r := v, sib
						if !leftSide {
							l, r = sib, v
						}
						want := triOf(kind, l, r)
						if pos == "stalled at child" {
							want = 0
						}
						run(mark, st, mustKey, what, []*V{m.S, me, CBool(v == 1)}, func(f *Final) {
							m.expectNode(f, mustKey, what+": the condition", me, sv, false)
							m.expectNode(f, mustKey, what+": the "+kind+" node", p, m.tv(want), false)
							if binaryKind[kind] {
								m.expectNode(f, mustKey, what+": the other side", sb, m.tv(sib), sib == 0 && want != 0)
							}
							if p != Zero {
								g := notT(want)
								if pos != "inner" {
									g = 0
								}
								m.expectNode(f, mustKey, what+": the enclosing not", Zero, m.tv(g), false)
							}
							m.expectNode(f, mustKey, what+": an unrelated node", other, before, false)
						})
					}
				}
			}
		}
	}
	// closing below a directly decided node, two levels deep
	X, A, B, A1, A2 := idx("x"), idx("a"), idx("b"), idx("a1"), idx("a2")
	for _, onRight := range []bool{false, true} {
		for _, kind := range []string{"or", "and", "merge", "not", "loop"} {
			for _, sub := range []string{"leaf", "or", "and", "merge", "not", "loop"} {
				if onRight && !binaryKind[kind] {
					continue
				}
				for bs := tri(0); bs < 3; bs++ {
					if !binaryKind[kind] && bs > 0 {
						continue
					}
					for v := tri(1); v < 3; v++ {
						configs++
						st := m.fresh()
						distinct(st, X, A, B, A1, A2, other, Zero)
						within(st, m.n, X, A, B, A1, A2, other, Zero)
						m.set(st, m.S, m.stT, "stallIndex", X)
						left, right := A, Zero
						if binaryKind[kind] {
							right = B
						}
						if onRight {
							left, right = B, A
						}
						m.node(st, X, kind, Zero, left, right)
						a1, a2 := Zero, Zero
						if sub != "leaf" {
							a1 = A1
						}
						if binaryKind[sub] {
							a2 = A2
						}
						m.node(st, A, sub, X, a1, a2)
						m.node(st, B, "leaf", X, Zero, Zero)
						m.node(st, A1, "leaf", A, Zero, Zero)
						m.node(st, A2, "leaf", A, Zero, Zero)
						for _, i := range []*V{X, A, A1, A2} {
							m.val(st, i, m.U)
						}
						m.val(st, B, m.tv(bs))
						before, root := m.read(st, other), m.read(st, Zero)
						what := fmt.Sprintf("%s node over a %s (%s) is decided %s", kind, sub, side(!onRight), m.stName[m.tv(v)])
						run(mark, st, "closing", what, []*V{m.S, X, CBool(v == 1)}, func(f *Final) {
							m.expectNode(f, "closing", what+": the node", X, m.tv(v), false)
							m.expectNode(f, "closing", what+": the child", A, nil, true)
							if sub != "leaf" {
								m.expectNode(f, "closing", what+": the left grandchild", A1, nil, true)
							}
							if binaryKind[sub] {
								m.expectNode(f, "closing", what+": the right grandchild", A2, nil, true)
							}
							if binaryKind[kind] {
								m.expectNode(f, "closing", what+": the other child", B, m.tv(bs), bs == 0)
							}
							m.expectNode(f, "closing", what+": an unrelated node", other, before, false)
							m.expectNode(f, "closing", what+": the root", Zero, root, false)
						})
						// the same subtree reopened
						if v == 2 {
							continue
						}
						st = st.Clone()
						for i, x := range []*V{X, A, B, A1, A2} {
							m.val(st, x, []*V{m.TT, m.FF, m.R, m.R, m.TT}[i])
						}
						run(c.fn("binTreeState.ResetNode"), st, "ResetNode", what, []*V{m.S, X}, func(f *Final) {
							xs := []*V{X, A}
							if sub != "leaf" {
								xs = append(xs, A1)
							}
							if binaryKind[sub] {
								xs = append(xs, A2)
							}
							if binaryKind[kind] {
								xs = append(xs, B)
							}
							for _, x := range xs {
								m.expectNode(f, "ResetNode", "resetting a "+kind+" over a "+sub+" "+side(!onRight)+": node "+x.String(), x, m.U, false)
							}
							m.expectNode(f, "ResetNode", "resetting a "+kind+" over a "+sub+" "+side(!onRight)+": an unrelated node", other, before, false)
							m.expectNode(f, "ResetNode", "resetting a "+kind+" over a "+sub+" "+side(!onRight)+": the root", Zero, root, false)
							s := m.get(f.St, m.S, m.stT, "stallIndex")
							c.Expect(s == X, "ResetNode", "bintree.go", "resetting a subtree leaves the loop context alone", "stall index becomes "+s.String(), nil)
						})
					}
				}
			}
		}
	}
	// full reset
	st := m.fresh()
	any := idx("any")
	within(st, m.n, any)
	run(c.fn("binTreeState.Reset"), st, "Reset", "Reset", []*V{m.S}, func(f *Final) {
		m.expectNode(f, "Reset", "after Reset: an arbitrary node", any, m.U, false)
		s := m.get(f.St, m.S, m.stT, "stallIndex")
		c.Expect(s == Zero, "Reset", "bintree.go", "Reset forgets the loop context", "stall index is "+s.String(), nil)
	})
	for n := int64(1); n < 4; n++ {
		st := m.fresh()
		st.Facts.Assume(eqI(m.n, CInt(n)), true)
		m.e.NoWiden = true
		run(c.fn("binTreeState.Reset"), st, "Reset", "Reset", []*V{m.S}, func(f *Final) {
			for i := int64(0); i < n; i++ {
				can := f.St.Clone().Facts.Assume(eqI(m.read(f.St, CInt(i)), m.U), false)
				c.Expect(!can, "Reset", "bintree.go", "Reset forgets everything about the previous document", fmt.Sprintf("after Reset node %d of %d may keep its verdict", i, n), nil)
			}
		})
		m.e.NoWiden = false
	}
	// queries
	for v, name := range m.stName {
		st := m.fresh()
		within(st, m.n, any)
		m.val(st, any, v)
		run(c.fn("binTreeState.IsResolved"), st.Clone(), "IsResolved", name, []*V{m.S, any}, func(f *Final) {
			c.decide(f.Ret == CBool(v != m.U), f.Ret == CBool(v == m.U), "IsResolved", "bintree.go", "a node is decided unless undecided", fmt.Sprintf("IsResolved of a node that is %s is %s", name, f.Ret), nil)
		})
		run(c.fn("binTreeState.IsTrue"), st.Clone(), "IsTrue", name, []*V{m.S, any}, func(f *Final) {
			c.decide(f.Ret == CBool(v == m.TT), f.Ret == CBool(v != m.TT), "IsTrue", "bintree.go", "a node is true only if decided true", fmt.Sprintf("IsTrue of a node that is %s is %s", name, f.Ret), nil)
		})
	}
	// a new state
	st = m.fresh()
	run(c.fn("binTree.NewState"), st, "NewState", "NewState", []*V{m.T}, func(f *Final) {
		d := m.get(f.St, f.Ret, m.stT, "data")
		_, _, n, _ := SliceParts(d)
		c.Expect(c.eqv(f.St, n, m.n), "NewState", "bintree.go", "one state per node", "length "+n.String(), nil)
		within(f.St, m.n, any)
		got := m.elem(f.St, d, any, m.valT)
		c.Expect(got == m.U, "NewState", "bintree.go", "a new state is undecided everywhere", "arbitrary node is "+got.String(), nil)
		c.Expect(m.get(f.St, f.Ret, m.stT, "tree") == m.T, "NewState", "bintree.go", "the state belongs to its tree", "", nil)
		s := m.get(f.St, f.Ret, m.stT, "stallIndex")
		c.Expect(s == Zero, "NewState", "bintree.go", "a new state is in no loop", "stall index is "+s.String(), nil)
	})
	// stall index
	st = m.fresh()
	run(c.fn("binTreeState.SetStallIndex"), st, "SetStallIndex", "SetStallIndex", []*V{m.S, any}, func(f *Final) {
		s := m.get(f.St, m.S, m.stT, "stallIndex")
		c.Expect(s == any && f.Ret == m.stall, "SetStallIndex", "bintree.go", "entering a loop returns the enclosing context", fmt.Sprintf("sets %s, returns %s", s, f.Ret), nil)
	})
	c02finish(c)
	c02resolve(c, m, mark, 0)
	for n := int64(1); n < 4; n++ {
		c02resolve(c, m, mark, n)
	}
	c.Cov["configurations"] = configs
	c.Assume = append(c.Assume, "tree invariants established by compilation (C20): children numbered after their parent, parent links correct")
	for f := range faults {
		c.Undec("possible fault: %s", f)
	}
}

// c02finish: finishing the value a loop looks at decides its node, what was
// never reached being false.
func c02finish(c *Check) {
	if c.P.Method("binTreeState", "ResolveNode") == nil {
		return
	}
	const rule = "a finished element has a verdict: what was not reached is false"
	fn := c.fn("binTreeState.ResolveNode")
	type shape struct {
		what  string
		kinds []string // of node 1, 2, ...; node 0 is the loop
		kids  [][]int
	}
	shapes := []shape{{"leaf", []string{"leaf"}, [][]int{nil}}, {"not", []string{"not", "leaf"}, [][]int{{2}, nil}}}
	for _, k := range []string{"and", "or", "merge"} {
		shapes = append(shapes,
			shape{k, []string{k, "leaf", "leaf"}, [][]int{{2, 3}, nil, nil}},
			shape{k + " of not", []string{k, "not", "leaf", "leaf"}, [][]int{{2, 4}, {3}, nil, nil}},
			shape{k + " with not", []string{k, "leaf", "not", "leaf"}, [][]int{{2, 3}, nil, {4}, nil}},
			shape{"not of " + k, []string{"not", k, "leaf", "leaf"}, [][]int{{2}, {3, 4}, nil, nil}})
	}
	for _, sh := range shapes {
		var leaves []int
		for i, k := range sh.kinds {
			if k == "leaf" {
				leaves = append(leaves, i+1)
			}
		}
		n := 1
		for range leaves {
			n *= 3
		}
		for code := 0; code < n; code++ {
			m := newTree(c)
			m.e.NoWiden, m.e.MaxRec, m.e.MaxUnroll = true, 12, 20
			st := m.fresh()
			st.Facts.Assume(eqI(m.n, CInt(int64(len(sh.kinds)+1))), true)
			now := make([]tri, len(sh.kinds)+1)
			for i, x := 0, code; i < len(leaves); i, x = i+1, x/3 {
				now[leaves[i]] = tri(x % 3)
			}
			var ev func(i int, end bool) tri
			ev = func(i int, end bool) tri {
				k, ch := sh.kinds[i-1], sh.kids[i-1]
				if k == "leaf" {
					if end && now[i] == 0 {
						return 2
					}
					return now[i]
				}
				l, r := ev(ch[0], end), tri(0)
				if len(ch) > 1 {
					r = ev(ch[1], end)
				}
				return triOf(k, l, r)
			}
			m.node(st, Zero, "loop", Zero, CInt(1), Zero)
			m.val(st, Zero, m.U)
			parent := map[int]int{1: 0}
			for i, ch := range sh.kids {
				l, r := Zero, Zero
				for j, k := range ch {
					parent[k] = i + 1
					if j == 0 {
						l = CInt(int64(k))
					} else {
						r = CInt(int64(k))
					}
				}
				m.node(st, CInt(int64(i+1)), sh.kinds[i], CInt(int64(parent[i+1])), l, r)
				m.val(st, CInt(int64(i+1)), m.tv(ev(i+1, false)))
			}
			m.set(st, m.S, m.stT, "stallIndex", CInt(1))
			what := fmt.Sprintf("%s with conditions %v", sh.what, now[1:])
			key, want := "ResolveNode", m.tv(ev(1, true))
			for _, f := range m.e.Call(fn, st, []*V{m.S, CInt(1)}) {
				w := m.e.Pos(InstrPos(f.Instr))
				if f.Panic {
					c.Bad(key, w, rule, what+": "+f.What, m.e.TraceLines(f.St, 20))
					continue
				}
				got := m.is(f.St, CInt(1), want)
				c.decide(got > 0, got < 0, key, w, rule, what+": the verdict is "+m.read(f.St, CInt(1)).String(), m.e.TraceLines(f.St, 20))
				z := m.is(f.St, Zero, m.U)
				c.decide(z > 0, z < 0, key, w, "outer decisions are held back during the loop", what+": the loop's own node is "+m.read(f.St, Zero).String(), nil)
			}
			c.takeUndec(m.e)
		}
	}
}

// c02resolve: finishing a document decides undecided nodes false, children first.
func c02resolve(c *Check, m *treeModel, mark *ssa.Function, size int64) {
	key := "Resolve"
	st := m.fresh()
	m.e.NoWiden = size > 0
	if size > 0 {
		st.Facts.Assume(eqI(m.n, CInt(size)), true)
	}
	st.Ghost["next"] = AddI(m.n, -1) // the highest index not yet dealt with
	markName := m.e.ShortName(mark)
	m.e.Pin = func(v *V) bool { return v == m.n || v == m.vals }
	bad := func(f string, a ...interface{}) {
		c.Bad(key, "bintree.go", "bottom-up closing", fmt.Sprintf(f, a...), nil)
	}
	m.e.Hooks[markName] = func(x *CallCtx, st *State) ([]Out, bool) {
		i, v := x.Args[1], x.Args[2]
		if v != False {
			bad("a condition never reached is decided %s", v)
		}
		nx := st.Ghost["next"]
		if st.Facts.Eval(eqI(i, nx)) <= 0 {
			if st.Facts.Eval(eqI(i, nx)) < 0 {
				bad("node %s is decided before node %s has been dealt with", i, nx)
			} else {
				c.Undec("order of closing not decided (%s vs %s)", i, nx)
			}
		}
		cur := m.read(st, i)
		c.decide(st.Facts.Eval(eqI(cur, m.U)) > 0, st.Facts.Eval(eqI(cur, m.U)) < 0, key, "bintree.go", "only undecided nodes are closed", "closing node "+i.String(), nil)
		// marking changes the state arbitrarily but decides the node
		nv := m.e.FreshSym(st, "vals'", m.vals.Typ)
		arr := T("arr", "", m.vals.Typ, nv)
		p, _, _, _ := SliceParts(m.vals)
		m.e.Store(st, p, m.vals.Typ, arr)
		now := m.read(st, i)
		st.Facts.Assume(eqI(now, m.U), false)
		st.Ghost["next"] = AddI(i, -1)
		return []Out{{st, Tuple()}}, true
	}
	m.e.OnElem = func(e *Engine, st *State, arr, idx *V, in ssa.Instruction) []*State {
		nx := st.Ghost["next"]
		if nx == nil || st.Facts.Eval(eqI(idx, nx)) <= 0 {
			return nil
		}
		if arr != m.e.SliceContent(st, m.get(st, m.S, m.stT, "data")) {
			return nil
		}
		// splitting on whether this is the root and whether it is decided
		var out []*State
		for _, isRoot := range []bool{true, false} {
			r := st.Clone()
			if !r.Facts.Assume(eqI(idx, Zero), isRoot) {
				continue
			}
			el := e.ArrRead(r.Facts, arr, idx, m.valT)
			a, b := r, r.Clone()
			if a.Facts.Assume(eqI(el, m.U), true) {
				out = append(out, a)
			}
			if b.Facts.Assume(eqI(el, m.U), false) {
				b.Ghost["next"] = AddI(nx, -1)
				out = append(out, b)
			}
		}
		return out
	}
	fins := m.e.Call(c.fn("binTreeState.Resolve"), st, []*V{m.S})
	n := 0
	for _, f := range fins {
		if f.Panic {
			bad("%s", f.What)
			continue
		}
		n++
		r := m.is(f.St, Zero, m.U)
		if r == 0 && Debug {
			fmt.Println(f.St.Facts.Dump(), m.read(f.St, Zero), m.e.TraceLines(f.St, 40))
		}
		c.decide(r < 0, r > 0 && size > 0, key, m.e.Pos(InstrPos(f.Instr)), "a finished document has a verdict", "root after Resolve", m.e.TraceLines(f.St, 12))
	}
	if n == 0 {
		c.Undec("Resolve has no normal outcome")
	}
	delete(m.e.Hooks, markName)
	m.e.OnElem, m.e.Pin = nil, nil
	c.takeUndec(m.e)
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func side(l bool) string {
	if l {
		return "left"
	}
	return "right"
}
