package main

import (
	"fmt"
	"go/types"
	"strings"

	. "verifcheck/absint"
)

// C04: operators.
//
// The condition function is interpreted for every operator and operand form on
// symbolic operand values. Comparison is a symbol of the ordered pair it was
// asked for, so that exchanged operands or a different relation show.

func init() { checks["C04"] = c04 }

func c04(c *Check) {
	c.Cov["rule"] = "the verdict recorded for a condition is its operator's relation on (left, right); nothing is recorded for a settled condition; a missing stored field makes it false; an improper comparison sets the status"
	for _, op := range opNames {
		if op == "OpTypeIn" {
			continue // never compiled
		}
		for _, lf := range []string{"nil", "slot", "other"} {
			for _, rf := range []string{"nil", "slot", "other"} {
				for _, lit := range []bool{true, false} {
					c.matchOp(op, lf, rf, lit)
				}
			}
		}
	}
	c.params()
	c.matches()
	// operators as they are compiled
	m := newCompile(c)
	for _, l := range leafShapes(0, "v") {
		m.judgeCompile("compile/"+l.Kind, []*X{l})
	}
}

// refValue is an operand reference of a form.
func (m *matEnv) refValue(st *State, form, name string) *V {
	switch form {
	case "nil":
		return Nil
	case "slot":
		t := m.c.lookupType("SlotRef")
		return Iface(t, m.c.withField(ZeroVal(t), t, "Slot", Sym("slot "+name, intT())))
	}
	t := m.c.lookupType("FuncRef")
	return Iface(t, Sym("function "+name, t))
}

func (c *Check) matchOp(op, lf, rf string, withLit bool) {
	m := newMat(c)
	e := m.e
	key := fmt.Sprintf("matchOp/%s", op)
	boolT := types.Typ[types.Bool]
	opT := c.lookupType("OpNode")
	B := Sym("bucket", intT())
	st := m.state()
	lhs, rhs := m.refValue(st, lf, "left"), m.refValue(st, rf, "right")
	O := Sym("op", types.NewPointer(opT))
	st.Facts.Assume(IsNilCond(O), false)
	m.set(st, O, opT, "BucketIdx", B)
	m.set(st, O, opT, "Op", c.konst(op))
	m.set(st, O, opT, "Lhs", lhs)
	m.set(st, O, opT, "Rhs", rhs)
	st.Facts.Assume(Cmp(tGEQ, B, Zero, intT()), true)
	tree := Sym("buckets", types.NewPointer(c.lookupType("binTreeState")))
	st.Facts.Assume(IsNilCond(tree), false)
	m.set(st, m.M, m.mT, "buckets", tree)
	flag0 := Sym("collation used before", boolT)
	m.set(st, m.M, m.mT, "collateUsed", flag0)
	missingV := c.konst("MissingValue")
	litV := Sym("value at hand", m.fvT)
	lit := Nil
	if withLit {
		lit = m.e.NewObj(st, "lit", m.fvT, litV)
	}
	L, R := Sym("left value", m.fvT), Sym("right value", m.fvT)
	missing := c.withField(ZeroVal(m.fvT), m.fvT, "dataType", missingV)
	if f := c.P.Func("NewMissingFastVal"); f != nil {
		if fs := e.Call(f, m.state(), nil); len(fs) == 1 && !fs[0].Panic {
			missing = fs[0].Ret
		}
	}
	operand := func(form string, v *V) *V {
		if form != "nil" {
			return v
		}
		if withLit {
			return litV
		}
		return missing
	}
	wl, wr := operand(lf, L), operand(rf, R)
	bad := func(s *State, w, f string, a ...interface{}) {
		c.Bad(key, w, "a condition records its operator's verdict", fmt.Sprintf("%s with left %s, right %s, value at hand %v: ", op, lf, rf, withLit)+fmt.Sprintf(f, a...), e.TraceLines(s, 20))
	}
	m.hook("FastMatcher.resolveParam", func(x *CallCtx, s *State) ([]Out, bool) {
		if x.Args[2] != lit {
			return nil, false
		}
		switch x.Args[1] {
		case lhs:
			return []Out{{s, L}}, true
		case rhs:
			return []Out{{s, R}}, true
		}
		return nil, false
	})
	which := func(v *V) string {
		l, r := v == wl, v == wr
		switch {
		case l && r:
			return "LR"
		case l:
			return "L"
		case r:
			return "R"
		}
		return ""
	}
	cmp, valid := Sym("compare(left, right)", intT()), Sym("proper comparison", boolT)
	pair := func(x *CallCtx) (same, swap bool) {
		a, b := which(x.Args[0]), which(x.Args[1])
		return strings.Contains(a, "L") && strings.Contains(b, "R"), strings.Contains(a, "R") && strings.Contains(b, "L")
	}
	m.hook("FastVal.Compare", func(x *CallCtx, s *State) ([]Out, bool) {
		same, swap := pair(x)
		switch {
		case same:
			return []Out{{s, Tuple(cmp, valid)}}, true
		case swap:
			return []Out{{s, Tuple(Sub(Zero, cmp), valid)}}, true
		}
		if a, b := which(x.Args[0]), which(x.Args[1]); a != "" && b != "" {
			return []Out{{s, Tuple(Sym("compare("+a+","+b+")", intT()), Sym("proper("+a+","+b+")", boolT))}}, true
		}
		return nil, false
	})
	mv := Sym("left matches right", boolT)
	m.hook("FastVal.Matches", func(x *CallCtx, s *State) ([]Out, bool) {
		if same, _ := pair(x); same {
			return []Out{{s, Tuple(mv, valid)}}, true
		}
		if a, b := which(x.Args[0]), which(x.Args[1]); a != "" && b != "" {
			return []Out{{s, Tuple(Sym("matches("+a+","+b+")", boolT), Sym("proper("+a+","+b+")", boolT))}}, true
		}
		return nil, false
	})
	m.hook("binTreeState.IsResolved", func(x *CallCtx, s *State) ([]Out, bool) {
		if !c.eqv(s, x.Args[1], B) {
			a, b := s.Clone(), s.Clone()
			return []Out{{a, True}, {b, False}}, true
		}
		if g(s, "mark") != "" {
			return []Out{{s, True}}, true
		}
		switch g(s, "settled") {
		case "y":
			return []Out{{s, True}}, true
		case "n":
			return []Out{{s, False}}, true
		}
		a, b := s.Clone(), s.Clone()
		sg(a, "settled", "y")
		sg(b, "settled", "n")
		return []Out{{a, True}, {b, False}}, true
	})
	m.hook("binTreeState.MarkNode", func(x *CallCtx, s *State) ([]Out, bool) {
		w := m.at(x)
		if !c.eqv(s, x.Args[1], B) {
			bad(s, w, "the verdict is recorded for node %s", x.Args[1])
			return nil, true
		}
		if g(s, "mark") != "" {
			bad(s, w, "the verdict is recorded twice")
			return nil, true
		}
		if g(s, "settled") != "n" {
			bad(s, w, "a verdict is recorded without knowing that the condition is open")
			return nil, true
		}
		var outs []Out
		for _, v := range []bool{true, false} {
			n := s.Clone()
			switch k := n.Facts.Eval(x.Args[2]); {
			case k != 0 && (k > 0) != v:
				continue
			case k == 0 && !n.Facts.Assume(x.Args[2], v):
				continue
			}
			sg(n, "mark", fmt.Sprint(v))
			n.Log(InstrPos(x.Instr), "verdict %v recorded", v)
			outs = append(outs, Out{n, Tuple()})
		}
		return outs, true
	})
	e.OnFault = func(f Fault) {
		if f.Must {
			bad(f.St, e.Pos(InstrPos(f.Instr)), "%s: %s", f.Kind, f.What)
		} else {
			c.Undec("%s: cannot exclude %s at %s", key, f.Kind, e.Pos(InstrPos(f.Instr)))
		}
	}
	for _, f := range e.Call(c.fn("FastMatcher.matchOp"), st, []*V{m.M, O, lit}) {
		s, w := f.St, e.Pos(InstrPos(f.Instr))
		if f.Panic {
			bad(s, w, "panics: %s", f.What)
			continue
		}
		if errKind(s, f.Ret) <= 0 {
			bad(s, w, "returns an error")
			continue
		}
		mark := g(s, "mark")
		flag := m.get(s, m.M, m.mT, "collateUsed")
		if g(s, "settled") == "y" {
			if mark != "" {
				bad(s, w, "a settled condition is recorded again")
			} else if flag != flag0 && !sameFlag(s, flag, flag0) {
				bad(s, w, "a settled condition changes the status")
			} else {
				c.Ok("%s settled", key)
			}
			continue
		}
		if mark == "" {
			bad(s, w, "no verdict is recorded")
			continue
		}
		// expected verdict, by cases
		var cases []struct {
			st        *State
			want, val bool
		}
		add := func(s *State, want, val bool) {
			cases = append(cases, struct {
				st        *State
				want, val bool
			}{s, want, val})
		}
		byBool := func(s *State, v *V, f func(*State, bool)) {
			for _, b := range []bool{true, false} {
				n := s.Clone()
				if k := n.Facts.Eval(v); k != 0 {
					if (k > 0) == b {
						f(n, b)
					}
					continue
				}
				if n.Facts.Assume(v, b) {
					f(n, b)
				}
			}
		}
		for i, form := range []string{lf, rf} {
			if form == "slot" {
				mc := Cmp(tEQL, c.fieldOf([]*V{L, R}[i], m.fvT, "dataType"), missingV, c.lookupType("ValueType"))
				byBool(s, mc, func(n *State, is bool) {
					if is {
						add(n, false, true)
					}
				})
				s = s.Clone()
				if !s.Facts.Assume(mc, false) {
					s = nil
					break
				}
			}
		}
		if s != nil {
			rel := func(cond *V) {
				byBool(s, cond, func(n *State, b bool) {
					byBool(n, valid, func(n2 *State, v bool) {
						if op == "OpTypeEquals" {
							b = b && v
						}
						add(n2, b, v)
					})
				})
			}
			switch op {
			case "OpTypeEquals":
				rel(Cmp(tEQL, cmp, Zero, intT()))
			case "OpTypeLessThan":
				rel(Cmp(tLSS, cmp, Zero, intT()))
			case "OpTypeLessEquals":
				rel(Cmp(tLEQ, cmp, Zero, intT()))
			case "OpTypeGreaterThan":
				rel(Cmp(tGTR, cmp, Zero, intT()))
			case "OpTypeGreaterEquals":
				rel(Cmp(tGEQ, cmp, Zero, intT()))
			case "OpTypeMatches":
				rel(mv)
			case "OpTypeExists":
				add(s, true, true)
			}
		}
		for _, k := range cases {
			if mark != fmt.Sprint(k.want) {
				bad(k.st, w, "%s is recorded where the relation gives %v", mark, k.want)
				continue
			}
			want := flag0
			if !k.val {
				want = True
			}
			if !sameFlag(k.st, flag, want) {
				bad(k.st, w, "the collation status is %s, expected %s", flag, want)
				continue
			}
			c.Ok("%s", key)
		}
	}
	c.takeUndec(e)
}

// sameFlag compares two Boolean terms under the facts of a path.
func sameFlag(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	x, y := st.Facts.Eval(a), st.Facts.Eval(b)
	return x != 0 && x == y
}

// params checks what each form of operand reference is resolved to.
func (c *Check) params() {
	m := newMat(c)
	e := m.e
	key := "resolveParam"
	lv := Sym("value at hand", m.fvT)
	m.hook("FastMatcher.literalFromSlot", func(x *CallCtx, s *State) ([]Out, bool) {
		return []Out{{s, T("stored", "", m.fvT, x.Args[1])}}, true
	})
	m.hook("FastMatcher.resolveFunc", func(x *CallCtx, s *State) ([]Out, bool) {
		return []Out{{s, T("called", "", m.fvT, x.Args[1], x.Args[2])}}, true
	})
	fn := c.fn("FastMatcher.resolveParam")
	for _, form := range []string{"FastVal", "activeLitRef", "SlotRef", "FuncRef"} {
		st := m.state()
		lit := e.NewObj(st, "lit", m.fvT, lv)
		t := c.lookupType(form)
		p := Sym("payload", t)
		want := p
		switch form {
		case "activeLitRef":
			p = ZeroVal(t)
			want = lv
		case "SlotRef":
			want = T("stored", "", m.fvT, c.fieldOf(p, t, "Slot"))
		case "FuncRef":
			want = T("called", "", m.fvT, p, lit)
		}
		for _, f := range e.Call(fn, st, []*V{m.M, Iface(t, p), lit}) {
			w := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				c.Bad(key, w, "every form of operand is resolved", form+": "+f.What, nil)
				continue
			}
			got := f.Ret
			if got == want {
				c.Ok("%s %s", key, form)
				continue
			}
			same := true
			s := m.fvT.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if StructField(got, i, s.Field(i).Type()) != StructField(want, i, s.Field(i).Type()) {
					same = false
				}
			}
			c.Expect(same, key, w, "an operand is what its reference denotes", fmt.Sprintf("%s is resolved to %s", form, got), e.TraceLines(f.St, 10))
		}
	}
	c.takeUndec(e)
}

// matches checks pattern conditions: the pattern is applied to the text of a
// string, anything else does not match.
func (c *Check) matches() {
	e := c.Engine()
	m := newFV(c, e)
	bt := types.Typ[types.Bool]
	e.Hooks["regexp.(*Regexp).Match"] = func(x *CallCtx, s *State) ([]Out, bool) {
		return []Out{{s, T("rematch", "", bt, x.Args[0], m.bytesOf(s, x.Args[1]))}}, true
	}
	e.Hooks["(*regexp.Regexp).Match"] = e.Hooks["regexp.(*Regexp).Match"]
	fn := c.fn("FastVal.Matches")
	for _, k := range m.kinds {
		for _, pat := range []bool{true, false} {
			key := "Matches/" + k
			st := e.NewState()
			a := m.value(st, k, "a")
			if a == nil {
				continue
			}
			ok := "RegexValue"
			if !pat {
				ok = "IntValue"
			}
			b := m.value(st, ok, "b")
			if b == nil {
				c.Undec("%s: no model of %s", key, ok)
				continue
			}
			for _, f := range e.Call(fn, st, []*V{a.v, b.v}) {
				w := e.Pos(InstrPos(f.Instr))
				if f.Panic {
					c.Bad(key, w, "patterns never fail", f.What, e.TraceLines(f.St, 10))
					continue
				}
				got, valid := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
				if strKinds[k] && pat {
					isMatch := got.Op == "rematch" && strings.Contains(got.Args[0].String(), "obj_b") && strings.Contains(got.Args[1].String(), "_a")
					v := f.St.Facts.Eval(valid)
					c.Expect(isMatch && v > 0, key, w, "a pattern is applied to the text", fmt.Sprintf("result %s, proper %s", got, valid), e.TraceLines(f.St, 10))
				} else {
					c.Expect(f.St.Facts.Eval(got) < 0 && f.St.Facts.Eval(valid) < 0, key, w, "what is no text does not match", fmt.Sprintf("%s with pattern %v: result %s, proper %s", k, pat, got, valid), e.TraceLines(f.St, 10))
				}
			}
		}
	}
	c.takeUndec(e)
}
