package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	. "verifcheck/absint"
)

// C16: comparison of dynamic values.
//
// Compare is interpreted on symbolic values of every pair of kinds, in both
// directions on the same path: the answers must be opposite, equally valid,
// and agree with the order of the kind class.

func init() { checks["C16"] = c16 }

func (m *fvModel) orderHooks() {
	e := m.e
	inst := func(st *State, v *V, ptr bool) *V {
		if ptr {
			v = e.Snap(st, v)
		}
		return T("instant", "", nil, v)
	}
	_ = inst
	rel := func(op token.Token) Hook {
		return func(x *CallCtx, st *State) ([]Out, bool) {
			a, b := T("instant", "", nil, e.Snap(st, x.Args[0])), T("instant", "", nil, e.Snap(st, x.Args[1]))
			return []Out{{st, Cmp(op, a, b, m.i64)}}, true
		}
	}
	e.Hooks["(time.Time).Equal"] = rel(token.EQL)
	e.Hooks["(time.Time).After"] = rel(token.GTR)
	e.Hooks["(time.Time).Before"] = rel(token.LSS)
	e.Hooks["math.Abs"] = func(x *CallCtx, st *State) ([]Out, bool) {
		v := x.Args[0]
		if v.Op == "fbin" && v.Aux == "-" && v.Args[0].ID > v.Args[1].ID {
			v = T("fbin", "-", v.Typ, v.Args[1], v.Args[0])
		}
		return []Out{{st, T("call", "math.Abs", m.f64, v)}}, true
	}
	e.Hooks["math.IsNaN"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if v := x.Args[0]; v.Op == "conv" && (v.Args[0].Typ == nil || IsIntT(v.Args[0].Typ)) {
			return []Out{{st, False}}, true
		}
		return []Out{{st, T("call", "math.IsNaN", types.Typ[types.Bool], x.Args[0])}}, true
	}
	// encodings of a value as text
	for _, n := range []string{"AppendQuote", "AppendInt", "AppendUint", "AppendFloat"} {
		n := n
		e.Hooks["strconv."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			_, _, l, _ := SliceParts(x.Args[0])
			if st.Facts.Eval(eqI(l, Zero)) <= 0 {
				return nil, false
			}
			as := append([]*V{}, x.Args[1:]...)
			r := T("encode", n, types.NewSlice(types.Typ[types.Uint8]), as...)
			_, _, rl, _ := SliceParts(r)
			min := int64(1)
			if n == "AppendQuote" {
				min = 2
			}
			st.Facts.Assume(Cmp(token.GEQ, rl, CInt(min), intT()), true)
			st.Facts.Assume(IsNilCond(r), false)
			return []Out{{st, r}}, true
		}
	}
	for n, app := range map[string]string{"Quote": "AppendQuote", "FormatInt": "AppendInt", "FormatUint": "AppendUint", "FormatFloat": "AppendFloat", "Itoa": "AppendInt"} {
		n, app := n, app
		e.Hooks["strconv."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			as := append([]*V{}, x.Args...)
			if n == "Itoa" {
				as = append(as, CInt(10))
			}
			r := T("encode", app, types.NewSlice(types.Typ[types.Uint8]), as...)
			_, _, rl, _ := SliceParts(r)
			min := int64(1)
			if app == "AppendQuote" {
				min = 2
			}
			st.Facts.Assume(Cmp(token.GEQ, rl, CInt(min), intT()), true)
			st.Facts.Assume(IsNilCond(r), false)
			return []Out{{st, m.bytesOf(st, r)}}, true
		}
	}
	// a text either is a date or not
	if fn := m.c.P.Func("GetNewTimeFastVal"); fn != nil {
		ctor := m.c.fn("NewTimeFastVal")
		e.Hooks[e.ShortName(fn)] = func(x *CallCtx, st *State) ([]Out, bool) {
			p := T("isdate", "", types.Typ[types.Bool], x.Args[0])
			var outs []Out
			a, b := st, st.Clone()
			if a.Facts.Assume(p, true) {
				pt := ctor.Params[0].Type()
				tp := T("dateptr", "", pt, x.Args[0])
				a.Facts.Assume(IsNilCond(tp), false)
				v := ZeroVal(m.t)
				v = m.c.withField(v, m.t, "dataType", m.c.konst("TimeValue"))
				v = m.c.withField(v, m.t, "data", Iface(pt, tp))
				outs = append(outs, Out{a, Tuple(v, Nil)})
			}
			if b.Facts.Assume(p, false) {
				er := T("dateerr", "", types.Universe.Lookup("error").Type(), x.Args[0])
				b.Facts.Assume(IsNilCond(er), false)
				v := m.c.withField(ZeroVal(m.t), m.t, "dataType", m.c.konst("InvalidValue"))
				outs = append(outs, Out{b, Tuple(v, er)})
			}
			return outs, true
		}
	}
}

func c16(c *Check) {
	c.Cov["rule"] = "Compare interpreted on symbolic values of every pair of kinds (document, rule literal) in both directions on each path: opposite signs, equal validity, and the order its kinds call for"
	e := c.Engine()
	e.MaxStates = 6000
	m := newFV(c, e)
	m.orderHooks()
	e.Pin = func(*V) bool { return true }
	cmp := c.fn("FastVal.Compare")
	ud := func(v *V, on bool) *V { return c.withField(v, m.t, "userDefined", CBool(on)) }
	what := ""
	key := ""
	e.OnFault = func(f Fault) {
		c.Bad(key+"/fault", e.Pos(InstrPos(f.Instr)), "comparison never fails", what+" may fail: "+f.Kind+" ("+f.What+")", e.TraceLines(f.St, 12))
	}
	runs := 0
	for _, k1 := range m.kinds {
		for _, k2 := range m.kinds {
			for mode := 0; mode < 4; mode++ {
				u1, u2 := mode&1 != 0, mode&2 != 0
				if mode == 3 && !(intKinds[k1] && intKinds[k2]) {
					continue // two literals are not compared with each other
				}
				runs++
				sizes := [][2]int{{-1, -1}}
				deep := containerKind(k1) && k1 == k2
				if deep {
					sizes = nil
					for i := 0; i <= 2; i++ {
						for j := 0; j <= 2; j++ {
							sizes = append(sizes, [2]int{i, j})
						}
					}
				}
				for _, sz := range sizes {
					what = fmt.Sprintf("Compare(%s%s, %s%s)", k1, flag(u1), k2, flag(u2))
					key = k1 + "/" + k2
					st := e.NewState()
					a, b := m.value(st, k1, "a"), m.value(st, k2, "b")
					for _, o := range []*fval{a, b} {
						if o.X != nil {
							// integers of the document fit 64 bits
							lim := TypeRange(m.u64)
							if o.kind == "JsonIntValue" {
								lim = TypeRange(m.i64)
							}
							st.Facts.Restrict(o.X, lim.Intersect(st.Facts.Dom(o.X)))
							if intKinds[o.kind] && o.kind[0] != 'U' && o.kind != "JsonUintValue" {
								st.Facts.Restrict(o.X, TypeRange(m.i64))
							}
						}
					}
					st.Ghost["kind_a"], st.Ghost["kind_b"] = CStr(k1), CStr(k2)
					if sz[0] >= 0 {
						e.NoWiden = true
						for i, o := range []*fval{a, b} {
							_, _, n, _ := SliceParts(c.fieldOf(o.v, m.t, "sliceData"))
							st.Facts.Assume(eqI(n, CInt(int64(sz[i]))), true)
						}
					}
					av, bv := ud(a.v, u1), ud(b.v, u2)
					for _, f := range e.Call(cmp, st, []*V{av, bv}) {
						if f.Panic {
							c.Bad(key+"/panic", e.Pos(InstrPos(f.Instr)), "comparison never fails", what+" panics: "+f.What, e.TraceLines(f.St, 12))
							continue
						}
						m.judgeCmp(key, what, a, b, f, u1, u2)
						r1, v1 := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
						for _, g := range e.Call(cmp, f.St.Clone(), []*V{bv, av}) {
							if g.Panic {
								c.Bad(key+"/panic", e.Pos(InstrPos(g.Instr)), "comparison never fails", what+" reversed panics: "+g.What, e.TraceLines(g.St, 12))
								continue
							}
							r2, v2 := TupleAt(g.Ret, 0), TupleAt(g.Ret, 1)
							r2, ok2 := opposite(r2)
							same := c.eqv(g.St, r1, r2) || ok2 && strcmpOpp(g.St, r1, TupleAt(g.Ret, 0))
							if same && c.sameBool(g.St, v1, v2) {
								c.Ok("%s = -Compare reversed", what)
								continue
							}
							_, k1c := r1.Int()
							_, k2c := r2.Int()
							if k1c && k2c || same {
								c.Bad(key+"/antisym", e.Pos(InstrPos(g.Instr)), "exchanging the operands reverses the answer", fmt.Sprintf("%s = (%s, %s) but exchanged (%s, %s)", what, r1, v1, TupleAt(g.Ret, 0), v2), e.TraceLines(g.St, 16))
							} else {
								c.Undec("%s: cannot compare %s with %s", what, r1, TupleAt(g.Ret, 0))
							}
						}
					}
					e.NoWiden = false
					c.takeUndec(e)
				}
			}
		}
	}
	c.Cov["configurations"] = runs
	c.Assume = append(c.Assume, "integers of documents fit 64 bits; strconv, strings.Compare, regexp and time.Time behave as documented; array and object contents are compared exactly for sizes up to 2 bytes each")
}

func flag(u bool) string {
	if u {
		return " from the rule"
	}
	return ""
}

func containerKind(k string) bool { return k == "ArrayValue" || k == "ObjectValue" }

func opposite(r *V) (*V, bool) {
	return Scale(r, -1), true
}

// strcmpOpp: r1 is strings.Compare(x, y) and r2 is strings.Compare(y, x).
func strcmpOpp(st *State, r1, r2 *V) bool {
	s1, n1 := stripNeg(r1)
	s2, n2 := stripNeg(r2)
	if s1.Op == "strcmp" && s2.Op == "strcmp" {
		if n1 == n2 {
			return s1.Args[0] == s2.Args[1] && s1.Args[1] == s2.Args[0]
		}
		return s1 == s2
	}
	return false
}

func stripNeg(r *V) (*V, bool) {
	if r.Op == "strcmp" {
		return r, false
	}
	if n := Scale(r, -1); n.Op == "strcmp" {
		return n, true
	}
	return r, false
}

func (c *Check) sameBool(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	x, y := st.Facts.Eval(a), st.Facts.Eval(b)
	return x != 0 && x == y
}

// judgeCmp checks one answer of Compare against the order of the kind class.
func (m *fvModel) judgeCmp(key, what string, a, b *fval, f *Final, u1, u2 bool) {
	c, st, e := m.c, f.St, m.e
	r, v := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
	where := e.Pos(InstrPos(f.Instr))
	bad := func(format string, x ...interface{}) {
		c.Bad(key+"/order", where, "the order of the kinds compared", what+": "+fmt.Sprintf(format, x...), e.TraceLines(st, 16))
	}
	valid := st.Facts.Eval(v)
	sign, known := r.Int()
	switch {
	case a.X != nil && b.X != nil:
		if valid < 0 {
			bad("two integers are not comparable")
			return
		}
		if !known {
			c.Undec("%s: result %s", what, r)
			return
		}
		for s, op := range map[int64]token.Token{-1: token.LSS, 0: token.EQL, 1: token.GTR} {
			cond := Cmp(op, a.X, b.X, m.i64)
			t := st.Facts.Eval(cond)
			if s == sign && t < 0 {
				bad("says %d, but the first operand is not %s the second", sign, op)
				return
			}
			if s != sign && t >= 0 {
				fc := st.Facts.Clone()
				if fc.Assume(cond, true) {
					bad("says %d where the first operand may be %s the second", sign, op)
					return
				}
			}
		}
		if valid == 0 {
			c.Undec("%s: validity %s", what, v)
			return
		}
		c.Ok("%s agrees with the numeric order", what)
	case numKind(a.kind) && numKind(b.kind):
		nan := func(o *fval) int {
			if o.F == nil {
				return -1
			}
			return st.Facts.Eval(T("call", "math.IsNaN", types.Typ[types.Bool], o.F))
		}
		nx, ny := nan(a), nan(b)
		if !known {
			c.Undec("%s: result %s", what, r)
			return
		}
		if nx > 0 || ny > 0 {
			want := int64(0)
			if nx > 0 && ny < 0 {
				want = -1
			} else if nx < 0 && ny > 0 {
				want = 1
			}
			if nx != 0 && ny != 0 {
				if sign != want || valid > 0 {
					bad("gives %d, valid %s for a value that is not a number", sign, v)
					return
				}
				c.Ok("%s not-a-number", what)
			}
			return
		}
		if valid < 0 {
			bad("two numbers are not comparable")
			return
		}
		lt, gt, near := 0, 0, false
		for _, x := range floatTerms(m, a) {
			for _, y := range floatTerms(m, b) {
				if t := st.Facts.Eval(Cmp(token.LSS, x, y, m.f64)); t != 0 {
					lt = t
				}
				if t := st.Facts.Eval(Cmp(token.GTR, x, y, m.f64)); t != 0 {
					gt = t
				}
				p, q := x, y
				if p.ID > q.ID {
					p, q = q, p
				}
				for _, t := range []types.Type{nil, m.f64} {
					ab := T("call", "math.Abs", m.f64, T("fbin", "-", t, p, q))
					near = near || st.Facts.Eval(Cmp(token.LSS, ab, CFloat(0.0000001), m.f64)) > 0
				}
			}
		}
		switch {
		case sign < 0 && lt < 0 || sign > 0 && gt < 0:
			bad("says %d against the numeric order", sign)
		case sign < 0 && lt > 0 || sign > 0 && gt > 0 || sign == 0 && lt < 0 && gt < 0:
			c.Ok("%s agrees with the numeric order", what)
		case sign == 0 && near:
			c.Ok("%s equal within the tolerance", what)
		case sign == 0:
			bad("says equal where the numbers need not be")
		default:
			bad("says %d where the numeric order is open", sign)
		}
	case a.S != nil && b.S != nil:
		s, neg := stripNeg(r)
		if s.Op != "strcmp" || neg {
			if s.Op == "strcmp" {
				s = T("strcmp", "", nil, s.Args[1], s.Args[0])
			} else {
				bad("two strings are not compared by their text (%s)", r)
				return
			}
		}
		if valid <= 0 {
			bad("two strings are not comparable")
			return
		}
		in := func(t *V, o *fval) bool { return t.Mentions(o.S) || m.mentionsText(t, o.tag) }
		if !in(s.Args[0], a) || in(s.Args[0], b) || !in(s.Args[1], b) || in(s.Args[1], a) {
			bad("compares %s with %s", s.Args[0], s.Args[1])
			return
		}
		c.Ok("%s by text", what)
	case boolKind(a.kind) && boolKind(b.kind):
		want := int64(0)
		if a.kind != b.kind {
			want = 1
			if a.kind == "FalseValue" {
				want = -1
			}
		}
		if !known || sign != want || valid <= 0 {
			bad("gives (%s, %s)", r, v)
			return
		}
		c.Ok("%s truth values", what)
	case a.kind == "NullValue" || b.kind == "NullValue":
		if a.kind == b.kind {
			if !known || sign != 0 || valid <= 0 {
				bad("gives (%s, %s)", r, v)
				return
			}
			c.Ok("%s null", what)
			return
		}
		want := int64(-1)
		if b.kind == "NullValue" {
			want = 1
		}
		// null is below every comparable value; the others go by kind order
		other := a.kind
		if a.kind == "NullValue" {
			other = b.kind
		}
		if other == "InvalidValue" || other == "MissingValue" {
			if !known || sign == 0 {
				bad("gives (%s, %s)", r, v)
			}
			return
		}
		if !known || sign != want {
			bad("gives (%s, %s)", r, v)
			return
		}
		c.Ok("%s null below the rest", what)
	case a.kind == "TimeValue" && b.kind == "TimeValue":
		if !known || valid <= 0 {
			bad("gives (%s, %s)", r, v)
			return
		}
		ia, ib := m.instant(st, a), m.instant(st, b)
		op := map[int64]token.Token{-1: token.LSS, 0: token.EQL, 1: token.GTR}[sign]
		switch st.Facts.Eval(Cmp(op, ia, ib, m.i64)) {
		case 1:
			c.Ok("%s chronological", what)
		case -1:
			bad("says %d against the order of the instants", sign)
		default:
			bad("says %d where the order of the instants is open", sign)
		}
	case containerKind(a.kind) && a.kind == b.kind:
		m.judgeBytes(what, a, b, f, bad)
	default:
		// kinds with no common meaning: by kind, and reported so
		conv := m.convertible(a.kind, b.kind)
		if !conv {
			want := int64(0)
			ka, _ := c.konst(a.kind).Int()
			kb, _ := c.konst(b.kind).Int()
			if ka < kb {
				want = -1
			} else if ka > kb {
				want = 1
			}
			if !known || sign != want || valid >= 0 {
				bad("kinds that cannot be converted give (%s, %s), not their kind order marked as such", r, v)
				return
			}
			c.Ok("%s by kind", what)
			return
		}
		if a.kind == "TimeValue" || b.kind == "TimeValue" {
			// a text that is a date compares as that date
			t, o, neg := a, b, false
			if b.kind == "TimeValue" {
				t, o, neg = b, a, true
			}
			txt := o.S
			isdate := st.Facts.Eval(T("isdate", "", types.Typ[types.Bool], txt))
			if isdate > 0 {
				if !known || valid <= 0 {
					bad("a date text gives (%s, %s)", r, v)
					return
				}
				pt := m.c.fn("NewTimeFastVal").Params[0].Type().Underlying().(*types.Pointer)
				it := m.instant(st, t)
				io := T("instant", "", nil, e.Snap(st, e.Load(st, PtrTo(T("dateptr", "", m.c.fn("NewTimeFastVal").Params[0].Type(), txt), pt.Elem()), pt.Elem())))
				if neg {
					it, io = io, it
				}
				op := map[int64]token.Token{-1: token.LSS, 0: token.EQL, 1: token.GTR}[sign]
				switch st.Facts.Eval(Cmp(op, it, io, m.i64)) {
				case 1:
					c.Ok("%s chronological", what)
				case -1:
					bad("says %d against the order of the instants", sign)
				default:
					bad("says %d where the order of the instants is open", sign)
				}
				return
			}
			if isdate == 0 && !(neg && u1 || !neg && u2) {
				bad("does not ask whether the text is a date (%s, %s)", r, v)
				return
			}
		}
		if boolKind(a.kind) && numKind(b.kind) || numKind(a.kind) && boolKind(b.kind) {
			m.judgeTruth(st, what, a, b, u1, u2, sign, known, valid, bad)
			return
		}
		for _, o := range []*fval{a, b} {
			if w := m.numberText(st, r, o); w != "" && valid > 0 {
				bad("a number compares with a text as its decimal text, not as %s", w)
				return
			}
		}
		c.Ok("%s converted", what)
	}
}

// numberText says how a text order (r) misspells a number: its text is decimal,
// and a float's the shortest that reads back as it.
func (m *fvModel) numberText(st *State, r *V, o *fval) string {
	s, _ := stripNeg(r)
	if s.Op != "strcmp" || !numKind(o.kind) {
		return ""
	}
	seen := map[*V]bool{}
	s.Walk(seen)
	for v := range seen {
		if v.Op != "encode" {
			continue
		}
		switch v.Aux {
		case "AppendInt", "AppendUint":
			base, ok := v.Args[1].Int()
			if ok && base != 10 || o.X != nil && st.Facts.Eval(eqI(v.Args[0], o.X)) < 0 {
				return v.String()
			}
		case "AppendFloat":
			prec, ok := v.Args[2].Int()
			bits, ok2 := v.Args[3].Int()
			if ok && prec >= 0 || ok2 && bits != 64 {
				return v.String()
			}
		}
	}
	return ""
}

// judgeTruth: a number and a truth value. The literal of the rule says as what
// they compare; where there is none, as numbers.
func (m *fvModel) judgeTruth(st *State, what string, a, b *fval, u1, u2 bool, sign int64, known bool, valid int, bad func(string, ...interface{})) {
	c := m.c
	nm, tv, neg, lit := a, b, false, u2
	if boolKind(a.kind) {
		nm, tv, neg, lit = b, a, true, u1
	}
	if !lit && nm.X == nil && valid < 0 {
		// truth values have no float form
		c.Ok("%s not comparable", what)
		return
	}
	if !known || valid <= 0 {
		bad("a number and a truth value are not comparable (%v)", valid)
		return
	}
	if neg {
		sign = -sign
	}
	t := int64(0)
	if tv.kind == "TrueValue" {
		t = 1
	}
	x, ty, zero, tt := nm.X, types.Type(m.i64), Zero, CInt(t)
	if x == nil {
		x, ty, zero, tt = nm.F, m.f64, CFloat(0), CFloat(float64(t))
	}
	holds := func(cond *V) int { return st.Facts.Eval(cond) }
	if lit {
		isZero := holds(Cmp(token.EQL, x, zero, ty))
		if isZero == 0 {
			bad("says %d without asking whether the number is zero", sign)
			return
		}
		want := -t
		if isZero < 0 {
			want = 1 - t
		}
		if sign != want {
			bad("says %d for a number (zero: %v) and the literal %s", sign, isZero > 0, tv.kind)
			return
		}
		c.Ok("%s as truth values", what)
		return
	}
	op := map[int64]token.Token{-1: token.LSS, 0: token.EQL, 1: token.GTR}[sign]
	if holds(Cmp(op, x, tt, ty)) < 0 {
		bad("says %d for a number that is not %s %d", sign, op, t)
		return
	}
	c.Ok("%s as numbers", what)
}

func boolKind(k string) bool { return k == "TrueValue" || k == "FalseValue" }

// convertible: a value of one kind may be converted to the other (only such
// pairs may be compared as valid).
func (m *fvModel) convertible(a, b string) bool {
	scalar := func(k string) bool { return numKind(k) || strKinds[k] || boolKind(k) }
	if scalar(a) && scalar(b) {
		return true
	}
	return a == "TimeValue" && strKinds[b] || b == "TimeValue" && strKinds[a]
}

func (m *fvModel) instant(st *State, o *fval) *V {
	d := m.c.fieldOf(o.v, m.t, "data")
	if d.Op == "iface" {
		pt := d.Typ.Underlying().(*types.Pointer)
		return T("instant", "", nil, m.e.Snap(st, m.e.Load(st, PtrTo(d.Args[0], pt.Elem()), pt.Elem())))
	}
	return T("instant", "", nil, d)
}

func (m *fvModel) mentionsText(t *V, tag string) bool {
	seen := map[*V]bool{}
	t.Walk(seen)
	for v := range seen {
		if v.Op == "sym" && v.Aux == "text_"+tag {
			return true
		}
	}
	return false
}

// floatTerms are the ways the code may name a number as a float.
func floatTerms(m *fvModel, o *fval) []*V {
	if o.F != nil {
		return []*V{o.F}
	}
	var out []*V
	for _, k := range []string{"exact", "int64", "uint64"} {
		out = append(out, T("conv", k, m.f64, o.X))
	}
	return out
}

// judgeBytes: containers by length, then by the first differing byte.
func (m *fvModel) judgeBytes(what string, a, b *fval, f *Final, bad func(string, ...interface{})) {
	c, st, e := m.c, f.St, m.e
	r, v := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
	sa, sb := c.fieldOf(a.v, m.t, "sliceData"), c.fieldOf(b.v, m.t, "sliceData")
	_, oa, na, _ := SliceParts(sa)
	_, ob, nb, _ := SliceParts(sb)
	la, ok1 := na.Int()
	lb, ok2 := nb.Int()
	if !ok1 {
		if s, ok := st.Facts.Dom(na).IsSingle(); ok {
			la, ok1 = s.Int64(), true
		}
	}
	if !ok2 {
		if s, ok := st.Facts.Dom(nb).IsSingle(); ok {
			lb, ok2 = s.Int64(), true
		}
	}
	sign, known := r.Int()
	if !ok1 || !ok2 || !known {
		c.Undec("%s: result %s", what, r)
		return
	}
	if st.Facts.Eval(v) <= 0 {
		bad("gives (%s, %s)", r, v)
		return
	}
	want := int64(0)
	if la > lb {
		want = 1
	} else if la < lb {
		want = -1
	} else {
		bt := types.Typ[types.Uint8]
		_, _ = oa, ob
		h := &heap{c: c, e: e}
		for i := int64(0); i < la && want == 0; i++ {
			x, y := h.elem(st, sa, CInt(i), bt), h.elem(st, sb, CInt(i), bt)
			switch {
			case st.Facts.Eval(Cmp(token.LSS, x, y, bt)) > 0:
				want = -1
			case st.Facts.Eval(Cmp(token.GTR, x, y, bt)) > 0:
				want = 1
			case st.Facts.Eval(eqI(x, y)) > 0:
			default:
				bad("says %d without looking at byte %d", sign, i)
				return
			}
		}
	}
	if sign != want {
		bad("says %d, expected %d", sign, want)
		return
	}
	c.Ok("%s by content", what)
}

var _ = big.NewInt
