package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	. "verifcheck/absint"
)

// fvModel builds symbolic dynamic values (FastVal) of every kind.
//
// The exact number a value stands for is a symbol: num_a (an unbounded
// integer) for the integer kinds, flt_a for the float kinds. Literal text
// (Json kinds, strings) is a symbolic byte slice tied to that number through
// the models of strconv.
type fvModel struct {
	heap
	t     types.Type
	kinds []string // every kind constant, by name
	num   map[string]string
	i64   types.Type
	u64   types.Type
	f64   types.Type
}

var intKinds = map[string]bool{"IntValue": true, "UintValue": true, "JsonIntValue": true, "JsonUintValue": true}
var fltKinds = map[string]bool{"FloatValue": true, "JsonFloatValue": true}
var strKinds = map[string]bool{"StringValue": true, "BinStringValue": true, "JsonStringValue": true}

func numKind(k string) bool { return intKinds[k] || fltKinds[k] }

// fval is a symbolic operand.
type fval struct {
	tag, kind string
	v         *V
	X         *V // exact integer, for the integer kinds
	F         *V // float, for the float kinds
	S         *V // text, for the string kinds
}

func newFV(c *Check, e *Engine) *fvModel {
	m := &fvModel{heap: heap{c: c, e: e}, i64: types.Typ[types.Int64], u64: types.Typ[types.Uint64], f64: types.Typ[types.Float64]}
	m.t = c.lookupType("FastVal")
	vt := c.lookupType("ValueType")
	sc := c.P.SSA.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), vt) {
			m.kinds = append(m.kinds, n)
		}
	}
	sort.Strings(m.kinds)
	for k := range intKinds {
		c.konst(k)
	}
	for k := range fltKinds {
		c.konst(k)
	}
	c.konst("InvalidValue")
	oldPin := e.Pin
	e.Pin = func(v *V) bool {
		return v.Op == "sym" && (strings.HasPrefix(v.Aux, "num_") || strings.HasPrefix(v.Aux, "text_") || strings.HasPrefix(v.Aux, "flt_") || strings.HasPrefix(v.Aux, "str_")) || oldPin != nil && oldPin(v)
	}
	e.Hooks["strconv.ParseInt"] = m.parse("int", m.i64, TypeRange(m.i64))
	e.Hooks["strconv.ParseUint"] = m.parse("uint", m.u64, TypeRange(m.u64))
	e.Hooks["strconv.ParseFloat"] = m.parse("float", m.f64, ISet{})
	return m
}

// value makes an operand of the kind.
func (m *fvModel) value(st *State, kind, tag string) *fval {
	r := &fval{tag: tag, kind: kind}
	v := ZeroVal(m.t)
	v = m.c.withField(v, m.t, "dataType", m.c.konst(kind))
	raw := func(t types.Type, x *V) {
		v = m.c.withField(v, m.t, "rawData", T("rawof", TypeKey(t), nil, x))
	}
	_, st8 := m.c.fieldPath(m.t, "sliceData")
	text := func() { v = m.c.withField(v, m.t, "sliceData", Sym("text_"+tag, st8)) }
	num := func(lo, hi *big.Int) {
		r.X = Sym("num_"+tag, nil)
		st.Facts.Restrict(r.X, Range(NBig(lo), NBig(hi)))
	}
	two := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	switch kind {
	case "IntValue":
		num(big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
		raw(m.i64, r.X)
	case "UintValue":
		num(big.NewInt(0), new(big.Int).Sub(two(64), big.NewInt(1)))
		raw(m.u64, r.X)
	case "FloatValue":
		r.F = Sym("flt_"+tag, m.f64)
		raw(m.f64, r.F)
	case "JsonIntValue":
		num(new(big.Int).Neg(two(70)), two(70))
		text()
	case "JsonUintValue":
		num(big.NewInt(0), two(70))
		text()
	case "JsonFloatValue":
		r.F = Sym("flt_"+tag, m.f64)
		text()
	case "StringValue":
		r.S = Sym("str_"+tag, types.Typ[types.String])
		v = m.c.withField(v, m.t, "data", Iface(types.Typ[types.String], r.S))
	case "BinStringValue", "JsonStringValue":
		text()
		r.S = m.bytesOf(st, Sym("text_"+tag, st8))
	case "BinaryValue", "ArrayValue", "ObjectValue":
		text()
	case "TimeValue", "RegexValue", "PcreValue":
		idx, ft := m.c.fieldPath(m.t, "data")
		_ = idx
		d := Sym("data_"+tag, ft)
		st.Facts.Assume(IsNilCond(d), false)
		v = m.c.withField(v, m.t, "data", d)
		// the constructors fix the dynamic type
		ctor := map[string]string{"TimeValue": "NewTimeFastVal", "RegexValue": "NewRegexpFastVal", "PcreValue": "NewPcreFastVal"}[kind]
		if fn := m.c.P.Func(ctor); fn != nil && len(fn.Params) == 1 {
			pt := fn.Params[0].Type()
			p := Sym("obj_"+tag, pt)
			st.Facts.Assume(IsNilCond(p), false)
			if types.IsInterface(pt) {
				v = m.c.withField(v, m.t, "data", p)
			} else {
				v = m.c.withField(v, m.t, "data", Iface(pt, p))
			}
		}
	}
	r.v = v
	return r
}

func (m *fvModel) bytesOf(st *State, s *V) *V {
	_, off, n, _ := SliceParts(s)
	return m.e.BytesToStr(st.Facts, m.e.SliceContent(st, s), off, Add(off, n))
}

// textTag finds which operand's text a string term is.
func (m *fvModel) textTag(st *State, s *V) string {
	seen := map[*V]bool{}
	s.Walk(seen)
	tag := ""
	for v := range seen {
		if v.Op == "sym" && strings.HasPrefix(v.Aux, "text_") {
			if tag != "" && tag != v.Aux[5:] {
				return ""
			}
			tag = v.Aux[5:]
		}
	}
	if tag == "" {
		return ""
	}
	_, st8 := m.c.fieldPath(m.t, "sliceData")
	if m.bytesOf(st, Sym("text_"+tag, st8)) != s {
		return "" // not the whole text
	}
	return tag
}

// parse models strconv.ParseInt / ParseUint / ParseFloat on operand text.
func (m *fvModel) parse(kind string, t types.Type, rng ISet) Hook {
	return func(x *CallCtx, st *State) ([]Out, bool) {
		tag := m.textTag(st, x.Args[0])
		X, F := Sym("num_"+tag, nil), Sym("flt_"+tag, m.f64)
		isInt := tag != "" && !st.Facts.Dom(X).IsFull()
		if kind != "float" {
			if b, ok := x.Args[1].Int(); ok && b != 10 && b != 0 {
				return nil, false
			}
			if b, ok := x.Args[2].Int(); ok && b != 64 {
				return nil, false
			}
		}
		errV := Iface(types.Universe.Lookup("error").Type(), Sym("err_"+kind+"_"+tag, nil))
		errV = Sym("err_"+kind+"_"+tag, types.Universe.Lookup("error").Type())
		fail := func(st *State) Out {
			st.Facts.Assume(IsNilCond(errV), false)
			r := Sym("clamp_"+kind+"_"+tag, t)
			if kind != "float" {
				st.Facts.Restrict(r, rng)
			}
			return Out{st, Tuple(r, errV)}
		}
		switch {
		case isInt && kind == "float":
			return []Out{{st, Tuple(T("conv", "exact", m.f64, X), Nil)}}, true
		case isInt:
			a, b, d := st, st.Clone(), st.Clone()
			var outs []Out
			if a.Facts.Restrict(X, rng) {
				outs = append(outs, Out{a, Tuple(X, Nil)})
			}
			if b.Facts.Restrict(X, Range(NegInf, NBig(new(big.Int).Sub(rng.Lo().Big(), big.NewInt(1))))) {
				outs = append(outs, fail(b))
			}
			if d.Facts.Restrict(X, Range(NBig(new(big.Int).Add(rng.Hi().Big(), big.NewInt(1))), PosInf)) {
				outs = append(outs, fail(d))
			}
			return outs, true
		case tag != "" && m.isFloatText(st, tag):
			if kind == "float" {
				return []Out{{st, Tuple(F, Nil)}}, true
			}
			return []Out{fail(st)}, true
		}
		// any other text: either it is such a number or not, always the same
		p := T("numeral", kind, types.Typ[types.Bool], x.Args[0])
		a, b := st, st.Clone()
		var outs []Out
		if a.Facts.Assume(p, true) {
			r := T("parsed", kind, t, x.Args[0])
			if kind != "float" {
				a.Facts.Restrict(r, rng)
			}
			outs = append(outs, Out{a, Tuple(r, Nil)})
		}
		if b.Facts.Assume(p, false) {
			e := T("perr", kind, types.Universe.Lookup("error").Type(), x.Args[0])
			b.Facts.Assume(IsNilCond(e), false)
			r := T("clamped", kind, t, x.Args[0])
			if kind != "float" {
				b.Facts.Restrict(r, rng)
			}
			outs = append(outs, Out{b, Tuple(r, e)})
		}
		return outs, true
	}
}

// isFloatText: operand is a non-integer number literal.
func (m *fvModel) isFloatText(st *State, tag string) bool {
	v := st.Ghost["kind_"+tag]
	if v == nil {
		return false
	}
	s, _ := v.Str()
	return s == "JsonFloatValue"
}

// ---- float terms ----

// fnorm renders a float term canonically: affine combinations are collected,
// conversions of exact integers are named by the integer.
func fnorm(st *State, v *V) string {
	l := fdec(st, v)
	if l == nil {
		return v.String()
	}
	return l.String()
}

type affine struct {
	c map[string]float64
	k float64
}

func (a *affine) String() string {
	var ks []string
	for x, c := range a.c {
		if c != 0 {
			ks = append(ks, x)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, x := range ks {
		out = append(out, fmt.Sprintf("%.12g*%s", a.c[x], x))
	}
	if a.k != 0 || len(out) == 0 {
		out = append(out, fmt.Sprintf("%.12g", a.k))
	}
	return strings.Join(out, " + ")
}

func (a *affine) konst() bool {
	for _, c := range a.c {
		if c != 0 {
			return false
		}
	}
	return true
}

func fconstOf(v *V) (float64, bool) {
	if v.Op == "fconst" {
		f, err := strconv.ParseFloat(v.Aux, 64)
		return f, err == nil
	}
	if v.Op == "const" {
		f, err := strconv.ParseFloat(v.C.ExactString(), 64)
		if err == nil {
			return f, true
		}
		r, ok := new(big.Rat).SetString(v.C.ExactString())
		if ok {
			f, _ := r.Float64()
			return f, true
		}
	}
	return 0, false
}

func fdec(st *State, v *V) *affine {
	if f, ok := fconstOf(v); ok {
		return &affine{map[string]float64{}, f}
	}
	atom := func(s string) *affine { return &affine{map[string]float64{s: 1}, 0} }
	comb := func(a, b *affine, f float64) *affine {
		r := &affine{map[string]float64{}, a.k + f*b.k}
		for x, c := range a.c {
			r.c[x] += c
		}
		for x, c := range b.c {
			r.c[x] += f * c
		}
		return r
	}
	zero := &affine{map[string]float64{}, 0}
	switch v.Op {
	case "fneg":
		return comb(zero, fdec(st, v.Args[0]), -1)
	case "fbin":
		a, b := fdec(st, v.Args[0]), fdec(st, v.Args[1])
		switch v.Aux {
		case "+":
			return comb(a, b, 1)
		case "-":
			return comb(a, b, -1)
		case "*":
			if a.konst() {
				return comb(zero, b, a.k)
			}
			if b.konst() {
				return comb(zero, a, b.k)
			}
			x, y := a.String(), b.String()
			if x > y {
				x, y = y, x
			}
			return atom("(" + x + ")*(" + y + ")")
		case "/":
			if b.konst() && b.k != 0 {
				return comb(zero, a, 1/b.k)
			}
			return atom("(" + a.String() + ")/(" + b.String() + ")")
		}
	case "conv":
		in := v.Args[0]
		if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return atom("float(" + in.String() + ")")
		}
	case "call":
		var as []string
		for _, a := range v.Args {
			as = append(as, fnorm(st, a))
		}
		n := v.Aux
		if n == "math.Trunc" {
			n = "trunc"
		}
		return atom(n + "(" + strings.Join(as, ", ") + ")")
	}
	return atom(v.String())
}

// reconv drops integer conversions and negations that, by what is known on the
// path now, cannot change the value.
func reconv(st *State, v *V) *V {
	for round := 0; round < 4; round++ {
		seen := map[*V]bool{}
		v.Walk(seen)
		m := map[*V]*V{}
		for s := range seen {
			if s.Typ == nil || !IsIntT(s.Typ) {
				continue
			}
			if s.Op == "bin" && len(s.Args) == 2 {
				if x := exactBin(st, s); x != nil && x != s {
					m[s] = x
				}
				continue
			}
			if len(s.Args) != 1 {
				continue
			}
			a := s.Args[0]
			switch {
			case s.Op == "conv" && intSource(s.Aux):
				if st.Facts.Dom(a).Subset(TypeRange(s.Typ)) {
					m[s] = a
				}
			case s.Op == "un" && s.Aux == "-":
				if n := Scale(a, -1); st.Facts.Dom(n).Subset(TypeRange(s.Typ)) {
					m[s] = n
				}
			}
		}
		if len(m) == 0 {
			return v
		}
		v = Subst(v, m, map[*V]*V{})
	}
	return v
}

func intSource(k string) bool {
	return strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint") || k == "exact" || k == "byte"
}

// exactBin is the mathematical result of a machine operation, when what is
// known excludes that it wrapped around.
func exactBin(st *State, s *V) *V {
	var x *V
	a, b := s.Args[0], s.Args[1]
	switch s.Aux {
	case "+":
		x = Add(a, b)
	case "-":
		x = Sub(a, b)
	case "*":
		if k, ok := a.Int(); ok {
			x = Scale(b, k)
		} else if k, ok := b.Int(); ok {
			x = Scale(a, k)
		}
	}
	if x == nil {
		return nil
	}
	tr := TypeRange(s.Typ)
	d := st.Facts.Dom(x)
	out := d.Minus(tr)
	if out.Empty() {
		return x
	}
	if out.Lo().IsInf() || out.Hi().IsInf() || tr.Hi().IsInf() {
		return nil
	}
	mod := tr.Hi().Add(tr.Lo().Neg()).Add(NI(1))
	for _, k := range []Num{mod, mod.Neg()} {
		if !out.Shift(k).Intersect(tr).Intersect(st.Facts.Dom(s)).Empty() {
			return nil
		}
	}
	return x
}
