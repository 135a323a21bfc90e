package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"text/scanner"
	"time"

	. "verifcheck/absint"
)

// The filter language (C10, C11, C21).
//
// Token sequences are parsed by the grammar the struct tags declare (peg.go)
// and the resulting structs are turned into a rule by interpreting the
// OutputExpression methods; names, numbers and texts are symbols. The rule
// must be the one an independent reading of the documented language gives.

func init() {
	checks["C10"] = func(c *Check) { c.dispatch(); c.functions(); filterCheck(c, "C10") }
	checks["C11"] = func(c *Check) { c.operators(); filterCheck(c, "C11") }
	checks["C21"] = func(c *Check) { filterCheck(c, "C21") }
}

// ---- the reference ----

type refRes struct {
	pos int
	x   *X
}

// refG reads token sequences by the documented grammar.
type refG struct{ ts []*tok }

func (r *refG) lit(i int, s string) bool {
	return i < len(r.ts) && !r.ts[i].sym && r.ts[i].s == s && (r.ts[i].typ == scanner.Ident || r.ts[i].typ == rune(s[0]) && len(s) == 1)
}

// truth reads a boolean literal, which may be quoted.
func (r *refG) truth(i int) string {
	if i < len(r.ts) && !r.ts[i].sym && (r.ts[i].typ == scanner.Ident || r.ts[i].typ == scanner.String) {
		switch r.ts[i].s {
		case "TRUE", "true":
			return "true"
		case "FALSE", "false":
			return "false"
		}
	}
	return ""
}

func (r *refG) list(i int, kind, sep string, item func(int) []refRes) []refRes {
	var out []refRes
	var rec func(i int, acc []*X)
	rec = func(i int, acc []*X) {
		for _, a := range item(i) {
			l := append(append([]*X{}, acc...), a.x)
			x := l[0]
			if len(l) > 1 {
				x = xN(kind, l...)
			}
			out = append(out, refRes{a.pos, x})
			if r.lit(a.pos, sep) {
				rec(a.pos+1, l)
			}
		}
	}
	rec(i, nil)
	return out
}

func (r *refG) or(i int) []refRes  { return r.list(i, "Or", "OR", r.and) }
func (r *refG) and(i int) []refRes { return r.list(i, "And", "AND", r.term) }

func (r *refG) term(i int) []refRes {
	out := r.cond(i)
	return append(out, r.paren(i)...)
}

func (r *refG) paren(i int) []refRes {
	var out []refRes
	if r.lit(i, "(") {
		for _, a := range r.or(i + 1) {
			if r.lit(a.pos, ")") {
				out = append(out, refRes{a.pos + 1, a.x})
			}
		}
	}
	return out
}

func (r *refG) cond(i int) []refRes {
	var out []refRes
	if r.lit(i, "NOT") {
		for _, a := range r.cond(i + 1) {
			out = append(out, refRes{a.pos, x1("Not", a.x)})
		}
		for _, a := range r.paren(i + 1) {
			out = append(out, refRes{a.pos, x1("Not", a.x)})
		}
	}
	return append(out, r.operand(i)...)
}

var refOps = []struct {
	toks []string
	kind string
}{{[]string{"="}, "Equals"}, {[]string{"=", "="}, "Equals"}, {[]string{"!", "="}, "NotEquals"}, {[]string{"<", ">"}, "NotEquals"},
	{[]string{"<"}, "LessThan"}, {[]string{"<", "="}, "LessEquals"}, {[]string{">"}, "GreaterThan"}, {[]string{">", "="}, "GreaterEquals"}}

func (r *refG) seq(i int, ss []string) bool {
	for k, s := range ss {
		if !r.lit(i+k, s) {
			return false
		}
	}
	return true
}

func (r *refG) operand(i int) []refRes {
	var out []refRes
	if v := r.truth(i); v != "" {
		out = append(out, refRes{i + 1, xN(map[string]string{"true": "True", "false": "False"}[v])})
	}
	if r.seq(i, []string{"EXISTS", "("}) {
		for _, a := range r.field(i + 2) {
			if r.lit(a.pos, ")") {
				out = append(out, refRes{a.pos + 1, x1("Exists", a.x)})
			}
		}
	}
	if r.seq(i, []string{"REGEXP_CONTAINS", "("}) {
		for _, a := range r.sum(i + 2) {
			if !r.lit(a.pos, ",") {
				continue
			}
			for _, b := range r.unary(a.pos + 1) {
				if b.x.Kind == "Value" && r.lit(b.pos, ")") && !r.lit(b.pos-1, ")") {
					out = append(out, refRes{b.pos + 1, x2("Like", a.x, &X{Kind: "Regex", Name: unquoted(b.x.Name)})})
				}
			}
		}
	}
	for _, a := range r.side(i) {
		for _, o := range refOps {
			if r.seq(a.pos, o.toks) {
				for _, b := range r.side(a.pos + len(o.toks)) {
					out = append(out, refRes{b.pos, x2(o.kind, a.x, b.x)})
				}
			}
		}
		if r.lit(a.pos, "IS") {
			p, not := a.pos+1, false
			if r.lit(p, "NOT") {
				p, not = p+1, true
			}
			if r.lit(p, "NULL") {
				out = append(out, refRes{p + 1, x2(map[bool]string{false: "Equals", true: "NotEquals"}[not], a.x, &X{Kind: "Value", Name: "nil"})})
			}
			if r.lit(p, "MISSING") {
				out = append(out, refRes{p + 1, x1(map[bool]string{false: "NotExists", true: "Exists"}[not], a.x)})
			}
		}
	}
	return out
}

var refMath = map[string]string{"+": "mathAdd", "-": "mathSubract", "*": "mathMultiply", "/": "mathDivide", "%": "mathModulo"}

// binary reads a chain of operators of one level, grouping to the left.
func (r *refG) binary(i int, ops string, item func(int) []refRes) []refRes {
	out := item(i)
	for k := 0; k < len(out); k++ {
		a := out[k]
		if a.pos < len(r.ts) && len(r.ts[a.pos].s) == 1 && strings.Contains(ops, r.ts[a.pos].s) && r.lit(a.pos, r.ts[a.pos].s) {
			for _, b := range item(a.pos + 1) {
				out = append(out, refRes{b.pos, xFn(refMath[r.ts[a.pos].s], a.x, b.x)})
			}
		}
	}
	return out
}

// side reads one side of a comparison.
func (r *refG) side(i int) []refRes {
	if v := r.truth(i); v != "" && (r.ts[i].typ == scanner.String) {
		return []refRes{{i + 1, &X{Kind: "Value", Name: v}}}
	}
	out := r.sum(i)
	if v := r.truth(i); v != "" {
		out = append(out, refRes{i + 1, &X{Kind: "Value", Name: v}})
	}
	return out
}

func (r *refG) sum(i int) []refRes     { return r.binary(i, "+-", r.product) }
func (r *refG) product(i int) []refRes { return r.binary(i, "*/%", r.unary) }

func (r *refG) unary(i int) []refRes {
	var out []refRes
	if r.lit(i, "-") {
		for _, a := range r.unary(i + 1) {
			out = append(out, refRes{a.pos, negX(a.x)})
		}
		return out
	}
	return r.primary(i)
}

// negX is the negation of a value: of a number, the opposite number.
func negX(x *X) *X {
	if x.Kind == "Value" && x.Path != nil {
		n := *x
		if strings.HasPrefix(x.Name, "-") {
			n.Name = x.Name[1:]
		} else {
			n.Name = "-" + x.Name
		}
		return &n
	}
	if x.Kind == "Func" && x.Name == "mathNegate" {
		return x.Kids[0]
	}
	return xFn("mathNegate", x)
}

var refFuncs1 = map[string]string{"ABS": "mathAbs", "ACOS": "mathAcos", "ASIN": "mathAsin", "ATAN": "mathAtan", "CEIL": "mathCeil", "COS": "mathCos",
	"DATE": "date", "DEGREES": "mathDegrees", "EXP": "mathExp", "FLOOR": "mathFloor", "LOG": "mathLog", "LN": "mathLn", "SIN": "mathSin", "TAN": "mathTan",
	"RADIANS": "mathRadians", "ROUND": "mathRound", "SQRT": "mathSqrt"}
var refFuncs2 = map[string]string{"ATAN2": "mathAtan2", "POW": "mathPow"}

func (r *refG) text(i int) string {
	t := r.ts[i]
	if t.sym {
		return "?" + t.s
	}
	return t.s
}

// quoted names a text value, to tell it from a number or a constant.
func quoted(s string) string { return "'" + s + "'" }

func unquoted(s string) string {
	if len(s) >= 2 && s[0] == '\'' {
		return s[1 : len(s)-1]
	}
	return s
}

// noDate: a text that names no point in time.
func noDate(x *X) bool {
	if x.Kind != "Value" || !strings.HasPrefix(x.Name, "'") {
		return false
	}
	for _, l := range []string{"2006", "2006-01", "2006-01-02", time.RFC3339} {
		if _, err := time.Parse(l, unquoted(x.Name)); err == nil {
			return false
		}
	}
	return true
}

var dateTexts = []string{"2019", "2019-02", "2019-02-03", "2019-02-03T04:05:06Z", "2019-02-03T04:05:06.789Z", "2019-02-03T04:05:06+07:30", "", "x", "19", "20190", "2019-13", "2019-02-30", "2019-2",
	"2019-02-03T", "2019-02-03T04:05:06", "2019-02-03T25:05:06Z", "02-03-2019", "2019 ", "2019-02-03Z", "a2019", "2019-02-03T04:05:06Zx"}

var numberMark = []string{}

func (r *refG) primary(i int) []refRes {
	if i >= len(r.ts) {
		return nil
	}
	var out []refRes
	t := r.ts[i]
	switch {
	case t.typ == scanner.Int || t.typ == scanner.Float:
		n := r.text(i)
		if !t.sym {
			f, _ := strconv.ParseFloat(t.s, 64)
			n = strconv.FormatFloat(f, 'g', -1, 64)
		}
		return []refRes{{i + 1, &X{Kind: "Value", Name: n, Path: numberMark}}}
	case t.typ == scanner.String:
		n := r.text(i)
		if !t.sym {
			n = quoted(n)
		}
		return []refRes{{i + 1, &X{Kind: "Value", Name: n}}}
	}
	if t.typ == scanner.Ident && r.lit(i+1, "(") {
		if r.lit(i, "PI") && r.lit(i+2, ")") {
			return []refRes{{i + 3, &X{Kind: "Value", Name: strconv.FormatFloat(math.Pi, 'g', -1, 64), Path: numberMark}}}
		}
		if r.lit(i, "E") && r.lit(i+2, ")") {
			return []refRes{{i + 3, &X{Kind: "Value", Name: strconv.FormatFloat(math.E, 'g', -1, 64), Path: numberMark}}}
		}
		if n := refFuncs1[t.s]; n != "" {
			for _, a := range r.sum(i + 2) {
				if r.lit(a.pos, ")") && !(n == "date" && noDate(a.x)) {
					out = append(out, refRes{a.pos + 1, xFn(n, a.x)})
				}
			}
		}
		if n := refFuncs2[t.s]; n != "" {
			for _, a := range r.sum(i + 2) {
				if r.lit(a.pos, ",") {
					for _, b := range r.sum(a.pos + 1) {
						if r.lit(b.pos, ")") {
							out = append(out, refRes{b.pos + 1, xFn(n, a.x, b.x)})
						}
					}
				}
			}
		}
	}
	return append(out, r.field(i)...)
}

// field reads a possibly negated path.
func (r *refG) field(i int) []refRes {
	if r.lit(i, "-") {
		var out []refRes
		for _, a := range r.field(i + 1) {
			out = append(out, refRes{a.pos, negX(a.x)})
		}
		return out
	}
	var out []refRes
	var rec func(i int, path []string)
	rec = func(i int, path []string) {
		if i >= len(r.ts) {
			return
		}
		p := append([]string{}, path...)
		switch {
		case r.seq(i, []string{"META", "(", ")"}):
			p, i = append(p, "META()"), i+3
		case r.ts[i].typ == scanner.Ident || r.ts[i].typ == scanner.RawString || r.ts[i].typ == scanner.Char:
			p, i = append(p, r.text(i)), i+1
		default:
			return
		}
		for r.lit(i, "[") && i+2 < len(r.ts) && r.ts[i+1].typ == scanner.Int && r.lit(i+2, "]") {
			p, i = append(p, "["+r.text(i+1)+"]"), i+3
		}
		out = append(out, refRes{i, xF(0, p...)})
		if r.lit(i, ".") {
			rec(i+1, p)
		}
	}
	rec(i, nil)
	return out
}

// keywords counts the fields of a rule that are named like a keyword.
func keywords(x *X) int {
	n := 0
	if x.Kind == "Field" && len(x.Path) > 0 {
		switch x.Path[0] {
		case "TRUE", "true", "FALSE", "false", "NOT", "AND", "OR", "EXISTS", "IS":
			n++
		}
	}
	for _, k := range x.Kids {
		n += keywords(k)
	}
	return n
}

// reference gives the rules a token sequence can be read as. Keywords are
// names of fields only where no other reading is left.
func reference(ts []*tok) []*X {
	r := &refG{ts}
	var out []*X
	least := 1 << 30
	for _, a := range r.or(0) {
		if a.pos == len(ts) {
			n := keywords(a.x)
			if n < least {
				least, out = n, nil
			}
			if n == least {
				out = append(out, normX(a.x))
			}
		}
	}
	return out
}

func (x *X) plain() *X {
	n := *x
	if n.Kind != "Field" {
		n.Path = nil
	}
	return &n
}

// normX writes rules that mean the same the same way: conjunctions are flat,
// negated comparisons are the opposite kind.
func normX(x *X) *X {
	n := &X{Kind: x.Kind, Name: x.Name, Root: x.Root, Path: x.Path, V: x.V}
	if x.Kind != "Field" {
		n.Path = nil
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, normX(k))
	}
	switch n.Kind {
	case "And", "Or":
		l := flatX(n.Kind, n, nil)
		if len(l) == 1 {
			return l[0]
		}
		n.Kids = l
	case "NotEquals":
		return x1("Not", x2("Equals", n.Kids[0], n.Kids[1]))
	case "NotExists":
		return x1("Not", x1("Exists", n.Kids[0]))
	case "Func":
		if n.Name == "mathNegate" && len(n.Kids) == 1 && n.Kids[0].Kind == "Value" && strings.Trim(n.Kids[0].Name, "-0123456789.e+") == "" {
			return negX(&X{Kind: "Value", Name: n.Kids[0].Name, Path: numberMark}).plain()
		}
	}
	return n
}

// ---- the check ----

type sentence struct {
	key  string
	ts   []*tok
	must bool // has to be accepted
}

func symLits(ts []*tok) bool {
	for _, t := range ts {
		if t.sym && t.typ != scanner.Ident {
			return true
		}
	}
	return false
}

type filt struct {
	*exprs
	c       *Check
	cur     []*tok
	g       *grammar
	look    int
	why     string
	compile bool // is the rule compiled, too
}

func newFilt(c *Check) *filt {
	m := newCompile(c)
	f := &filt{exprs: m, c: c, look: 1}
	e := m.e
	c.texts(e)
	e.MaxUnroll = 60
	errv := func(n string) *V { return Iface(types.Typ[types.Int], Sym("?"+n, types.Typ[types.Int])) }
	e.Hooks["github.com/alecthomas/participle.Build"] = func(x *CallCtx, st *State) ([]Out, bool) {
		f.g = nil
		a := x.Args[0]
		if a.Op != "iface" {
			f.why = "the type of the grammar is not known"
			return nil, false
		}
		f.look = 1
		if len(x.Args) > 1 && !x.Args[1].IsNil() {
			opts, ok := m.list(st, x.Args[1], c.P.Func("NewFilterExpressionParser").Signature.Results().At(2).Type())
			if !ok {
				f.why = "options of the parser"
			}
			for _, o := range opts {
				if o.Op == "call" && strings.HasSuffix(o.Aux, "participle.UseLookahead") && len(o.Args) == 1 {
					if n, ok := o.Args[0].Int(); ok {
						f.look = int(n)
						continue
					}
				}
				f.why = "option of the parser " + o.String()
			}
		}
		f.g, f.why = newGrammar(c.P.SSA.Pkg, a.Typ)
		p := T("parser", "", nil)
		st.Facts.Assume(IsNilCond(p), false)
		return []Out{{st, Tuple(p, Nil)}}, f.g != nil
	}
	e.Hooks["(*github.com/alecthomas/participle.Parser).ParseString"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if f.g == nil {
			return nil, false
		}
		inst, why := f.g.parse(f.cur, f.look)
		if why != "" {
			f.why = why
			return nil, false
		}
		if inst == nil {
			return []Out{{st, errv("parse error")}}, true
		}
		p := x.Args[2]
		if p.Op == "iface" {
			p = p.Args[0]
		}
		e.Store(st, p, inst.typ, m.instance(st, inst))
		return []Out{{st, Nil}}, true
	}
	fork := func(name string, yes, no func() *V) {
		if c.P.Func(name) == nil {
			return
		}
		e.Hooks[e.ShortName(c.P.Func(name))] = func(x *CallCtx, st *State) ([]Out, bool) {
			if x.Args[0].Op == "const" {
				return nil, false
			}
			s2 := st.Clone()
			return []Out{{st, yes()}, {s2, no()}}, true
		}
	}
	pin := e.Pin
	e.Pin = func(v *V) bool { return v.Op == "regexp error" || pin(v) }
	e.Hooks["regexp.Compile"] = func(x *CallCtx, st *State) ([]Out, bool) {
		// the same text always gives the same answer
		sig := x.Sig.Results()
		return []Out{{st, Tuple(T("regexp", "", sig.At(0).Type(), x.Args[0]), T("regexp error", "", sig.At(1).Type(), x.Args[0]))}}, true
	}
	fork("validTimeChecker", func() *V { return True }, func() *V { return False })
	fork("tokenIsPcreValueType", func() *V { return True }, func() *V { return False })
	return f
}

// out interprets the front end on a token sequence.
func (f *filt) out(ts []*tok) []*Final {
	f.cur, f.why = ts, ""
	e := f.e
	st := e.NewState()
	f.n = 0
	text := Sym("rule text", types.Typ[types.String])
	st.Facts.Assume(eqI(e.LenOf(st, text, types.Typ[types.String]), Zero), false)
	for _, t := range ts {
		if !t.sym {
			continue
		}
		if t.typ == scanner.Int {
			st.Facts.Restrict(Sym("?"+t.s, types.Typ[types.Int]), RangeI(0, 1<<62))
		}
		s := Sym("?"+t.s, types.Typ[types.String])
		st.Facts.Restrict(e.LenOf(st, s, types.Typ[types.String]), RangeI(1, 1<<40))
	}
	var fins []*Final
	for _, p := range e.Call(f.c.fn("NewFilterExpressionParser"), st, []*V{text}) {
		if p.Panic {
			fins = append(fins, p)
			continue
		}
		ev := p.Ret.Args[2]
		if p.St.Facts.Eval(IsNilCond(ev)) < 0 {
			p.Ret = Tuple(Nil, ev)
			fins = append(fins, p)
			continue
		}
		fins = append(fins, e.Call(f.c.fn("FilterExpression.OutputExpression"), p.St, []*V{p.Ret.Args[1]})...)
	}
	return fins
}

// numName names the payload of a value, signs included.
func (f *filt) fix(st *State, x *X) *X {
	n := *x
	n.Kids = nil
	if x.Kind == "Value" && x.V != nil {
		v := x.V
		if v.Op == "iface" {
			v = v.Args[0]
		}
		var syms []*V
		for s := range subTerms(v) {
			if s.Op == "sym" {
				syms = append(syms, s)
			}
		}
		if v.IsNil() {
			n.Name = "nil"
		} else if t, ok := v.Str(); ok {
			n.Name = quoted(t)
		} else if len(syms) == 1 && v != syms[0] {
			s := syms[0]
			if v == Scale(s, -1) || v.Op == "fneg" || v.Op == "fbin" && v.Aux == "*" && len(v.Args) == 2 && (v.Args[0] == CFloat(-1) || v.Args[1] == CFloat(-1)) {
				n.Name = "-" + s.Aux
			}
		}
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, f.fix(st, k))
	}
	return &n
}

func subTerms(v *V) map[*V]bool {
	m := map[*V]bool{}
	v.Walk(m)
	return m
}

func sameNorm(a, b *X) bool {
	// a regular expression may be one of either dialect
	dialect := func(k string) string {
		if k == "Pcre" {
			return "Regex"
		}
		return k
	}
	if dialect(a.Kind) != dialect(b.Kind) || a.Name != b.Name || len(a.Kids) != len(b.Kids) || strings.Join(a.Path, "\x00") != strings.Join(b.Path, "\x00") {
		return false
	}
	for i := range a.Kids {
		if !sameNorm(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

func (f *filt) judge(s sentence) {
	c, e := f.c, f.e
	want := reference(s.ts)
	what := toksString(s.ts)
	okFail := strings.Contains(what, "DATE") && symLits(s.ts) || strings.Contains(what, "REGEXP_CONTAINS") // literals of their own language
	accepted := false
	for _, fin := range f.out(s.ts) {
		if f.why != "" {
			c.Undec("%s: %s: %s", s.key, what, f.why)
			continue
		}
		w := e.Pos(InstrPos(fin.Instr))
		if fin.Panic {
			c.Bad(s.key, w, "no text makes the parser panic", what+": "+fin.What, e.TraceLines(fin.St, 15))
			continue
		}
		ex, errv := TupleAt(fin.Ret, 0), TupleAt(fin.Ret, 1)
		failed := fin.St.Facts.Eval(IsNilCond(errv))
		if failed == 0 {
			c.Undec("%s: %s: error or not?", s.key, what)
			continue
		}
		if failed < 0 {
			if okFail {
				accepted = true
			}
			continue
		}
		accepted = true
		if len(want) == 0 {
			got := "?"
			if g := f.read(fin.St, ex); g != nil {
				got = normX(f.fix(fin.St, g)).String()
			}
			c.Bad(s.key, w, "what is no rule is rejected", what+" is accepted as "+got, nil)
			continue
		}
		g := f.read(fin.St, ex)
		if g == nil {
			c.Undec("%s: %s: the rule is not known: %s", s.key, what, ex)
			continue
		}
		got := normX(f.fix(fin.St, g))
		same := false
		for _, x := range want {
			same = same || sameNorm(got, x)
		}
		if !same {
			c.Bad(s.key, w, "the rule is what the text says", what+" is read as "+got.String()+", should be "+want[0].String(), e.TraceLines(fin.St, 15))
			continue
		}
		c.Ok("%s: %s", s.key, what)
		if f.compile {
			c.compiles(f.exprs, fin.St, s.key, what, ex)
		}
	}
	if !accepted && f.why == "" {
		if s.must && len(want) > 0 && os.Getenv("VERIF_NOMUST") == "" {
			c.Bad(s.key, "filterExprParser.go", "rules are accepted", what+" is rejected", nil)
		} else {
			c.Ok("%s: rejected", s.key)
			if len(want) > 0 && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "REJECTED", what, want[0])
			}
		}
	}
	if len(want) > 1 {
		for _, x := range want[1:] {
			if !sameNorm(x, want[0]) {
				c.Undec("reference: %s is ambiguous", what)
			}
		}
	}
	c.takeUndec(e)
}

func filterCheck(c *Check, id string) {
	f := newFilt(c)
	var all []sentence
	switch id {
	case "C11":
		all = opSentences()
	case "C10":
		all = funcSentences()
	case "C21":
		all = groupSentences()
	}
	seen := map[string]bool{}
	n := 0
	for _, s := range all {
		k := toksString(s.ts)
		if seen[k] {
			continue
		}
		seen[k] = true
		n++
		f.compile = id == "C11" || id == "C10" && n%8 == 0 || n%50 == 0
		f.judge(s)
	}
	c.Cov["sentences"] = n
	simpleCheck(c, id)
	sort.Strings(c.Undecided)
}

// sent concatenates tokens, renaming symbols apart.
func sent(parts ...interface{}) []*tok {
	var out []*tok
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			out = append(out, words(p)...)
		case *tok:
			out = append(out, p)
		case []*tok:
			out = append(out, p...)
		}
	}
	n := 0
	for i, t := range out {
		if t.sym {
			out[i] = tkS(t.typ, fmt.Sprintf("%s%d", strings.TrimRight(t.s, "0123456789"), n))
			n++
		}
	}
	return out
}

var (
	tF = tkS(scanner.Ident, "f")
	tR = tkS(scanner.RawString, "r")
	tC = tkS(scanner.Char, "c")
	tI = tkS(scanner.Int, "i")
	tD = tkS(scanner.Float, "d")
	tS = tkS(scanner.String, "s")
)

func opSentences() []sentence {
	type side struct {
		ts   []*tok
		l, r bool // accepted on the left, on the right
	}
	sides := []side{{sent(tF), true, true}, {sent(tF, ".", tF, ".", tR), true, true}, {sent("-", tF), true, true}, {sent("- -", tF), false, false}, {sent(tI), true, true}, {sent(tD), true, true}, {sent("-", tI), false, true}, {sent("- -", tI), false, false}, {sent("- - -", tD), false, false},
		{sent("-", tD), false, true}, {sent(tS), true, true}, {sent("ABS (", tF, ")"), true, true}, {sent("POW (", tF, ",", tI, ")"), true, true}, {sent("PI ( )"), true, true},
		{sent(tF, "+", tI), true, true}, {sent(tF, "*", tF), true, true}, {sent(tI, "-", tF), true, false}, {sent("TRUE"), false, true}, {sent("false"), false, true},
		{sent("META ( ) .", tF), true, true}, {sent(tR, "[", tk(scanner.Int, "3"), "]"), true, true}, {sent(tC, ".", tF), true, true}}
	var out []sentence
	for _, o := range refOps {
		op := strings.Join(o.toks, " ")
		for _, l := range sides {
			for _, r := range sides {
				out = append(out, sentence{"comparison " + strings.Join(o.toks, ""), sent(l.ts, op, r.ts), l.l && r.r})
			}
		}
	}
	chars := []string{"!", "=", "<", ">", ""}
	for _, a := range chars {
		for _, b := range chars {
			out = append(out, sentence{key: "operator " + a + b, ts: sent(tF, a+" "+b, tI)})
			out = append(out, sentence{key: "operator " + a + b + "=", ts: sent(tF, a+" "+b+" =", tI)})
		}
	}
	for _, l := range sides {
		for _, s := range []string{"IS NULL", "IS NOT NULL", "IS MISSING", "IS NOT MISSING"} {
			out = append(out, sentence{"check " + s, sent(l.ts, s), l.l}, sentence{"check " + s, sent("NOT", l.ts, s), l.l})
		}
		out = append(out, sentence{"exists", sent("EXISTS (", l.ts, ")"), false}, sentence{"regexp", sent("REGEXP_CONTAINS (", l.ts, ",", tS, ")"), false})
	}
	for _, l := range []*tok{tF, tR, tC} {
		out = append(out, sentence{"exists", sent("EXISTS (", l, ")"), true}, sentence{"exists", sent("EXISTS (", l, ". a . b [ ", tk(scanner.Int, "0"), "] )"), true},
			sentence{"regexp", sent("REGEXP_CONTAINS (", l, ",", tS, ")"), true}, sentence{"regexp", sent("NOT REGEXP_CONTAINS (", l, ". a ,", tS, ")"), true})
	}
	return out
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func funcSentences() []sentence {
	args := [][]*tok{sent(tF), sent(tF, ".", tR), sent("-", tF), sent(tI), sent("-", tI), sent(tD), sent("-", tD), sent(tS), sent(tF, "+", tI), sent(tF, "-", tF), sent(tI, "*", tF),
		sent("ABS (", tF, ")"), sent("- ABS (", tF, ")"), sent("POW (", tF, ",", tI, ")"), sent("PI ( )"), sent("E ( )"), sent("- PI ( )"), sent("META ( ) .", tF)}
	var out []sentence
	add := func(key string, must bool, ts []*tok) { out = append(out, sentence{key, ts, must}) }
	negative := func(a []*tok) bool { // a negative number is not taken as an argument
		return len(a) == 2 && a[0].s == "-" && a[1].typ != scanner.Ident
	}
	around := func(key string, must bool, fn []*tok) {
		add(key, must, sent(fn, "=", tF))
		add(key, must, sent(tF, "<", fn))
		add(key, must, sent("-", fn, ">", tI))
		add(key, false, sent("- -", fn, ">", tI))
		add(key, must, sent(fn, "IS NOT NULL"))
		add(key, must, sent("REGEXP_CONTAINS (", fn, ",", tS, ")"))
	}
	names1, names2 := sortedKeys(refFuncs1), sortedKeys(refFuncs2)
	for _, n := range names1 {
		for _, a := range args {
			around(n, !negative(a), sent(n+" (", a, ")"))
		}
		for _, k := range names1 {
			add(n+" of "+k, true, sent(n+" (", k+" (", tF, ") ) =", tI))
		}
		for _, k := range names2 {
			add(n+" of "+k, true, sent(n+" (", k+" (", tF, ",", tS, ") ) =", tI))
			add(k+" of "+n, true, sent(k+" (", n+" (", tF, ") ,", tI, ") =", tI))
			add(k+" of "+n, true, sent(k+" (", tI, ",", n+" (", tF, ") ) =", tI))
		}
		add(n, false, sent(n+" ( ) =", tI))
		add(n, false, sent(n+" (", tF, ",", tF, ") =", tI))
		add(n, false, sent(n, "=", tI))
		add(n, false, sent(n+" (", tF, "=", tI))
	}
	for _, d := range dateTexts {
		for _, p := range [][]*tok{sent("DATE (", tk(scanner.String, d), ") =", tF), sent(tF, "< DATE (", tk(scanner.String, d), ")"), sent("EXISTS (", tF, ") AND ABS ( DATE (", tk(scanner.String, d), ") ) =", tF)} {
			out = append(out, sentence{key: "DATE", ts: p, must: true})
		}
	}
	for _, n := range names2 {
		for _, a := range args {
			for _, b := range args {
				must := !negative(a) && !negative(b)
				if n == names2[0] {
					around(n, must, sent(n+" (", a, ",", b, ")"))
				} else {
					add(n, must, sent(n+" (", a, ",", b, ") =", tF))
					add(n, must, sent(tF, "=", n+" (", a, ",", b, ")"))
				}
			}
		}
		add(n, false, sent(n+" (", tF, ") =", tI))
		add(n, false, sent(n+" (", tF, ",", tF, ",", tF, ") =", tI))
		for _, k := range names2 {
			add(n+" of "+k, true, sent(n+" (", k+" (", tF, ",", tI, ") ,", k+" (", tI, ",", tF, ") ) =", tI))
		}
	}
	for _, n := range []string{"PI", "E"} {
		around(n, true, sent(n+" ( )"))
		add(n, false, sent(n+" (", tF, ") =", tI))
	}
	for _, o := range sortedKeys(refMath) {
		for _, b := range [][]*tok{sent(tF), sent(tF, ".", tR), sent(tI), sent(tD), sent("-", tI), sent("-", tF), sent("-", tD), sent(tC)} {
			for _, a := range [][]*tok{sent(tF), sent("-", tF), sent(tF, ".", tR), sent(tC)} {
				add("operator "+o, true, sent(a, o, b, "=", tI))
				add("operator "+o, true, sent(tI, "=", a, o, b))
			}
		}
		for _, a := range [][]*tok{sent(tI), sent(tD)} {
			for _, b := range [][]*tok{sent(tF), sent("-", tF), sent(tF, ".", tR)} {
				add("operator "+o, true, sent(a, o, b, "=", tI))
				add("operator "+o, false, sent(tI, "=", a, o, b))
				add("operator "+o, false, sent("-", a, o, b, "=", tI))
			}
		}
		add("operator "+o, false, sent(tI, o, tI, "=", tI))
		add("operator "+o, false, sent(tF, o, "=", tI))
		add("operator "+o, false, sent(o, tF, "=", tI))
	}
	return out
}

func groupSentences() []sentence {
	var out []sentence
	add := func(key string, must bool, ts []*tok) { out = append(out, sentence{key, ts, must}) }
	// conditions: every grouping of up to four, with and without NOT
	leaves := [][]*tok{sent(tF, "=", tI), sent("EXISTS (", tF, ")"), sent("TRUE"), sent(tF, "IS NULL"), sent("REGEXP_CONTAINS (", tF, ",", tS, ")"), sent(tF, "< ABS (", tF, ")"), sent(tI, "! =", tF)}
	k := 0
	type phrase []string // "L" is a leaf
	items := make([][]phrase, 5)
	rules := make([][]phrase, 5)
	cat := func(l ...phrase) phrase {
		var p phrase
		for _, x := range l {
			p = append(p, x...)
		}
		return p
	}
	items[1] = []phrase{{"L"}, {"NOT", "L"}}
	var seqs func(n int) []phrase // sequences of items, at least two unless n items suffice
	seqs = func(n int) []phrase {
		var l []phrase
		for first := 1; first < n; first++ {
			rest := append(append([]phrase{}, items[n-first]...), rules[n-first]...)
			if n-first == 1 {
				rest = items[1]
			}
			for _, a := range items[first] {
				for _, b := range rest {
					for _, op := range []string{"AND", "OR"} {
						l = append(l, cat(a, phrase{op}, b))
					}
				}
			}
		}
		return l
	}
	for n := 2; n <= 4; n++ {
		rules[n] = seqs(n)
		for _, r := range rules[n] {
			items[n] = append(items[n], cat(phrase{"("}, r, phrase{")"}), cat(phrase{"NOT", "("}, r, phrase{")"}))
		}
	}
	fill := func(p phrase) []*tok {
		var ts []*tok
		for _, w := range p {
			if w == "L" {
				ts = append(ts, leaves[k%len(leaves)]...)
				k++
			} else {
				ts = append(ts, words(w)...)
			}
		}
		return sent(ts)
	}
	for n := 2; n <= 4; n++ {
		for i, r := range rules[n] {
			if n == 4 && i%3 != 0 { // a third of the largest
				continue
			}
			// NOT before a parenthesis is not in the documented grammar
			add(fmt.Sprintf("grouping of %d", n), !strings.Contains(strings.Join(r, " "), "NOT ("), fill(r))
		}
	}
	for _, r := range []string{"L", "( L )", "( ( L ) )", "NOT NOT L", "NOT ( NOT L )", "NOT NOT NOT L", "NOT ( ( L ) )", "( NOT ( L ) )", "NOT NOT ( L )", "( L ) AND ( ( L ) OR L )", "L AND L AND L AND L AND L", "L OR L OR L OR L OR L",
		"NOT ( L AND L ) OR NOT ( L OR L )", "( ( L AND L ) OR ( L AND L ) ) AND ( ( L OR L ) AND ( L OR L ) )", "( ( ( L ) ) )"} {
		for range leaves {
			add("grouping", !strings.Contains(r, "NOT ("), fill(strings.Fields(r)))
			k++
		}
	}
	for _, r := range []string{"", "L L", "L AND", "AND L", "NOT", "( L", "L )", "( )", "L AND OR L", "L NOT L", "L OR ( )", "L ( L )", "NOT AND L", "( L ) ( L )", "L OR NOT", "( L AND ) L"} {
		for range leaves {
			add("malformed grouping", true, fill(strings.Fields(r)))
			k++
		}
	}
	// arithmetic: chains of operators
	ops := sortedKeys(refMath)
	ends := [][]*tok{sent(tF), sent(tI), sent("-", tF), sent("-", tD)}
	for _, a := range ops {
		for _, b := range ops {
			for _, x := range ends {
				for _, y := range ends {
					add("chain", true, sent(tF, a, x, b, y, "=", tI))
					add("chain", true, sent(tI, "=", tF, a, x, b, y))
				}
				add("chain", false, sent(tI, a, tF, b, x, "=", tI))
				add("chain", true, sent("ABS ( -", tF, a, x, b, tF, ") =", tI))
			}
			for _, c := range ops {
				add("chain", true, sent(tF, a, tI, b, tF, c, tI, "=", tI))
				add("chain", true, sent("-", tF, a, tF, b, tI, c, "-", tF, "=", tI))
				add("chain", true, sent(tI, "< ABS (", tF, a, tI, b, tF, c, tF, ")"))
			}
		}
	}
	for _, c := range []string{"+ + - *", "* + * -", "- - - -", "/ / * %", "+ * % + -", "- * - / - %"} {
		ts := sent(tF)
		for _, o := range strings.Fields(c) {
			ts = append(ts, sent(o, tF)...)
		}
		add("chain", true, sent(ts, "=", tI))
	}
	for n := 0; n <= 4; n++ {
		m := strings.Repeat("- ", n)
		for _, x := range [][]*tok{sent(tF), sent(tI), sent(tD), sent("ABS (", tF, ")"), sent("PI ( )")} {
			add("signs", false, sent(m, x, "=", tI))
			add("signs", false, sent(tI, "=", m, x))
			add("signs", false, sent(tF, "+", m, x, "=", tI))
			add("signs", false, sent("ABS (", m, x, ") =", tI))
			add("signs", false, sent("EXISTS (", m, x, ")"))
			add("signs", false, sent("REGEXP_CONTAINS (", m, x, ",", tS, ")"))
		}
	}
	// damaged rules
	base := [][]*tok{sent(tF, "=", tI), sent("NOT", tF, "= = -", tI, "AND EXISTS (", tF, ". a [", tk(scanner.Int, "1"), "] )"), sent("(", tF, "IS NOT NULL OR REGEXP_CONTAINS (", tF, ",", tS, ") )"),
		sent("POW (", tF, ",", tI, ") < ABS ( -", tF, ")"), sent(tF, "+", tI, "* -", tF, "> = PI ( )"), sent("META ( ) .", tF, "< >", tS, "OR NOT ( TRUE )"), sent(tF, "IS MISSING AND", tI, "%", tF, "! = false")}
	vocab := []*tok{tF, tk(scanner.Int, "7"), tk(scanner.Float, "2.5"), tS, tR, tC}
	for _, w := range strings.Fields("( ) , . [ ] = < > ! + - * / % AND OR NOT IS NULL MISSING TRUE EXISTS ABS POW PI META REGEXP_CONTAINS ; ? & ~") {
		vocab = append(vocab, words(w)...)
	}
	for _, b := range base {
		for i := range b {
			cut := append(append([]*tok{}, b[:i]...), b[i+1:]...)
			add("damaged rule", false, sent(cut))
			add("damaged rule", false, sent(append([]*tok{}, b[:i]...)))
			add("damaged rule", false, sent(append([]*tok{}, b[i:]...)))
			for _, v := range vocab {
				r := append([]*tok{}, b...)
				r[i] = v
				add("damaged rule", false, sent(r))
				ins := append(append(append([]*tok{}, b[:i]...), v), b[i:]...)
				add("damaged rule", false, sent(ins))
			}
			if i+1 < len(b) {
				r := append([]*tok{}, b...)
				r[i], r[i+1] = r[i+1], r[i]
				add("damaged rule", false, sent(r))
			}
		}
	}
	// texts that look like keywords
	for _, w := range []string{"TRUE", "true", "FALSE", "false", "OR", "AND", "NOT", "-", "+", "(", ")", "E", "PI", "ABS", "META", "IS", "NULL", "=", "EXISTS", "f", "1"} {
		q := tk(scanner.String, w)
		for _, l := range [][]*tok{sent(tF, "=", q), sent(tF, "<", q, "AND", tF, "=", tI), sent("ABS (", q, ") =", tI), sent("POW (", tF, ",", q, ") =", tI)} {
			add("quoted keyword", w != "=", l)
		}
		add("quoted keyword", false, sent(q, "=", tF))
		add("quoted keyword", false, sent("NOT", q, "! =", tF))
		add("quoted keyword", false, sent("REGEXP_CONTAINS (", tF, ",", q, ")"))
	}
	return out
}

// operators checks the rules written in the JSON form, and the compilation of
// every condition, alone and negated.
func (c *Check) operators() {
	c.jsonRules(operatorTrees(), false)
	m := newCompile(c)
	for _, l := range leafShapes(0, "v") {
		m.judgeCompile("compile/"+l.Kind, []*X{l})
		m.judgeCompile("compile/not "+l.Kind, []*X{x1("Not", l)})
		m.judgeCompile("compile/and "+l.Kind, []*X{xN("And", x2("Equals", xF(0, "other"), xV("o")), x1("Not", l))})
	}
}

// functions checks the functions of the JSON form and their compilation.
func (c *Check) functions() {
	c.jsonRules(map[string][]*jv{"functions": ruleTrees()["functions"]}, false)
	m := newCompile(c)
	var names []string
	for n := range jsonFuncs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a, b := []*X{xF(0, "a"), xF(0, "b", "c")}, []*X{xV("v"), xF(0, "a")}
		x := xFn(n, a[:jsonFuncs[n]]...)
		y := xFn(n, b[:jsonFuncs[n]]...)
		m.judgeCompile("compile/"+n, []*X{x2("LessThan", x, xV("k"))})
		m.judgeCompile("compile/"+n, []*X{x2("Equals", xF(0, "z"), y)})
		z := append([]*X{}, b[:jsonFuncs[n]]...)
		z[0] = x
		m.judgeCompile("compile/"+n, []*X{x1("Not", x2("Equals", xFn(n, z...), xFn("mathAbs", y)))})
	}
}
