package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	. "verifcheck/absint"
)

// C18: parsing a rule in the JSON form.
//
// The parser is interpreted on trees of JSON values: every operator with
// every number of elements, every kind of value in every position, with
// texts and numbers symbolic where they are payload. An independent reading
// of the rule format says whether the tree denotes a rule, and which.

func init() { checks["C18"] = c18 }

// jv is a JSON value; lists are expressions.
type jv struct {
	kind string // list str num bool null map
	kids []*jv
	s    string  // text; "?…" is a symbol
	n    float64 // number
	sym  bool    // the number is a symbol named s
}

func jS(s string) *jv     { return &jv{kind: "str", s: s} }
func jN(n float64) *jv    { return &jv{kind: "num", n: n} }
func jL(kids ...*jv) *jv  { return &jv{kind: "list", kids: kids} }
func jK(kind string) *jv  { return &jv{kind: kind} }
func jNS(name string) *jv { return &jv{kind: "num", sym: true, s: name} }
func jOp(op string, kids ...*jv) *jv {
	return jL(append([]*jv{jS(op)}, kids...)...)
}

func (j *jv) String() string {
	switch j.kind {
	case "str":
		return fmt.Sprintf("%q", j.s)
	case "num":
		if j.sym {
			return j.s
		}
		return fmt.Sprint(j.n)
	case "list":
		var l []string
		for _, k := range j.kids {
			l = append(l, k.String())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "map":
		return "{}"
	case "bool":
		return "true"
	}
	return j.kind
}

func anyT() types.Type { return types.NewInterfaceType(nil, nil) }

// jsonVal is the value encoding/json makes of j.
func (m *exprs) jsonVal(st *State, j *jv) *V {
	switch j.kind {
	case "str":
		if strings.HasPrefix(j.s, "?") {
			return Iface(types.Typ[types.String], Sym(j.s, types.Typ[types.String]))
		}
		return Iface(types.Typ[types.String], CStr(j.s))
	case "num":
		if j.sym {
			return Iface(types.Typ[types.Float64], Sym(j.s, types.Typ[types.Float64]))
		}
		return Iface(types.Typ[types.Float64], CFloat(j.n))
	case "bool":
		return Iface(types.Typ[types.Bool], Sym("?bool", types.Typ[types.Bool]))
	case "null":
		return Nil
	case "map":
		t := types.NewMap(types.Typ[types.String], anyT())
		p := Sym("?map", t)
		st.Facts.Assume(IsNilCond(p), false)
		return Iface(t, p)
	}
	return Iface(types.NewSlice(anyT()), m.jsonList(st, j))
}

func (m *exprs) jsonList(st *State, j *jv) *V {
	var l []*V
	for _, k := range j.kids {
		l = append(l, m.jsonVal(st, k))
	}
	return m.slice(st, anyT(), l)
}

var jsonCmp = map[string]string{"equals": "Equals", "notequals": "NotEquals", "lessthan": "LessThan", "lessequals": "LessEquals",
	"greaterthan": "GreaterThan", "greaterequals": "GreaterEquals", "like": "Like"}
var jsonLoop = map[string]string{"anyin": "AnyIn", "everyin": "EveryIn", "anyeveryin": "AnyEveryIn"}

var jsonFuncs = map[string]int{"date": 1, "mathAbs": 1, "mathAcos": 1, "mathAsin": 1, "mathAtan": 1, "mathAtan2": 2, "mathCeil": 1,
	"mathCos": 1, "mathDegrees": 1, "mathExp": 1, "mathFloor": 1, "mathLog": 1, "mathLn": 1, "mathPow": 2, "mathRadians": 1,
	"mathRound": 1, "mathSin": 1, "mathSqrt": 1, "mathTan": 1, "mathAdd": 2, "mathSubract": 2, "mathMultiply": 2, "mathDivide": 2,
	"mathModulo": 2, "mathNegate": 1}

const jsonGoodTime, jsonGoodRegex = "2019-01-02T03:04:05Z", "^a+$"

// operand reads j as something that has a value; nil: it is none.
func (j *jv) operand(vars []int64) *X {
	if j.kind != "list" || len(j.kids) < 2 || j.kids[0].kind != "str" {
		return nil
	}
	a := j.kids[1:]
	switch op := j.kids[0].s; op {
	case "value":
		if len(a) != 1 || a[0].kind == "list" || a[0].kind == "map" {
			return nil
		}
		x := &X{Kind: "Value", Name: a[0].s}
		if a[0].kind == "bool" {
			x.Name = "?bool"
		}
		if a[0].kind == "num" && !a[0].sym {
			x.Name = fmt.Sprint(a[0].n)
		}
		return x
	case "regex", "time":
		if len(a) != 1 || a[0].kind != "str" {
			return nil
		}
		if op == "regex" {
			if _, err := regexp.Compile(a[0].s); err != nil {
				return nil
			}
			return &X{Kind: "Regex", Name: a[0].s}
		}
		if _, err := time.Parse(time.RFC3339, a[0].s); err != nil {
			return nil
		}
		return &X{Kind: "Time", Name: a[0].s}
	case "field":
		x := &X{Kind: "Field"}
		if a[0].kind == "num" {
			x.Root = int64(a[0].n)
			if x.Root < 0 || float64(x.Root) != a[0].n {
				return nil
			}
			a = a[1:]
		}
		for _, k := range a {
			if k.kind != "str" {
				return nil
			}
			x.Path = append(x.Path, k.s)
		}
		known := x.Root == 0
		for _, v := range vars {
			known = known || v == x.Root
		}
		if !known {
			return nil
		}
		return x
	case "func":
		if a[0].kind != "str" {
			return nil
		}
		n, ok := jsonFuncs[a[0].s]
		if !ok || len(a) != n+1 {
			return nil
		}
		x := &X{Kind: "Func", Name: a[0].s}
		for _, k := range a[1:] {
			o := k.operand(vars)
			if o == nil {
				return nil
			}
			x.Kids = append(x.Kids, o)
		}
		return x
	}
	return nil
}

// condition reads j as something that is true or false; nil: it is none.
func (j *jv) condition(vars []int64) *X {
	if j.kind != "list" || len(j.kids) < 2 || j.kids[0].kind != "str" {
		return nil
	}
	op, a := j.kids[0].s, j.kids[1:]
	x := &X{}
	add := func(k *X) bool {
		x.Kids = append(x.Kids, k)
		return k != nil
	}
	switch op {
	case "not":
		x.Kind = "Not"
		if len(a) != 1 || !add(a[0].condition(vars)) {
			return nil
		}
		return x
	case "and", "or":
		x.Kind = map[string]string{"and": "And", "or": "Or"}[op]
		for _, k := range a {
			if !add(k.condition(vars)) {
				return nil
			}
		}
		return x
	case "exists", "notexists":
		x.Kind = map[string]string{"exists": "Exists", "notexists": "NotExists"}[op]
		if len(a) != 1 || !add(a[0].operand(vars)) {
			return nil
		}
		return x
	}
	if k := jsonLoop[op]; k != "" {
		x.Kind = k
		if len(a) != 3 || a[0].kind != "num" || a[0].n < 1 || float64(int64(a[0].n)) != a[0].n {
			return nil
		}
		x.Root = int64(a[0].n)
		in := a[1].operand(vars)
		if in == nil || in.Kind != "Field" || !add(in) || !add(a[2].condition(append(append([]int64{}, vars...), x.Root))) {
			return nil
		}
		return x
	}
	if k := jsonCmp[op]; k != "" {
		x.Kind = k
		if len(a) != 2 || !add(a[0].operand(vars)) || !add(a[1].operand(vars)) {
			return nil
		}
		return x
	}
	return nil
}

// regexTexts gives the values of regular expressions and time layouts on
// texts that are known.
func (c *Check) regexTexts(e *Engine) {
	compile := func(must bool) Hook {
		return func(x *CallCtx, st *State) ([]Out, bool) {
			s, ok := x.Args[0].Str()
			if !ok {
				return nil, false
			}
			_, err := regexp.Compile(s)
			p := T("regexp", s, nil)
			st.Facts.Assume(IsNilCond(p), false)
			if must {
				return []Out{{st, p}}, err == nil
			}
			if err != nil {
				ev := Iface(types.Typ[types.Int], Sym("?regexp error", types.Typ[types.Int]))
				return []Out{{st, Tuple(Nil, ev)}}, true
			}
			return []Out{{st, Tuple(p, Nil)}}, true
		}
	}
	e.Hooks["regexp.Compile"] = compile(false)
	e.Hooks["regexp.MustCompile"] = compile(true)
	// the pattern of a regexp: of this run, or of package initialisation
	pat := func(v *V) (*regexp.Regexp, bool) {
		var s string
		switch {
		case v.Op == "regexp":
			s = v.Aux
		case v.Op == "call" && strings.HasPrefix(v.Aux, "regexp.") && len(v.Args) == 1:
			s, _ = v.Args[0].Str()
		}
		if s == "" {
			return nil, false
		}
		r, err := regexp.Compile(s)
		return r, err == nil
	}
	e.Hooks["(*regexp.Regexp).MatchString"] = func(x *CallCtx, st *State) ([]Out, bool) {
		r, ok := pat(x.Args[0])
		s, ok2 := x.Args[1].Str()
		if !ok || !ok2 {
			return nil, false
		}
		return []Out{{st, CBool(r.MatchString(s))}}, true
	}
	e.Hooks["time.Parse"] = func(x *CallCtx, st *State) ([]Out, bool) {
		l, ok := x.Args[0].Str()
		s, ok2 := x.Args[1].Str()
		if !ok || !ok2 {
			return nil, false
		}
		r := T("time", s, nil)
		if _, err := time.Parse(l, s); err != nil {
			return []Out{{st, Tuple(r, Iface(types.Typ[types.Int], Sym("?time error", types.Typ[types.Int])))}}, true
		}
		return []Out{{st, Tuple(r, Nil)}}, true
	}
}

// sameX compares two rules.
func sameX(a, b *X) bool {
	if a == nil || b == nil || a.Kind != b.Kind || a.Name != b.Name || a.Root != b.Root || len(a.Kids) != len(b.Kids) || strings.Join(a.Path, "\x00") != strings.Join(b.Path, "\x00") {
		return false
	}
	for i := range a.Kids {
		if !sameX(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// named drops the payloads and names the values whose text is not looked at.
func named(x *X) *X {
	n := *x
	n.V, n.Kids = nil, nil
	if n.Kind == "Value" && n.Name == "nil" {
		n.Name = ""
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, named(k))
	}
	return &n
}

// ruleTrees lists the JSON values the parser is interpreted on.
func ruleTrees() map[string][]*jv {
	fa, fb := jOp("field", jS("?a")), jOp("field", jS("b"), jS("?c"))
	val := jOp("value", jS("?v"))
	eq := jOp("equals", fa, val)
	ex := jOp("exists", fb)
	junk := func() []*jv {
		return []*jv{jS("x"), jN(1), jK("bool"), jK("null"), jK("map"), jL(), jL(jN(1)), jL(jL()), jL(jK("null"), jN(1)),
			jL(jL(jS("value"), jN(1)), jN(2)), jL(jK("bool"), jS("x"), jS("y")), jL(jK("map"), jS("x"))}
	}
	good := []*jv{fa, fb, jOp("field", jN(0), jS("a")), jOp("field", jN(0)), val, jOp("value", jNS("?n")), jOp("value", jK("bool")), jOp("value", jK("null")),
		jOp("func", jS("mathAbs"), fa), jOp("func", jS("mathPow"), fb, val), jOp("func", jS("date"), val),
		jOp("func", jS("mathAdd"), jOp("func", jS("mathSqrt"), fa), val), jOp("regex", jS(jsonGoodRegex)), jOp("time", jS(jsonGoodTime))}
	badOp := []*jv{jOp("value", jL()), jOp("value", jK("map")), jOp("value", jL(jS("value"), jN(1))), jOp("field", jN(-1), jS("a")), jOp("field", jN(1), jS("a")),
		jOp("field", jN(1.5), jS("a")), jOp("field", jN(0.5)), jOp("field", jK("null")), jOp("field", jS("a"), jN(0)), jOp("field", jS("a"), jL()), jOp("field", jN(0), jN(0)),
		jOp("func", jS("nope"), fa), jOp("func", jS(""), fa), jOp("func", jN(1), fa), jOp("func", jS("mathAbs"), eq), jOp("func", jS("mathAbs"), jS("a")),
		jOp("func", jS("mathAbs"), jOp("func", jS("nope"), fa)), jOp("func", jS("mathAbs"), jOp("field", jN(3), jS("a"))),
		jOp("func", jS("mathPi"), fa), jOp("func", jS("ABS"), fa), jOp("func", jS("equals"), fa), jOp("func", jL(), fa), jOp("func", jS("mathAbs"), jK("null")),
		jOp("regex", jS("(")), jOp("regex", jN(1)), jOp("regex", jK("null")), jOp("regex", jK("bool")), jOp("time", jS("noon")), jOp("time", jN(1)), jOp("time", jS("")), jOp("time", jK("null")), jOp("time", jL())}
	goodC := []*jv{eq, ex, jOp("not", eq), jOp("and", eq), jOp("or", eq, ex), jOp("and", ex, eq, jOp("or", ex, eq)), jOp("anyin", jN(1), fa, jOp("exists", jOp("field", jN(1), jS("?d"))))}
	badC := []*jv{jOp("nope", fa), jOp("", fa), jOp("true", fa), jOp("false"), jOp("exists", eq), jOp("equals", eq, eq), jOp("and", fa), jOp("not", val)}
	arg := map[string][]*jv{"value": {jS("?v")}, "field": {jS("?a")}, "func": {jS("mathAbs"), fa}, "regex": {jS(jsonGoodRegex)}, "time": {jS(jsonGoodTime)},
		"not": {eq}, "and": {eq, ex}, "or": {eq, ex}, "exists": {fa}, "notexists": {fa}, "nope": {fa}, "": {fa}, "AND": {eq, ex}}
	for o := range jsonCmp {
		arg[o] = []*jv{fa, val}
	}
	for o := range jsonLoop {
		arg[o] = []*jv{jN(1), fa, jOp("exists", jOp("field", jN(1), jS("?d")))}
	}
	out := map[string][]*jv{}
	add := func(group string, j *jv) { out[group] = append(out[group], j) }
	for _, j := range junk() {
		if j.kind == "list" {
			add("top", j)
		}
	}
	// every operator with every number of elements
	for op, as := range arg {
		var fill []*jv
		fill = append(fill, as...)
		for len(fill) < 6 {
			fill = append(fill, as[len(as)-1])
		}
		for n := 0; n <= 6; n++ {
			j := jOp(op, fill[:n]...)
			add("arity "+op, j)
			add("arity "+op, jOp("and", eq, j))
			add("arity "+op, jOp("not", j))
			add("arity "+op, jOp("equals", fa, j))
			add("arity "+op, jOp("greaterthan", j, fa))
			add("arity "+op, jOp("func", jS("mathNegate"), j))
		}
		// every kind of value in every place
		all := append(append(append(append(junk(), good...), badOp...), goodC...), badC...)
		for i := range as {
			for _, k := range all {
				l := append([]*jv{}, as...)
				l[i] = k
				add("element "+op, jOp(op, l...))
				if op == "value" || op == "field" || op == "func" || op == "regex" || op == "time" {
					add("element "+op, jOp("exists", jOp(op, l...)))
				}
			}
		}
	}
	for f, n := range jsonFuncs {
		for k := 0; k <= 4; k++ {
			l := []*jv{jS(f)}
			for i := 0; i < k; i++ {
				l = append(l, []*jv{fa, val, fb, fa}[i])
			}
			_ = n
			add("functions", jOp("lessthan", val, jOp("func", l...)))
		}
	}
	// variables
	f := func(v float64) *jv { return jOp("field", jN(v), jS("x")) }
	e1 := func(v float64) *jv { return jOp("exists", f(v)) }
	for o := range jsonLoop {
		for _, v := range []*jv{jN(0), jN(-1), jN(1.5), jN(2), jS("1"), jK("null"), jL()} {
			add("variables", jOp(o, v, fa, ex))
			add("variables", jOp(o, v, fa, e1(2)))
		}
		add("variables", jOp(o, jN(1), f(1), ex))
		add("variables", jOp(o, jN(1), val, ex))
		for _, in := range []float64{0, 1, 2, 3} {
			for _, u := range []float64{0, 1, 2, 3} {
				add("variables", jOp(o, jN(1), fa, jOp(o, jN(2), f(in), e1(u))))
				add("variables", jOp(o, jN(1), fa, jOp("and", jOp(o, jN(2), f(in), ex), e1(u))))
				add("variables", jOp("or", jOp(o, jN(1), fa, e1(in)), e1(u)))
				add("variables", jOp(o, jN(1), fa, jOp("equals", f(in), jOp("func", jS("mathAbs"), f(u)))))
				add("variables", jOp(o, jN(1), fa, jOp("not", jOp("notexists", f(u)))))
				add("variables", jOp("and", jOp(o, jN(1), fa, jOp("or", jOp(o, jN(2), f(1), e1(2)), e1(in))), e1(u)))
				add("variables", jOp(o, jN(1), fa, jOp("and", jOp("or", e1(1), ex), jOp(o, jN(2), f(in), e1(1)), jOp(o, jN(3), f(u), jOp("and", e1(1), e1(3))))))
			}
		}
	}
	return out
}

func c18(c *Check) {
	c.Cov["rule"] = "on every tree of JSON values the parser returns what the rule format says: an error, or the rule (which then compiles); it never panics"
	c.jsonRules(ruleTrees(), true)
}

// operatorTrees lists conditions of every operator with operands that can be
// told apart, alone and negated.
func operatorTrees() map[string][]*jv {
	out := map[string][]*jv{}
	fa, fb := jOp("field", jS("?a")), jOp("field", jS("b"), jS("?c"))
	ops := []*jv{fa, fb, jOp("field", jN(0), jS("z")), jOp("value", jS("?v")), jOp("value", jNS("?n")), jOp("value", jK("bool")), jOp("value", jK("null")),
		jOp("func", jS("mathAbs"), fa), jOp("func", jS("date"), jOp("value", jS("?w"))), jOp("func", jS("mathPow"), fb, jOp("value", jNS("?m"))),
		jOp("regex", jS(jsonGoodRegex)), jOp("time", jS(jsonGoodTime))}
	for o := range jsonCmp {
		for i, l := range ops {
			for k, r := range ops {
				if i != k {
					out["json "+o] = append(out["json "+o], jOp(o, l, r))
				}
			}
		}
		x, y := jOp(o, fa, ops[3]), jOp(o, ops[4], fb)
		out["json "+o] = append(out["json "+o], jOp("not", x), jOp("not", jOp("not", y)), jOp("and", x, y), jOp("or", y, x), jOp("and", jOp("not", x), y),
			jOp("anyin", jN(1), fa, jOp(o, jOp("field", jN(1), jS("q")), ops[3])), jOp("everyin", jN(1), fa, jOp(o, ops[3], jOp("field", jN(1)))))
	}
	for _, o := range []string{"exists", "notexists"} {
		for _, x := range []*jv{fa, fb, ops[2], ops[7]} {
			out["json "+o] = append(out["json "+o], jOp(o, x), jOp("not", jOp(o, x)))
		}
	}
	return out
}

// jsonRules interprets the parser on the trees.
func (c *Check) jsonRules(groups map[string][]*jv, texts bool) {
	e := c.Engine()
	m := newExprs(c, e)
	e.NoWiden = true
	e.MaxRec = 12
	e.MaxUnroll = 40
	c.regexTexts(e)
	var tree *jv
	mode := "tree"
	e.Hooks["encoding/json.Unmarshal"] = func(x *CallCtx, st *State) ([]Out, bool) {
		p := x.Args[1]
		if p.Op == "iface" {
			p = p.Args[0]
		}
		switch mode {
		case "error":
			return []Out{{st, Iface(types.Typ[types.Int], Sym("?json error", types.Typ[types.Int]))}}, true
		case "null":
			return []Out{{st, Nil}}, true
		}
		t := types.NewSlice(anyT())
		e.Store(st, p, t, m.jsonList(st, tree))
		return []Out{{st, Nil}}, true
	}
	parse := c.fn("ParseJsonExpression")
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	run := func(key string, want *X, what string) {
		st := e.NewState()
		m.n = 0
		for _, f := range e.Call(parse, st, []*V{Sym("rule text", bytesT)}) {
			w := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				c.Bad(key, w, "parsing never panics", what+": "+f.What, e.TraceLines(f.St, 15))
				continue
			}
			ex, errv := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
			failed := f.St.Facts.Eval(IsNilCond(errv))
			if failed == 0 {
				c.Undec("%s: %s: error or not?", key, what)
				continue
			}
			if want == nil {
				if failed < 0 {
					c.Ok("%s: rejected", key)
				} else {
					c.Bad(key, w, "what is no rule is rejected", what+" is accepted", e.TraceLines(f.St, 15))
				}
				continue
			}
			if failed < 0 {
				c.Bad(key, w, "rules are accepted", what+" is rejected", e.TraceLines(f.St, 15))
				continue
			}
			got := m.read(f.St, ex)
			switch {
			case got == nil:
				c.Undec("%s: %s: the rule is not known: %s", key, what, ex)
			case !sameX(named(got), named(want)):
				c.Bad(key, w, "the rule is the one that was written", what+" becomes "+named(got).String()+", should be "+want.String(), e.TraceLines(f.St, 15))
			default:
				c.Ok("%s: read", key)
				c.compiles(m, f.St, key, what, ex)
			}
		}
		c.takeUndec(e)
	}
	if texts {
		mode = "error"
		run("not JSON", nil, "a text that is not a JSON list")
		mode = "null"
		run("null", nil, "null")
	}
	mode = "tree"
	n, rules := 0, 0
	var names []string
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		seen := map[string]bool{}
		for _, j := range groups[g] {
			if seen[j.String()] {
				continue
			}
			seen[j.String()] = true
			tree = j
			want := j.condition(nil)
			n++
			if want != nil {
				rules++
			}
			run(g, want, j.String())
		}
	}
	c.Cov["JSON values parsed"] = n
	c.Cov["of which rules"] = rules
	c.Assume = append(c.Assume, "encoding/json yields lists, texts, float64 numbers, booleans, null and maps, as documented", "regexp.Compile and time.Parse on the given literal texts behave as the Go library does")
}

// compiles interprets the transformer on an accepted rule.
func (c *Check) compiles(m *exprs, st *State, key, what string, ex *V) {
	e := m.e
	tt := c.lookupType("Transformer")
	t := e.NewObj(st, "transformer", tt, ZeroVal(tt))
	for _, f := range e.Call(c.fn("Transformer.Transform"), st, []*V{t, m.slice(st, m.exprT, []*V{ex})}) {
		w := e.Pos(InstrPos(f.Instr))
		if f.Panic {
			c.Bad(key, w, "accepted rules compile", what+": "+f.What, e.TraceLines(f.St, 15))
		} else if f.St.Facts.Eval(IsNilCond(f.Ret)) >= 0 {
			c.Bad(key, w, "accepted rules compile", what+" compiles to nothing", e.TraceLines(f.St, 15))
		} else {
			c.Ok("%s: compiles", key)
		}
	}
}
