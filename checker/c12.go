package main

import (
	"fmt"
	"sort"
	"strings"

	. "verifcheck/absint"
)

// C12: every kind of expression, in every position, through the passes that
// walk over rules: the fields a rule needs, its statistics, compaction and
// compilation. C13: what compaction does to the meaning of a rule.

func init() {
	checks["C12"] = c12
	checks["C13"] = c13
}

// operandKinds are the operands that carry no condition.
func operandKinds(v int64, t string) []*X {
	f := func(p ...string) *X { return xF(v, p...) }
	return []*X{f("a"), f("a", "b"), f("z"), f(), xV(t + "v"), {Kind: "Time", Name: t + "t"},
		xFn("mathAbs", f("a")), xFn("mathPow", f("p"), xV(t+"e")), xFn("mathAdd", f("p"), f("q")), xFn("mathSub", f("p"), xFn("mathNeg", f("p"))), xFn("mathPi"),
		xFn("mathPow", xFn("mathAbs", f("r")), xFn("mathAdd", f("s"), xV(t+"w"))), xFn("date", f("d"))}
}

// passShapes are the conditions the passes are tried on, over variable v.
func passShapes(v int64, t string) []*X {
	var out []*X
	ops := operandKinds(v, t)
	for _, k := range cmpKinds {
		if k == "Like" {
			for _, o := range ops[:4] {
				out = append(out, x2(k, o, &X{Kind: "Regex", Name: t + "r"}), x2(k, o, &X{Kind: "Pcre", Name: t + "p"}))
			}
			continue
		}
		for i, a := range ops {
			out = append(out, x2(k, a, ops[(i+1)%len(ops)]))
			out = append(out, x2(k, a, xF(v, "a")))
			if i < 3 {
				out = append(out, x2(k, xV(t+"l"), a), x2(k, a, xF(0, "a")))
			}
		}
	}
	for _, o := range ops[:4] {
		out = append(out, x1("Exists", o), x1("NotExists", o))
	}
	return append(out, xN("True"), xN("False"))
}

// passRules are rules with every kind below every kind.
func passRules() map[string][]*X {
	out := map[string][]*X{}
	add := func(k string, xs ...*X) { out[k] = append(out[k], xs...) }
	shapes := passShapes(0, "x")
	for _, s := range shapes {
		add("condition/"+s.Kind, s)
	}
	ops := operandKinds(0, "o")
	for i, a := range ops {
		for j, b := range ops {
			add("operands", x2(cmpKinds[(i+j)%6], a, b))
		}
	}
	some := func(v int64, t string) []*X {
		all := passShapes(v, t)
		seen := map[string]int{}
		var r []*X
		for _, s := range all {
			if seen[s.Kind]++; seen[s.Kind] <= 2 {
				r = append(r, s)
			}
		}
		return r
	}
	last := x2("Equals", xF(0, "last"), xV("last"))
	first := x2("Equals", xF(0, "a", "b"), xF(0, "first"))
	under := func(s *X) {
		add("not/"+s.Kind, x1("Not", s), x1("Not", x1("Not", s)))
		for _, k := range []string{"And", "Or"} {
			add(k+"/"+s.Kind, xN(k, s), xN(k, s, last), xN(k, first, s), xN(k, first, x1("Not", s), last), xN(k, xN("Or", s, first), xN("And", last, s)))
		}
	}
	for _, s := range some(0, "x") {
		under(s)
	}
	for _, lk := range loopKinds {
		l := func(v int64, in, sub *X) *X { return xL(lk, v, in, sub) }
		under(l(1, xF(0, "arr"), x1("Exists", xF(1, "a"))))
		for _, in := range []*X{xF(0, "arr"), xF(0, "o", "arr"), xF(0)} {
			for _, s := range some(1, "y") {
				add(lk+"/"+s.Kind, l(1, in, s), l(1, in, xN("And", s, first)), xN("And", l(1, in, s), last))
			}
		}
		add(lk+"/outer", l(1, xF(0, "arr"), x2("LessThan", xF(0, "lim"), xF(0, "arr"))), l(1, xF(0, "arr"), x2("LessThan", xF(1), xF(0, "arr"))))
		// the same variable name used again after its loop has ended
		add(lk+"/after", xN("And", l(1, xF(0, "arr"), x1("Exists", xF(1, "a"))), l(1, xF(0, "brr"), x1("Exists", xF(1, "a"))), x1("Exists", xF(0, "a"))))
		for _, lk2 := range loopKinds {
			for _, in2 := range []*X{xF(1, "in"), xF(1), xF(0, "arr2"), xF(0, "arr")} {
				i2 := func(s *X) *X { return l(1, xF(0, "arr"), xL(lk2, 2, in2, s)) }
				add(lk+"/"+lk2, i2(x2("LessThan", xF(2, "x"), xF(1, "y"))), i2(x2("LessThan", xF(0, "x"), xF(2))), i2(xN("False")),
					i2(xN("Or", x2("Equals", xF(1, "x"), xV("c")), x1("Exists", xF(0, "x")), x1("NotExists", xF(2, "x")))),
					l(1, xF(0, "arr"), xN("And", xL(lk2, 2, in2, x1("Exists", xF(2))), x2("Equals", xF(1, "y"), xF(0, "z")))))
			}
		}
		add(lk+"/deep", l(1, xF(0, "a"), l(2, xF(1, "b"), l(3, xF(2, "c"), x2("LessThan", xF(3, "d"), xFn("mathAdd", xF(1, "e"), xF(0, "f")))))))
	}
	add("many", xN("And", x1("Exists", xF(0, "f1")), x1("Exists", xF(0, "f2")), x2("LessThan", xF(0, "f3"), xF(0, "f4")), x1("Exists", xF(0, "f5", "f1")), x2("Equals", xF(0, "f6"), xF(0, "f7")), x1("Exists", xF(0, "f8")), x1("Exists", xF(0, "f9")), x1("Not", x1("Exists", xF(0, "f2"))), x2("Equals", xF(0, "f10"), xF(0, "f9"))))
	add("pattern", x2("Like", xF(0, "a"), xF(0, "b")), x2("Like", xF(0, "a"), xV("p")), x2("Like", xFn("mathAbs", xF(0, "a")), xFn("mathAbs", xF(0, "b"))))
	// parts of a rule, inside a loop that binds their variable
	add("open", x2("LessThan", xF(1, "a"), xF(0, "a")), x2("LessThan", xF(0, "a"), xF(1, "a")), xN("And", x1("Exists", xF(1, "a")), x1("Exists", xF(2, "a")), x1("Exists", xF(0, "a"))), x2("Equals", xF(1), xF(2)),
		xL("AnyIn", 2, xF(1, "in"), x2("Equals", xF(1, "x"), xF(2, "x"))), xL("EveryIn", 2, xF(1), x1("Exists", xF(2))), xL("AnyEveryIn", 1, xF(1, "in"), x1("Exists", xF(1, "x"))), xL("EveryIn", 1, xF(1, "in"), x1("Exists", xF(1, "x"))), xL("AnyIn", 1, xF(1, "in"), x1("Exists", xF(1, "x"))))
	// names that may or may not be the same
	add("names", x2("Equals", xF(0, "?a"), xF(0, "?b")), x2("Equals", xF(0, "?a", "?b"), xF(0, "?c", "?d")), xN("And", x1("Exists", xF(0, "?a")), x1("Exists", xF(0, "?b", "?a")), x1("Exists", xF(0, "?b"))),
		xL("AnyIn", 1, xF(0, "?a"), x2("Equals", xF(1, "?a"), xF(0, "?b"))))
	return out
}

// refFields are the fields of the document, or of variables bound outside, that a rule reads.
func refFields(x *X, bound []int64, out []*X) []*X {
	switch x.Kind {
	case "Field":
		for _, b := range bound {
			if b == x.Root {
				return out
			}
		}
		return append(out, x)
	case "AnyIn", "EveryIn", "AnyEveryIn":
		out = refFields(x.Kids[0], bound, out)
		return refFields(x.Kids[1], append(append([]int64{}, bound...), x.Root), out)
	}
	for _, k := range x.Kids {
		out = refFields(k, bound, out)
	}
	return out
}

type refStats struct{ loops, depth, ands, ors, fields, values, consts, others int64 }

func (r *refStats) scan(x *X, d int64) {
	if d > r.depth {
		r.depth = d
	}
	switch x.Kind {
	case "And":
		r.ands++
	case "Or":
		r.ors++
	case "Field":
		r.fields++
	case "Value":
		r.values++
	case "True", "False", "Time", "Regex", "Pcre":
		r.others++
	case "AnyIn", "EveryIn", "AnyEveryIn":
		r.loops++
		r.scan(x.Kids[0], d)
		r.scan(x.Kids[1], d+1)
		return
	}
	for _, k := range x.Kids {
		r.scan(k, d)
	}
}

// nested counts the loops inside other loops, and tells whether any is more than one level inside.
func nested(x *X, d int64) (n int64, deep bool) {
	switch x.Kind {
	case "AnyIn", "EveryIn", "AnyEveryIn":
		if d > 0 {
			n++
		}
		deep = d > 1
		d++
	}
	for _, k := range x.Kids {
		kn, kd := nested(k, d)
		n += kn
		deep = deep || kd
	}
	return n, deep
}

// fieldKey names a field under the facts of a path.
func fieldKey(st *State, names []string, x *X) string {
	d := &compiled{st: st, names: names}
	return fmt.Sprintf("$%d:%s", x.Root, d.cpath(x.Path))
}

func c12(c *Check) {
	c.Cov["rule"] = "field collection returns exactly the fields not bound by a loop of the rule, each once; statistics count what is there; compaction and compilation take every kind in every position"
	rules := passRules()
	var keys []string
	for k := range rules {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	n := 0
	fieldT := c.lookupType("FieldExpr")
	run := func(name string, arg func(m *exprs, st *State, v *V) []*V, judge func(m *exprs, key string, x *X, f *Final)) {
		fn := c.fn(name)
		e := c.Engine()
		m := newExprs(c, e)
		e.NoWiden = true
		e.MaxRec = 16
		e.Pin = func(v *V) bool { return v.Op == "sym" && strings.HasPrefix(v.Aux, "?") }
		for _, k := range keys {
			for _, x := range rules[k] {
				st := e.NewState()
				m.n = 0
				v := m.build(st, x)
				n++
				for _, f := range e.Call(fn, st, arg(m, st, v)) {
					key := name + "/" + k
					if f.Panic {
						c.Bad(key, e.Pos(InstrPos(f.Instr)), "every kind of expression is handled", fmt.Sprintf("%s on %s: %s", name, x, f.What), e.TraceLines(f.St, 12))
						continue
					}
					judge(m, key, x, f)
				}
			}
		}
		c.takeUndec(e)
	}
	// the fields a rule reads
	run("fetchExprFieldRefs", func(m *exprs, st *State, v *V) []*V { return []*V{v} }, func(m *exprs, key string, x *X, f *Final) {
		names := symNames([]*X{x})
		want := map[string]bool{}
		for _, r := range refFields(x, nil, nil) {
			want[fieldKey(f.St, names, r)] = true
		}
		l, ok := m.list(f.St, f.Ret, fieldT)
		got := map[string]bool{}
		twice := ""
		for _, v := range l {
			r, isInt := c.fieldOf(v, fieldT, "Root").Int()
			p, ok2 := m.strList(f.St, c.fieldOf(v, fieldT, "Path"))
			ok = ok && isInt && ok2
			k := fieldKey(f.St, names, &X{Root: r, Path: p})
			if got[k] {
				twice = k
			}
			got[k] = true
		}
		if !ok {
			c.Undec("%s: %s: the list of fields is not known", key, x)
			return
		}
		miss, extra := diff(want, got), diff(got, want)
		w := m.e.Pos(InstrPos(f.Instr))
		switch {
		case len(miss) > 0:
			c.Bad(key, w, "every field a rule reads is collected", fmt.Sprintf("%s: %s missing (fields of an enclosing loop or of the document)", x, strings.Join(miss, ", ")), m.e.TraceLines(f.St, 12))
		case len(extra) > 0:
			c.Bad(key, w, "only fields from outside the rule are collected", fmt.Sprintf("%s: %s does not belong", x, strings.Join(extra, ", ")), m.e.TraceLines(f.St, 12))
		case twice != "":
			c.Bad(key, w, "each field is collected once", fmt.Sprintf("%s: %s twice", x, twice), m.e.TraceLines(f.St, 12))
		default:
			c.Ok("%s: fields of %s", key, x)
		}
	})
	// statistics
	statT := c.lookupType("ExpressionStats")
	var sp *V
	run("ExpressionStats.Scan", func(m *exprs, st *State, v *V) []*V {
		sp = m.e.NewObj(st, "stats", statT, ZeroVal(statT))
		return []*V{sp, v}
	}, func(m *exprs, key string, x *X, f *Final) {
		var r refStats
		r.scan(x, 0)
		sv := m.e.Load(f.St, sp, statT)
		w := m.e.Pos(InstrPos(f.Instr))
		if !f.Ret.IsNil() {
			c.Bad(key, w, "a rule can be counted", fmt.Sprintf("%s: an error is returned", x), nil)
		}
		chk := func(field string, lo, hi int64) {
			g := c.fieldOf(sv, statT, field)
			k, ok := g.Int()
			if !ok {
				c.Undec("%s: %s: %s is not known", key, x, field)
			} else {
				c.Expect(k >= lo && k <= hi, key+"/"+field, w, field+" counts what the rule has", fmt.Sprintf("%s: %d, not %d", x, k, lo), nil)
			}
		}
		chk("NumLoops", r.loops, r.loops)
		chk("MaxLoopDepth", r.depth, r.depth)
		chk("NumAnds", r.ands, r.ands)
		chk("NumOrs", r.ors, r.ors)
		chk("NumFields", r.fields, r.fields)
		chk("NumValues", r.values, r.values+r.others)
		if nn, deep := nested(x, 0); !deep {
			chk("NumNestedLoops", nn, nn)
		}
	})
	// compaction: judged in C13; here, that no kind is refused
	run("CompactExpression", func(m *exprs, st *State, v *V) []*V { return []*V{v} }, func(m *exprs, key string, x *X, f *Final) {
		if y := m.read(f.St, f.Ret); y == nil {
			c.Undec("%s: %s: the result is not known", key, x)
		} else {
			c.Ok("%s: %s", key, x)
		}
	})
	// compilation
	m := newCompile(c)
	for _, k := range keys {
		rs := rules[k]
		for i, x := range rs {
			if k == "open" || k == "pattern" {
				continue
			}
			if (strings.HasPrefix(k, "operands") || len(rs) > 40) && i%4 != 0 || !compilable(x) {
				continue
			}
			n++
			m.judgeCompile("compile/"+k, []*X{x})
		}
	}
	c.Cov["rules walked"] = n
	c.Assume = append(c.Assume, "rules beyond the enumerated shapes are walked by the same per-kind code")
}

// compilable: loops do not bind a variable twice in one rule (C20 covers what compilation does otherwise)
func compilable(x *X) bool {
	seen := map[int64]bool{}
	ok := true
	var rec func(x *X)
	rec = func(x *X) {
		switch x.Kind {
		case "AnyIn", "EveryIn", "AnyEveryIn":
			if seen[x.Root] {
				ok = false
			}
			seen[x.Root] = true
		}
		for _, k := range x.Kids {
			rec(k)
		}
	}
	rec(x)
	return ok
}

func diff(a, b map[string]bool) []string {
	var out []string
	for k := range a {
		if !b[k] {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// ---- C13 ----

// truth is the truth function of a rule over its atoms (bit i of the
// assignment is the verdict of atom i).
type atoms struct{ ids []string }

func (a *atoms) id(s string) uint {
	for i, o := range a.ids {
		if o == s {
			return uint(i)
		}
	}
	a.ids = append(a.ids, s)
	return uint(len(a.ids) - 1)
}

// collect numbers the atoms of a rule.
func (a *atoms) collect(x *X) {
	switch x.Kind {
	case "And", "Or", "Not":
		for _, k := range x.Kids {
			a.collect(k)
		}
	case "True", "False":
	case "AnyIn", "EveryIn", "AnyEveryIn":
		if s := loopAtom(x); s != "" {
			a.id(s)
		}
	default:
		a.id(x.String())
	}
}

func (a *atoms) eval(x *X, as uint) bool {
	switch x.Kind {
	case "And":
		for _, k := range x.Kids {
			if !a.eval(k, as) {
				return false
			}
		}
		return true
	case "Or":
		for _, k := range x.Kids {
			if a.eval(k, as) {
				return true
			}
		}
		return false
	case "Not":
		return !a.eval(x.Kids[0], as)
	case "True":
		return true
	case "False":
		return false
	case "AnyIn", "EveryIn", "AnyEveryIn":
		s := loopAtom(x)
		return s != "" && as>>a.id(s)&1 != 0
	}
	return as>>a.id(x.String())&1 != 0
}

// table is the rule's truth function in a form independent of how it is written.
func table(x *X) string {
	a := &atoms{}
	a.collect(x)
	sort.Strings(a.ids)
	n := len(a.ids)
	if n > 10 {
		return x.String()
	}
	// drop the atoms the function does not depend on
	val := make([]bool, 1<<n)
	for i := range val {
		val[i] = a.eval(x, uint(i))
	}
	var dep []int
	for b := 0; b < n; b++ {
		for i := range val {
			if val[i] != val[i^1<<b] {
				dep = append(dep, b)
				break
			}
		}
	}
	var sb strings.Builder
	for _, b := range dep {
		sb.WriteString(a.ids[b] + ";")
	}
	for j := 0; j < 1<<len(dep); j++ {
		i := 0
		for q, b := range dep {
			i |= j >> q & 1 << b
		}
		if val[i] {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return sb.String()
}

// loopAtom names a loop by what it asks; "" when it can never be true.
func loopAtom(x *X) string {
	body := table(x.Kids[1])
	if body == "0" && x.Kind != "EveryIn" {
		return ""
	}
	return fmt.Sprintf("%s $%d in %s: %s", x.Kind, x.Root, x.Kids[0], body)
}

func foldRules() []*X {
	T, F := xN("True"), xN("False")
	p, q := x2("Equals", xF(0, "p"), xV("1")), x1("Exists", xF(0, "q"))
	r := x2("LessThan", xF(0, "r"), xF(0, "s"))
	loops := func(body *X) []*X {
		var l []*X
		for _, k := range loopKinds {
			l = append(l, xL(k, 1, xF(0, "arr"), body))
		}
		return l
	}
	e := x2("GreaterThan", xF(1, "x"), xV("2"))
	base := []*X{T, F, p, q, x1("Not", p), x1("Not", T), x1("Not", F), x1("NotExists", xF(0, "n"))}
	base = append(base, loops(T)...)
	base = append(base, loops(F)...)
	base = append(base, loops(e)...)
	out := append([]*X{}, base...)
	two := func(k string, l, m []*X) (o []*X) {
		for _, a := range l {
			for _, b := range m {
				o = append(o, xN(k, a, b))
			}
		}
		return
	}
	small := []*X{T, F, p, q}
	inner := append(append(append([]*X{xN("And"), xN("Or"), xN("And", T), xN("Or", F), xN("And", F), xN("Or", T), xN("And", p), xN("Or", p)}, two("And", small, small[:3])...), two("Or", small, small[:3])...), xN("And", p, T, q), xN("Or", p, F, q))
	out = append(out, inner...)
	for _, k := range []string{"And", "Or"} {
		out = append(out, xN(k), xN(k, T), xN(k, F))
		out = append(out, two(k, base, base)...)
		out = append(out, two(k, inner, small)...)
		out = append(out, two(k, small, inner)...)
		for _, a := range small {
			for _, b := range small {
				for _, d := range []*X{T, F, r} {
					out = append(out, xN(k, a, b, d))
				}
			}
		}
		// what follows a constant, and what precedes it, in longer lists
		for i := 0; i < 5; i++ {
			for _, kk := range []*X{T, F} {
				l := []*X{p, q, r, x1("Exists", xF(0, "u")), x1("Exists", xF(0, "v"))}
				l[i] = kk
				out = append(out, xN(k, l...))
				l2 := append([]*X{}, l...)
				l2[(i+2)%5] = T
				out = append(out, xN(k, l2...))
			}
		}
	}
	for _, x := range inner {
		out = append(out, x1("Not", x))
		out = append(out, loops(x)...)
	}
	for _, l := range loops(F) {
		out = append(out, loops(l)...)
		out = append(out, x1("Not", l), xN("Or", xN("And", l, p), q), xN("And", xN("Or", l, F), T))
	}
	for _, l := range passShapes(0, "k") {
		out = append(out, l, xN("And", l, T), xN("Or", F, l))
	}
	return out
}

func c13(c *Check) {
	c.Cov["rule"] = "the compacted rule is the same truth function of the same conditions; a conjunction or disjunction that is left has no constant in it"
	fn := c.fn("CompactExpression")
	e := c.Engine()
	m := newExprs(c, e)
	e.NoWiden = true
	e.MaxRec = 16
	n := 0
	for _, x := range foldRules() {
		st := e.NewState()
		m.n = 0
		v := m.build(st, x)
		n++
		for _, f := range e.Call(fn, st, []*V{v}) {
			key := "fold/" + x.Kind
			w := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				c.Bad(key, w, "every rule can be compacted", fmt.Sprintf("%s: %s", x, f.What), e.TraceLines(f.St, 12))
				continue
			}
			y := m.read(f.St, f.Ret)
			if y == nil {
				c.Undec("%s: the compacted form is not known", x)
				continue
			}
			c.Expect(table(x) == table(y), key, w, "compaction keeps the meaning of the rule", fmt.Sprintf("%s becomes %s", x, y), e.TraceLines(f.St, 12))
			c.Expect(clean(y), key, w, "no constant is left in a conjunction or disjunction", fmt.Sprintf("%s becomes %s", x, y), e.TraceLines(f.St, 12))
			// the caller's rule is as it was
			if z := m.read(f.St, v); z == nil {
				c.Undec("%s: the rule afterwards is not known", x)
			} else {
				c.Expect(z.String() == x.String(), key, w, "compaction leaves the rule it was given alone", fmt.Sprintf("%s has become %s", x, z), e.TraceLines(f.St, 12))
			}
		}
	}
	c.takeUndec(e)
	c.Cov["rules compacted"] = n
	c.Assume = append(c.Assume, "conditions are told apart by their text; two different conditions are taken to be independent")
}

// clean: no constants directly inside the conjunctions and disjunctions at the top of a rule.
func clean(x *X) bool {
	if x.Kind != "And" && x.Kind != "Or" {
		return true
	}
	for _, k := range x.Kids {
		if k.Kind == "True" || k.Kind == "False" || !clean(k) {
			return false
		}
	}
	return len(x.Kids) > 0
}
