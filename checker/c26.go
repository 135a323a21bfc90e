package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	. "verifcheck/absint"
)

// C26: the reference matcher.
//
// NewSlowMatcher, Match, ExpressionMatched and Reset are interpreted from end
// to end on rules of every supported kind and documents whose strings and
// numbers are symbols; on each path the answers are compared with a direct
// evaluation of the rule under what the path assumes about the symbols.

func init() { checks["C26"] = c26 }

// rval is a value of a document or a rule.
type rval struct {
	kind string // string, number, true, false, null, object, array
	name string
	keys map[string]*rval
	els  []*rval
}

// roper is an operand: a value, or a field of a variable.
type roper struct {
	val  *rval
	root int64
	path []string
}

// rrule is a rule.
type rrule struct {
	kind string // and, or, any, true, false, or the name of a comparison
	sub  []*rrule
	l, r roper
	id   int64
}

// what may come out of a rule.
const (
	rT = 1 << iota
	rF
	rE
)

type slow struct {
	heap
	strT, numT, boolT, anyT, mapT, arrT types.Type
	n                                   int
}

func (m *slow) value(st *State, v *rval, doc string) *V {
	m.n++
	switch v.kind {
	case "string":
		return Iface(m.strT, Sym(v.name+doc, m.strT))
	case "number":
		return Iface(m.numT, Sym(v.name+doc, m.numT))
	case "true", "false":
		return Iface(m.boolT, CBool(v.kind == "true"))
	case "object":
		k := T("alloc", fmt.Sprintf("object%d", m.n), m.mapT)
		args := []*V{Nil}
		var keys []string
		for s := range v.keys {
			keys = append(keys, s)
		}
		sort.Strings(keys)
		for _, s := range keys {
			args = append(args, CStr(s), m.value(st, v.keys[s], doc))
		}
		st.Heap[k] = T("mapv", "", nil, args...)
		return Iface(m.mapT, T("map", "", nil, k))
	case "array":
		var els []*V
		for _, x := range v.els {
			els = append(els, m.value(st, x, doc))
		}
		m.n++
		return Iface(m.arrT, m.e.NewSlice(st, fmt.Sprintf("array%d", m.n), m.anyT, els))
	}
	return Nil
}

func (m *slow) oper(st *State, o roper) *V {
	c := m.c
	if o.val != nil {
		t := c.lookupType("ValueExpr")
		return Iface(t, c.withField(ZeroVal(t), t, "Value", m.value(st, o.val, "")))
	}
	t := c.lookupType("FieldExpr")
	var ps []*V
	for _, s := range o.path {
		ps = append(ps, CStr(s))
	}
	v := c.withField(ZeroVal(t), t, "Root", CInt(o.root))
	if len(ps) > 0 {
		m.n++
		v = c.withField(v, t, "Path", m.e.NewSlice(st, fmt.Sprintf("path%d", m.n), m.strT, ps))
	}
	return Iface(t, v)
}

func (m *slow) rule(st *State, r *rrule) *V {
	c := m.c
	exT := c.lookupType("Expression")
	switch r.kind {
	case "and", "or":
		t := c.lookupType(map[string]string{"and": "AndExpr", "or": "OrExpr"}[r.kind])
		if len(r.sub) == 0 {
			return Iface(t, ZeroVal(t))
		}
		var xs []*V
		for _, s := range r.sub {
			xs = append(xs, m.rule(st, s))
		}
		m.n++
		return Iface(t, m.e.NewSlice(st, fmt.Sprintf("operands%d", m.n), exT, xs))
	case "any":
		t := c.lookupType("AnyInExpr")
		v := c.withField(ZeroVal(t), t, "VarId", CInt(r.id))
		v = c.withField(v, t, "InExpr", m.oper(st, r.l))
		return Iface(t, c.withField(v, t, "SubExpr", m.rule(st, r.sub[0])))
	case "true", "false":
		t := c.lookupType(map[string]string{"true": "TrueExpr", "false": "FalseExpr"}[r.kind])
		return Iface(t, ZeroVal(t))
	}
	t := c.lookupType(r.kind)
	v := c.withField(ZeroVal(t), t, "Lhs", m.oper(st, r.l))
	return Iface(t, c.withField(v, t, "Rhs", m.oper(st, r.r)))
}

var slowOps = []string{"EqualsExpr", "NotEqualsExpr", "LessThanExpr", "LessEqualsExpr", "GreaterThanExpr", "GreaterEqualsExpr"}

// slowHolds tells whether an order satisfies a comparison.
func slowHolds(op string, sign int) bool {
	switch op {
	case "EqualsExpr":
		return sign == 0
	case "NotEqualsExpr":
		return sign != 0
	case "LessThanExpr":
		return sign < 0
	case "LessEqualsExpr":
		return sign <= 0
	case "GreaterThanExpr":
		return sign > 0
	}
	return sign >= 0
}

func (o roper) String() string {
	if o.val != nil {
		return o.val.String()
	}
	s := fmt.Sprintf("$%d", o.root)
	for _, p := range o.path {
		s += "." + p
	}
	return s
}

func (v *rval) String() string {
	switch v.kind {
	case "string", "number":
		return v.kind + " " + v.name
	case "array":
		return fmt.Sprint(v.els)
	case "object":
		return fmt.Sprint(v.keys)
	}
	return v.kind
}

func (r *rrule) String() string {
	switch r.kind {
	case "and", "or":
		return fmt.Sprintf("%s%v", r.kind, r.sub)
	case "any":
		return fmt.Sprintf("any $%d in %s: %s", r.id, r.l, r.sub[0])
	case "true", "false":
		return r.kind
	}
	return fmt.Sprintf("%s(%s, %s)", r.kind, r.l, r.r)
}

func resolve(o roper, env map[int64]*rval) *rval {
	if o.val != nil {
		return o.val
	}
	v := env[o.root]
	for _, p := range o.path {
		if v.kind != "object" {
			return nil
		}
		if v = v.keys[p]; v == nil {
			v = &rval{kind: "null"}
		}
	}
	return v
}

// eval says what the rule may come to where the path's assumptions hold.
func (m *slow) eval(st *State, r *rrule, env map[int64]*rval, doc string, vars map[*rval]bool) int {
	seq := func(xs []int, stop int) int {
		out, open := 0, true
		for _, x := range xs {
			out |= x & (stop | rE)
			if x&(rT|rF)&^stop == 0 {
				open = false
				break
			}
		}
		if open {
			out |= (rT | rF) &^ stop
		}
		return out
	}
	switch r.kind {
	case "true":
		return rT
	case "false":
		return rF
	case "and", "or":
		if len(r.sub) == 0 {
			return rF
		}
		var xs []int
		for _, s := range r.sub {
			xs = append(xs, m.eval(st, s, env, doc, vars))
		}
		if r.kind == "and" {
			return seq(xs, rF)
		}
		return seq(xs, rT)
	case "any":
		v := resolve(r.l, env)
		if v == nil || v.kind != "array" && v.kind != "object" {
			return rE // nothing to look through
		}
		var xs []int
		els := v.els
		for _, x := range v.keys {
			els = append(els, x)
		}
		for _, x := range els {
			in := map[int64]*rval{r.id: x}
			for k, v := range env {
				if k != r.id {
					in[k] = v
				}
			}
			xs = append(xs, m.eval(st, r.sub[0], in, doc, vars))
		}
		return seq(xs, rT)
	}
	a, b := resolve(r.l, env), resolve(r.r, env)
	if a == nil || b == nil {
		return rE
	}
	ans := func(sign int) int {
		if slowHolds(r.kind, sign) {
			return rT
		}
		return rF
	}
	truth := func(v *rval) bool { return v.kind == "true" || v.kind == "false" }
	switch {
	case a.kind == "null" && b.kind == "null":
		return ans(0)
	case a.kind == "null":
		return ans(-1)
	case truth(a) && truth(b):
		switch {
		case a.kind == b.kind:
			return ans(0)
		case a.kind == "true":
			return ans(1)
		}
		return ans(-1)
	case a.kind == b.kind && (a.kind == "string" || a.kind == "number"):
		t := m.strT
		if a.kind == "number" {
			t = m.numT
		}
		sym := func(v *rval) *V {
			if vars[v] {
				return Sym(v.name+doc, t)
			}
			return Sym(v.name, t)
		}
		x, y := sym(a), sym(b)
		signs := map[int]bool{-1: true, 0: true, 1: true}
		for _, op := range []token.Token{token.LSS, token.LEQ, token.EQL, token.NEQ, token.GTR, token.GEQ} {
			for k, cond := range []*V{Cmp(op, x, y, t), Cmp(op, y, x, t), Cmp(op, T("strcmp", "", nil, x, y), Zero, intT()), Cmp(op, T("strcmp", "", nil, y, x), Zero, intT())} {
				v := st.Facts.Eval(cond)
				for sign := -1; v != 0 && sign <= 1; sign++ {
					s := sign
					if k&1 != 0 {
						s = -s
					}
					sat := map[token.Token]bool{token.LSS: s < 0, token.LEQ: s <= 0, token.EQL: s == 0, token.NEQ: s != 0, token.GTR: s > 0, token.GEQ: s >= 0}[op]
					if sat != (v > 0) {
						delete(signs, sign)
					}
				}
			}
		}
		out := 0
		for sign := range signs {
			out |= ans(sign)
		}
		return out
	}
	return rE
}

// tagged collects the values that belong to the document.
func (v *rval) tagged(m map[*rval]bool) {
	m[v] = true
	for _, x := range v.keys {
		x.tagged(m)
	}
	for _, x := range v.els {
		x.tagged(m)
	}
}

func setName(s int) string {
	out := ""
	for b, n := range map[int]string{rT: "true", rF: "false", rE: "an error"} {
		if s&b != 0 {
			if out != "" {
				out += " or "
			}
			out += n
		}
	}
	return out
}

// slowRun matches documents one after the other.
func (c *Check) slowRun(key string, rules []*rrule, docs []*rval, reset bool, status bool) {
	e := c.Engine()
	m := &slow{heap: heap{c: c, e: e}, strT: types.Typ[types.String], numT: types.Typ[types.Float64], boolT: types.Typ[types.Bool]}
	m.anyT = anyT()
	m.mapT = types.NewMap(m.strT, m.anyT)
	m.arrT = types.NewSlice(m.anyT)
	e.NoWiden, e.MaxRec, e.MaxUnroll = true, 8, 20
	e.Pin = func(*V) bool { return true }
	const ruleName = "a rule is judged as its definition says"
	doc := ""
	var cur *rval
	e.Hooks["encoding/json.Unmarshal"] = func(x *CallCtx, s *State) ([]Out, bool) {
		p := x.Args[1]
		if p.Op == "iface" {
			p = p.Args[0]
		}
		er := s.Clone()
		sg(er, "bad", "y")
		e.Store(s, p, m.anyT, m.value(s, cur, doc))
		return []Out{{s, Nil}, {er, Iface(types.Typ[types.Int], Sym("json error", types.Typ[types.Int]))}}, true
	}
	what := fmt.Sprint(rules)
	faulty := false
	e.OnFault = func(f Fault) {
		if f.Must {
			faulty = true
			c.Bad(key, e.Pos(InstrPos(f.Instr)), "the reference matcher does not crash", what+": "+f.Kind+": "+f.What, e.TraceLines(f.St, 20))
		} else {
			c.Undec("%s: cannot exclude %s: %s", what, f.Kind, f.What)
		}
	}
	st := e.NewState()
	var xs []*V
	for _, r := range rules {
		xs = append(xs, m.rule(st, r))
	}
	st.Ghost["rules"] = e.NewSlice(st, "rules", c.lookupType("Expression"), xs)
	mk, match, told := c.fn("NewSlowMatcher"), c.fn("SlowMatcher.Match"), c.fn("SlowMatcher.ExpressionMatched")
	if status {
		match = c.fn("SlowMatcher.MatchWithStatus")
	}
	panicked := func(f *Final) bool {
		if f.Panic {
			faulty = true
			c.Bad(key, e.Pos(InstrPos(f.Instr)), "the reference matcher does not crash", fmt.Sprintf("%s on %v: %s", what, cur, f.What), e.TraceLines(f.St, 20))
		}
		return f.Panic
	}
	var states []*State
	for _, f := range e.Call(mk, st, []*V{st.Ghost["rules"]}) {
		if !panicked(f) {
			f.St.Ghost["matcher"] = f.Ret
			states = append(states, f.St)
		}
	}
	n := 0
	for di, d := range docs {
		cur, doc = d, ""
		if len(docs) > 1 {
			doc = fmt.Sprintf(" of document %d", di)
		}
		vars := map[*rval]bool{}
		d.tagged(vars)
		var next []*State
		for _, s := range states {
			delete(s.Ghost, "bad")
			for _, f := range e.Call(match, s, []*V{s.Ghost["matcher"], Sym("data", types.NewSlice(types.Typ[types.Uint8]))}) {
				if panicked(f) {
					continue
				}
				w := e.Pos(InstrPos(f.Instr))
				res, ev := TupleAt(f.Ret, 0), TupleAt(f.Ret, len(f.Ret.Args)-1)
				failed := errKind(f.St, ev)
				if failed == 0 {
					c.Undec("%s: error or not? %s", what, ev)
					continue
				}
				if failed < 0 {
					// an error comes without a verdict, and is forgotten by the next document
					c.Expect(f.St.Facts.Eval(res) < 0, key, w, "an error comes without a verdict", fmt.Sprintf("%s on %v: %s beside an error", what, d, res), e.TraceLines(f.St, 20))
					if di+1 < len(docs) {
						next = append(next, f.St.Clone())
					}
				}
				if g(f.St, "bad") != "" {
					c.Expect(failed < 0, key, w, "a malformed document is an error", what+": the error of reading the document is dropped", e.TraceLines(f.St, 20))
					continue
				}
				if status {
					if mc := constVal(c.P, "MatcherNoStatus"); mc != nil {
						c.Expect(c.eqv(f.St, TupleAt(f.Ret, 1), mc), key, w, "no comparison is collated", "status "+TupleAt(f.Ret, 1).String(), nil)
					}
				}
				// what each rule may come to, in order, up to the first error
				env := map[int64]*rval{0: d}
				sets := make([]int, len(rules))
				may := rT | rF
				for i, r := range rules {
					sets[i] = m.eval(f.St, r, env, doc, vars)
				}
				for i := range rules {
					if sets[i]&rE == 0 {
						continue
					}
					if sets[i] == rE {
						may = rE
					} else {
						may |= rE
					}
					break
				}
				if failed < 0 {
					n++
					c.Expect(may&rE != 0, key, w, ruleName, fmt.Sprintf("%s on %v: an error without cause", what, d), e.TraceLines(f.St, 20))
					continue
				}
				if may == rE {
					n++
					c.Bad(key, w, "what cannot be judged is an error", fmt.Sprintf("%s on %v: is answered", what, d), e.TraceLines(f.St, 20))
					continue
				}
				y, no := split(f.St, res)
				for v, s := range map[bool]*State{true: y, false: no} {
					if s == nil {
						continue
					}
					n++
					want := 0
					can, must := true, true
					for _, r := range rules {
						x := m.eval(s, r, env, doc, vars)
						can = can && x&rT != 0
						must = must && x == rT
					}
					if can && len(rules) > 0 {
						want |= rT
					}
					if !must || len(rules) == 0 {
						want |= rF
					}
					got := map[bool]int{true: rT, false: rF}[v]
					if want != got {
						c.Bad(key, w, ruleName, fmt.Sprintf("%s on %v: answers %v, should be %s", what, d, v, setName(want)), e.TraceLines(s, 20))
						continue
					}
					c.Ok("%s: %s", key, ruleName)
					// each rule's own verdict
					for i, r := range rules {
						for _, t := range e.Call(told, s.Clone(), []*V{s.Ghost["matcher"], CInt(int64(i))}) {
							if panicked(t) {
								continue
							}
							ty, tn := split(t.St, t.Ret)
							for tv, ts := range map[bool]*State{true: ty, false: tn} {
								if ts == nil {
									continue
								}
								x := m.eval(ts, r, env, doc, vars)
								g := map[bool]int{true: rT, false: rF}[tv]
								c.Expect(x == g, key, e.Pos(InstrPos(t.Instr)), "every rule's own verdict is told", fmt.Sprintf("%s on %v: says %v of rule %d, should be %s", what, d, tv, i, setName(x)), nil)
							}
						}
					}
					if di+1 < len(docs) {
						s = s.Clone()
						if !reset {
							next = append(next, s)
							continue
						}
						for _, q := range e.Call(c.fn("SlowMatcher.Reset"), s, []*V{s.Ghost["matcher"]}) {
							if panicked(q) {
								continue
							}
							next = append(next, q.St)
							for i := range rules {
								for _, t := range e.Call(told, q.St.Clone(), []*V{s.Ghost["matcher"], CInt(int64(i))}) {
									if !panicked(t) {
										c.decide(t.St.Facts.Eval(t.Ret) < 0, t.St.Facts.Eval(t.Ret) > 0, key, e.Pos(InstrPos(t.Instr)), "after Reset no rule has matched", what+": "+t.Ret.String(), nil)
									}
								}
							}
						}
					}
				}
			}
		}
		states = next
	}
	if n == 0 && !faulty {
		c.Undec("%s: no answer", what)
	}
	c.takeUndec(e)
}

func c26(c *Check) {
	c.Cov["rule"] = "NewSlowMatcher, Match, MatchWithStatus, ExpressionMatched and Reset interpreted on rules of every supported kind over symbolic documents; the answer on each path is that of a direct evaluation under the path's assumptions"
	str := func(n string) *rval { return &rval{kind: "string", name: n} }
	num := func(n string) *rval { return &rval{kind: "number", name: n} }
	lit := func(k string) *rval { return &rval{kind: k} }
	obj := func(kv ...interface{}) *rval {
		o := &rval{kind: "object", keys: map[string]*rval{}}
		for i := 0; i < len(kv); i += 2 {
			o.keys[kv[i].(string)] = kv[i+1].(*rval)
		}
		return o
	}
	arr := func(xs ...*rval) *rval { return &rval{kind: "array", els: xs} }
	val := func(v *rval) roper { return roper{val: v} }
	fld := func(root int64, path ...string) roper { return roper{root: root, path: path} }
	cmp := func(op string, l, r roper) *rrule { return &rrule{kind: op, l: l, r: r} }
	eq := func(l, r roper) *rrule { return cmp("EqualsExpr", l, r) }
	kinds := func(n string) []*rval {
		return []*rval{str("s" + n), num("x" + n), lit("true"), lit("false"), lit("null"), obj("k", str("k"+n)), arr(str("e" + n))}
	}
	// comparisons: every pair of kinds, on either side, two fields
	for _, op := range slowOps {
		for _, v := range kinds("0") {
			for _, w := range kinds("1")[:5] {
				c.slowRun(op, []*rrule{cmp(op, fld(0, "a"), val(w))}, []*rval{obj("a", v, "b", num("other"))}, false, false)
				c.slowRun(op, []*rrule{cmp(op, val(w), fld(0, "a"))}, []*rval{obj("a", v, "b", num("other"))}, false, false)
			}
		}
		c.slowRun(op, []*rrule{cmp(op, fld(0, "a"), fld(0, "b"))}, []*rval{obj("a", str("s"), "b", str("t"))}, false, true)
		c.slowRun(op, []*rrule{cmp(op, fld(0, "a"), fld(0, "b"))}, []*rval{obj("a", num("x"), "b", num("y"))}, false, true)
	}
	// paths
	d := obj("a", obj("b", obj("c", str("abc"), "b", str("abb")), "c", str("ac"), "a", str("aa")), "b", str("b"), "c", str("c"), "n", lit("null"), "l", arr(str("l0")))
	for _, p := range [][]string{{}, {"a"}, {"b"}, {"c"}, {"d"}, {"a", "c"}, {"a", "a"}, {"a", "d"}, {"a", "b", "c"}, {"a", "b", "b"}, {"a", "b"}, {"b", "c"}, {"n", "x"}, {"d", "x"}, {"l", "0"}, {"a", "d", "x"}} {
		for _, r := range []roper{val(str("w")), val(lit("null"))} {
			c.slowRun("FieldExpr", []*rrule{eq(fld(0, p...), r)}, []*rval{d}, false, false)
			c.slowRun("FieldExpr", []*rrule{eq(r, fld(0, p...))}, []*rval{d}, false, false)
		}
	}
	c.slowRun("FieldExpr", []*rrule{eq(fld(0), val(str("w")))}, []*rval{str("whole")}, false, false)
	// and, or
	flat := obj("a", str("sa"), "b", str("sb"), "c", str("sc"), "x", num("x"))
	at := func(k string) *rrule { return eq(fld(0, k), val(str("w"+k))) }
	bad := eq(fld(0, "x"), val(str("wx")))
	for _, k := range []string{"and", "or"} {
		o := map[string]string{"and": "or", "or": "and"}[k]
		J := func(k string, s ...*rrule) *rrule { return &rrule{kind: k, sub: s} }
		for _, s := range [][]*rrule{{}, {at("a")}, {at("a"), at("b")}, {at("a"), at("b"), at("c")}, {bad}, {at("a"), bad}, {bad, at("a")}, {at("a"), bad, at("b")},
			{J(o, at("a"), at("b")), at("c")}, {at("c"), J(o, at("a"), at("b"))}, {J(k, at("a"), at("b")), at("c")}, {J(o), at("a")}, {at("a"), J(k)}, {J(o, at("a"), bad), at("b")}} {
			c.slowRun(k, []*rrule{J(k, s...)}, []*rval{flat}, false, false)
		}
	}
	// any-in
	any := func(id int64, in roper, s *rrule) *rrule { return &rrule{kind: "any", id: id, l: in, sub: []*rrule{s}} }
	w := val(str("w"))
	for _, xs := range [][]*rval{{}, {str("e0")}, {str("e0"), str("e1")}, {str("e0"), str("e1"), str("e2")}, {num("x")}, {str("e0"), num("x")}, {lit("null"), str("e0")}} {
		c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), eq(fld(1), w))}, []*rval{obj("l", arr(xs...), "m", arr(str("other")))}, false, false)
	}
	for _, xs := range [][]interface{}{{}, {"p", str("e0")}, {"p", str("e0"), "q", str("e1")}} {
		c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), eq(fld(1), w))}, []*rval{obj("l", obj(xs...))}, false, false)
	}
	for _, v := range []*rval{str("s"), num("x"), lit("true"), lit("null")} {
		c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), eq(fld(1), w))}, []*rval{obj("l", v)}, false, false)
	}
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), eq(fld(1), w))}, []*rval{obj("k", str("s"))}, false, false)
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l", "m"), eq(fld(1), w))}, []*rval{obj("l", str("s"))}, false, false)
	el := func(n string) *rval { return obj("k", str("k"+n), "v", str("v"+n)) }
	two := obj("l", arr(el("0"), el("1")), "z", str("z"))
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), &rrule{kind: "and", sub: []*rrule{eq(fld(1, "k"), w), eq(fld(0, "z"), val(str("u")))}})}, []*rval{two}, false, false)
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), eq(fld(1, "k"), fld(1, "v")))}, []*rval{two}, false, false)
	nest := obj("l", arr(obj("i", arr(str("i00"), str("i01")), "k", str("k0")), obj("i", arr(str("i10")), "k", str("k1"))))
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), any(2, fld(1, "i"), eq(fld(2), fld(1, "k"))))}, []*rval{nest}, false, false)
	c.slowRun("AnyInExpr", []*rrule{any(1, fld(0, "l"), &rrule{kind: "and", sub: []*rrule{any(2, fld(1, "i"), eq(fld(2), w)), eq(fld(1, "k"), val(str("u")))}})}, []*rval{nest}, false, false)
	c.slowRun("AnyInExpr", []*rrule{{kind: "and", sub: []*rrule{any(1, fld(0, "l"), eq(fld(1), w)), any(1, fld(0, "m"), eq(fld(1), val(str("u"))))}}}, []*rval{obj("l", arr(str("l0"), str("l1")), "m", arr(str("m0")))}, false, false)
	// several rules, several documents
	T, F := &rrule{kind: "true"}, &rrule{kind: "false"}
	for _, rs := range [][]*rrule{{}, {T}, {F}, {T, F}, {F, T}, {T, T}, {at("a"), T}, {T, at("a")}, {F, at("a")}, {at("a"), F}, {at("a"), at("b")}, {at("a"), at("b"), at("c")}, {at("a"), bad}, {bad, at("a")}} {
		c.slowRun("Match", rs, []*rval{flat}, false, false)
		c.slowRun("MatchWithStatus", rs, []*rval{flat}, false, true)
	}
	for _, reset := range []bool{false, true} {
		c.slowRun("Match", []*rrule{at("a"), at("b")}, []*rval{obj("a", str("sa"), "b", str("sb")), obj("a", str("sa"), "b", str("sb"))}, reset, false)
		c.slowRun("Match", []*rrule{any(1, fld(0, "l"), eq(fld(1), w))}, []*rval{obj("l", arr(str("e0"))), obj("l", arr(str("e0")))}, reset, false)
		c.slowRun("Match", []*rrule{any(1, fld(0, "l"), any(2, fld(1), eq(fld(2), w)))}, []*rval{obj("l", arr(arr(str("e0")), arr(num("x")))), obj("l", arr(arr(str("e0"))))}, reset, false)
		c.slowRun("Match", []*rrule{at("a"), T}, []*rval{obj("a", str("sa")), obj("b", str("sb"))}, reset, false)
	}
	c.Assume = append(c.Assume, "encoding/json decodes documents", "strings.Compare orders strings")
}
