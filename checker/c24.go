package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// C24: what a match reports.
//
// The entry points are interpreted with the evaluation tree's answers as
// symbols that are only final once unreached conditions have been closed.

func init() { checks["C24"] = c24 }

func c24(c *Check) {
	c.Cov["rule"] = "the verdict is the root's after unreached conditions are closed, or that of a constant expression; an expression's verdict is its own node's; the status says whether a comparison fell back to collation"
	for _, name := range []string{"Match", "MatchWithStatus"} {
		for n := 0; n <= 3; n++ {
			for consts := 0; consts < pow(3, n); consts++ {
				c.verdict(name, n, consts)
			}
		}
	}
	for n := 1; n <= 3; n++ {
		for consts := 0; consts < pow(3, n); consts++ {
			c.exprVerdict(n, consts)
		}
	}
	c.Assume = append(c.Assume, "the tree's own operations are those of C02, evaluating the document is C03, C04 and C23, failing documents are C19")
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// exprBuckets: per expression its own node (0), constantly true (1) or false (2).
func (p *place) exprBuckets(st *State, n, consts int) (kinds []int, vals []*V) {
	for i := 0; i < n; i++ {
		k := consts % 3
		consts /= 3
		v := p.global(st, "AlwaysTrueIdent")
		switch k {
		case 0:
			v = Sym(fmt.Sprintf("node of expression %d", i), intT())
			st.Facts.Assume(Cmp(tGEQ, v, Zero, intT()), true)
		case 2:
			v = p.global(st, "AlwaysFalseIdent")
		}
		kinds, vals = append(kinds, k), append(vals, v)
	}
	bt := types.NewSlice(intT())
	if n == 0 {
		p.set(st, p.M, p.mT, "def.MatchBuckets", ZeroVal(bt))
	} else {
		p.set(st, p.M, p.mT, "def.MatchBuckets", p.e.NewSlice(st, "buckets", intT(), vals))
	}
	return
}

// global is the value of a constant or package variable.
func (p *place) global(st *State, name string) *V {
	if v := constVal(p.c.P, name); v != nil {
		return v
	}
	gl, ok := p.c.P.SSA.Members[name].(*ssa.Global)
	if !ok {
		panic(missing("variable " + name))
	}
	return p.e.Load(st, T("ptr", "", nil, T("global", gl.String(), gl.Type())), intT())
}

// answer of the tree about a node.
func answer(what string, idx *V, final bool) *V {
	f := "now"
	if final {
		f = "in the end"
	}
	return T("answer", what+" "+f, types.Typ[types.Bool], idx)
}

func (p *place) treeAnswers() {
	fork := func(s *State, a *V) []Out {
		y, n := split(s, a)
		var outs []Out
		if y != nil {
			outs = append(outs, Out{y, True})
		}
		if n != nil {
			outs = append(outs, Out{n, False})
		}
		return outs
	}
	for _, n := range []string{"IsTrue", "IsResolved"} {
		p.hook("binTreeState."+n, func(x *CallCtx, s *State) ([]Out, bool) {
			final := g(s, "closed") != ""
			if n == "IsResolved" && final {
				return []Out{{s, True}}, true
			}
			if n == "IsTrue" && !final {
				// a settled node keeps its verdict
				r := answer("settled", x.Args[1], false)
				y, o := split(s, r)
				var outs []Out
				if y != nil {
					outs = append(outs, fork(y, answer("true", x.Args[1], true))...)
				}
				if o != nil {
					outs = append(outs, Out{o, False})
				}
				return outs, true
			}
			if n == "IsTrue" {
				return fork(s, answer("true", x.Args[1], true)), true
			}
			return fork(s, answer("settled", x.Args[1], false)), true
		})
	}
	p.hook("binTreeState.Resolve", func(x *CallCtx, s *State) ([]Out, bool) {
		sg(s, "closed", "y")
		return []Out{{s, Tuple()}}, true
	})
}

func (c *Check) verdict(name string, n, consts int) {
	const rule = "the verdict reported is the rule set's"
	for _, node := range []bool{true, false} {
		p := c.newPlace(name)
		p.treeAnswers()
		st := p.start(Sym("pos left", intT()), 0)
		kinds, _ := p.exprBuckets(st, n, consts)
		anyTrue, anyOwn := false, false
		for _, k := range kinds {
			anyTrue = anyTrue || k == 1
			anyOwn = anyOwn || k == 0
		}
		if node != anyOwn {
			continue // compilation makes a node exactly when something depends on the document
		}
		pn := Nil
		if node {
			pn = Sym("parse node", types.NewPointer(c.lookupType("ExecNode")))
			st.Facts.Assume(IsNilCond(pn), false)
		}
		p.set(st, p.M, p.mT, "def.ParseNode", pn)
		_, _, dl, _ := SliceParts(p.data)
		st.Facts.Assume(Cmp(tGTR, dl, Zero, intT()), true)
		flag := Sym("collated before", types.Typ[types.Bool])
		p.set(st, p.M, p.mT, "collateUsed", flag)
		used := Sym("collated in this document", types.Typ[types.Bool])
		p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
			if !c.eqv(s, p.pos(s), Zero) || p.get(s, p.M, p.mT, "tokens.data") != p.data {
				p.bad(s, p.at(x), "the document is read from its start", "a token is read at %s of %s", p.pos(s), p.get(s, p.M, p.mT, "tokens.data"))
				return nil, true
			}
			m := s.Clone()
			m.Ghost["tok"], m.Ghost["text"], m.Ghost["len"] = p.e.FreshSym(m, "token", p.tokT), p.e.FreshSym(m, "text", types.NewSlice(byteT)), p.e.FreshSym(m, "len", intT())
			p.setPos(m, e1(p, m, "posAfter"))
			er, ev := p.err(s, "Step")
			return []Out{{m, Tuple(m.Ghost["tok"], m.Ghost["text"], m.Ghost["len"], Nil)}, {er, Tuple(p.tok["tknUnknown"], Nil, Zero, ev)}}, true
		})
		p.hook("FastMatcher.matchExec", func(x *CallCtx, s *State) ([]Out, bool) {
			if x.Args[1] != s.Ghost["tok"] || x.Args[2] != s.Ghost["text"] || x.Args[3] != s.Ghost["len"] || x.Args[4] != pn {
				p.bad(s, p.at(x), rule, "the document is evaluated with %s, %s, %s, %s", x.Args[1], x.Args[2], x.Args[3], x.Args[4])
				return nil, true
			}
			m := s.Clone()
			sg(m, "read", "y")
			p.set(m, p.M, p.mT, "collateUsed", used)
			er, ev := p.err(s, "matchExec")
			return []Out{{m, Nil}, {er, ev}}, true
		})
		normal := 0
		for _, f := range p.e.Call(c.fn("FastMatcher."+name), st, []*V{p.M, p.data}) {
			w := p.e.Pos(InstrPos(f.Instr))
			if f.Panic {
				p.bad(f.St, w, rule, "panics: %s", f.What)
				continue
			}
			if g(f.St, "err") != "" {
				continue
			}
			normal++
			got, er := TupleAt(f.Ret, 0), TupleAt(f.Ret, len(f.Ret.Args)-1)
			if errKind(f.St, er) <= 0 {
				p.bad(f.St, w, rule, "an error without cause")
				continue
			}
			if node && g(f.St, "read") == "" {
				p.bad(f.St, w, rule, "the document is not evaluated")
				continue
			}
			what := ""
			gv := f.St.Facts.Eval(got)
			root := 0
			if node {
				root = f.St.Facts.Eval(answer("true", Zero, true))
			} else {
				root = -1
			}
			switch {
			case anyTrue:
				if gv <= 0 {
					what = fmt.Sprintf("reports %s although an expression is constantly true", got)
				}
			case root == 0 || gv == 0:
				what = fmt.Sprintf("reports %s without regard to the root's verdict in the end", got)
			case gv != root:
				what = fmt.Sprintf("reports %s although the root's verdict in the end is %v", got, root > 0)
			}
			c.Expect(what == "", p.key, w, rule, fmt.Sprintf("%d expressions (%v): %s", n, kinds, what), p.e.TraceLines(f.St, 20))
			if name == "MatchWithStatus" {
				fl := flag
				if node {
					fl = used
				}
				k, ok := TupleAt(f.Ret, 1).Int()
				bit, _ := c.konst("MatcherCollateUsed").Int()
				e := f.St.Facts.Eval(fl)
				c.Expect(ok && e != 0 && (k&bit != 0) == (e > 0), p.key, w, "the status says whether collation was used", fmt.Sprintf("status %s when %s is %d", TupleAt(f.Ret, 1), fl, e), p.e.TraceLines(f.St, 20))
			}
			if node && g(f.St, "closed") == "" && f.St.Facts.Eval(answer("settled", Zero, false)) <= 0 {
				p.bad(f.St, w, "unreached conditions are closed in the end", "they are left open")
			}
		}
		if normal == 0 {
			c.Undec("%s: no normal outcome", name)
		}
		c.takeUndec(p.e)
	}
}

func (c *Check) exprVerdict(n, consts int) {
	const rule = "an expression's verdict is that of its own node"
	p := c.newPlace("ExpressionMatched")
	p.treeAnswers()
	for i := 0; i < n; i++ {
		st := p.start(Sym("pos left", intT()), 0)
		kinds, vals := p.exprBuckets(st, n, consts)
		sg(st, "closed", "y")
		for _, f := range p.e.Call(c.fn("FastMatcher.ExpressionMatched"), st, []*V{p.M, CInt(int64(i))}) {
			w := p.e.Pos(InstrPos(f.Instr))
			if f.Panic {
				p.bad(f.St, w, rule, "panics: %s", f.What)
				continue
			}
			want := 1
			switch kinds[i] {
			case 0:
				want = f.St.Facts.Eval(answer("true", vals[i], true))
			case 2:
				want = -1
			}
			c.Expect(want != 0 && f.St.Facts.Eval(f.Ret) == want, p.key, w, rule, fmt.Sprintf("expression %d of %v: %s, expected %d", i, kinds, f.Ret, want), p.e.TraceLines(f.St, 20))
		}
	}
	c.takeUndec(p.e)
}
