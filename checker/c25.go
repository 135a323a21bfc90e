package main

import (
	"fmt"
	"strings"
	"text/scanner"
)

// C25: a path names one value.
//
// Three obligations: the path a rule text spells is the path of the rule
// (each front end interpreted on paths of every shape), the compiled
// definition puts each reference at the node of its own path (names symbolic,
// in every pattern of equal and different ones), and the matcher hands every
// member and element to the node of its own key or index, once.

func init() { checks["C25"] = c25 }

func c25(c *Check) {
	c.Cov["rule"] = "a path in a rule is the path that was written; references of equal paths meet in one node, of different paths never; a member or element is handled by the node of its own key or index"
	for _, arr := range []bool{false, true} {
		c.members(arr)
	}
	c.pathsCompiled()
	c.pathsWritten()
}

func (c *Check) pathsCompiled() {
	m := newCompile(c)
	n := 0
	do := func(key string, rules ...*X) {
		n++
		m.judgeCompile(key, rules)
	}
	val := func(i int, p ...string) *X { return x2("LessThan", xF(0, p...), xV(fmt.Sprint("v", i))) }
	unknown := [][]string{{"?a"}, {"?b"}, {"?a", "?b"}, {"?a", "?c"}, {"?b", "?a"}, {"?a", "?b", "?c"}, {"?c", "?a", "?a"}}
	fixed := [][]string{{"a"}, {"[0]"}, {"a", "[0]"}, {"a", "[1]"}, {"a", "[1]", "b"}, {"a", "[10]"}, {"a", "b"}, {"a.b"}, {"a", "0"}, {"b", "a"}}
	for _, paths := range [][][]string{unknown, fixed} {
		for i, p := range paths {
			do("one path", val(0, p...))
			for j, q := range paths {
				if j <= i {
					continue
				}
				do("two paths", xN("And", val(0, p...), val(1, q...)))
				do("two rules", val(0, p...), val(1, q...))
				if (i+j)%2 == 0 {
					do("two operands", x2("Equals", xF(0, p...), xF(0, q...)))
					do("two operands", x2("Equals", xF(0, q...), xF(0, p...)))
				}
			}
		}
	}
	paths := unknown
	for k, l := range loopKinds {
		p := paths[k%len(paths)]
		do("element path", xL(l, 1, xF(0, p...), xN("And", x2("LessThan", xF(1, "?x"), xV("v")), x2("LessThan", xF(1, "?y", "?x"), xV("w")))), val(1, append(append([]string{}, p...), "?x")...))
		do("element path", xN("Or", xL(l, 1, xF(0, p...), x2("Equals", xF(1), xV("v"))), val(1, p...)))
	}
	var many, deep []*X
	var long []string
	for i := 0; i < 12; i++ {
		many = append(many, val(i, fmt.Sprint("f", i)))
		deep = append(deep, val(i, "o", fmt.Sprint("f", i%4), fmt.Sprintf("[%d]", i)))
		long = append(long, fmt.Sprint("n", i))
	}
	do("many paths", xN("And", many...))
	do("many paths", many...)
	do("many paths", xN("Or", deep...))
	do("long path", val(0, long...), val(1, long[:11]...))
	c.Cov["path patterns compiled"] = n
}

func (c *Check) pathsWritten() {
	// the JSON form
	f := func(l ...*jv) *jv { return jOp("field", l...) }
	val := func(v *jv) *jv { return jOp("equals", v, jOp("value", jS("?v"))) }
	var js []*jv
	var plain, root []*jv
	for n := 0; n <= 5; n++ {
		if n > 0 {
			plain = append(plain, jS(fmt.Sprint("?p", n)))
			js = append(js, val(f(plain...)), jOp("exists", f(plain...)))
		}
		root = append([]*jv{jN(1)}, plain...)
		js = append(js, jOp("anyin", jN(1), f(jS("?l")), val(f(root...))), jOp("everyin", jN(1), f(jS("a"), jS("[0]")), jOp("exists", f(root...))))
	}
	for _, s := range []string{"a.b", "[0]", "[12]", "", " ", `a\b`, "`a`", "$1", "a[0]"} {
		js = append(js, val(f(jS(s))), val(f(jS("x"), jS(s), jS("y"))), jOp("lessthan", f(jS(s), jS("x")), f(jS("y"), jS(s))))
	}
	c.jsonRules(map[string][]*jv{"json paths": js}, true)

	// the filter language
	fl := newFilt(c)
	seen := map[string]bool{}
	filt := func(must bool, parts ...interface{}) {
		s := sentence{key: "filter paths", ts: sent(parts...), must: must}
		if k := toksString(s.ts); !seen[k] {
			seen[k] = true
			fl.compile = len(seen)%10 == 0
			fl.judge(s)
		}
	}
	num := func(s string) *tok { return tk(scanner.Int, s) }
	heads := [][]*tok{{tF}, {tR}, {tC}, sent("META ( )")}
	idx := [][]*tok{nil, sent("[", num("0"), "]"), sent("[", num("7"), "]"), sent("[", num("10"), "] [", num("1"), "]")}
	var ps [][]*tok
	for _, h := range heads {
		for _, i := range idx {
			ps = append(ps, sent(h, i))
		}
	}
	firsts := len(ps)
	for k := 0; k < firsts; k++ {
		for l, t := range []*tok{tF, tR, tC} {
			ps = append(ps, sent(ps[k], ".", t, idx[(k+l)%len(idx)]))
			if k%3 == l {
				ps = append(ps, sent(ps[k], ".", t, idx[(k+1)%len(idx)], ".", tF), sent(ps[k], ".", tR, ".", t, idx[l], ".", tF, idx[2]))
			}
		}
	}
	for k, p := range ps {
		meta := toksString(p) == toksString(sent("META ( )"))
		filt(!meta, p, "=", tI)
		switch k % 5 {
		case 0:
			filt(!meta, "EXISTS (", p, ")")
		case 1:
			filt(!meta, p, "IS NOT MISSING")
		case 2:
			filt(!meta, p, "<", ps[(k*7+1)%len(ps)])
		case 3:
			filt(!meta, "ABS (", p, ")", "=", tI)
		case 4:
			filt(!meta, p, "= TRUE AND", ps[(k*3+2)%len(ps)], "IS NULL")
		}
	}
	c.Cov["filter sentences"] = len(seen)

	// the simple language
	sf := newSimple(c)
	k := 0
	for _, p := range []string{"alpha", "alpha.beta", "alpha.beta.gamma", "alpha[0]", "alpha[10]", "alpha[1].beta", "alpha.beta[2]", "alpha[1][2]", "alpha[1][2].beta[3].gamma",
		"`al.pha`", "`al.pha`.beta", "alpha.`be.ta`", "`a[0]`", "`alpha`[3]", "alpha.`b[1]`[2]", "a", "a1.b2", "_a.b_c", "alpha.beta.alpha", "alpha[0].alpha[0]"} {
		for _, o := range []string{" == $i", " EXISTS", " IS NULL", " < -2.5", ` == "two"`, " && $f == $i"} {
			t := p + o
			if strings.HasPrefix(o, " &&") {
				t = p + " EXISTS" + o
			}
			sf.judge(ssent{key: "simple paths", ws: sw(t), must: strings.HasPrefix(o, " ==") && !strings.HasPrefix(o, " == \"")}, k%5 == 0)
			k++
		}
	}
	for _, t := range []string{"alpha. == 5", ".alpha == 5", "alpha[] == 5", "alpha[x] == 5", "alpha[-1] == 5", "alpha[0]beta == 5", "alpha[0 == 5", "`alpha == 5", "`` == 5", "al`pha` == 5", "`al`pha == 5", "alpha.be`ta` == 5", "`al``pha` == 5", "alpha[1]`b` == 5", "alpha[01] == 5", "alpha[0x] == 5", "alpha[1.5] == 5", "alpha[1][ == 5", "alpha.`b == 5"} {
		sf.judge(ssent{key: "simple paths", ws: sw(t)}, false)
		k++
	}
	c.Cov["simple sentences"] = k
}
