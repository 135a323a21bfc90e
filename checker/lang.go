package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Languages of regular expressions: products of the automata of several
// patterns, searched with "contains a match of the pattern" as acceptance.

type langReq struct {
	pat  string
	want bool
}

type langAut struct {
	prog *syntax.Prog
	want bool
}

// closure follows empty transitions; prev and next are the surrounding runes (-1: none).
func (a *langAut) closure(pcs []int, prev, next rune) ([]int, bool) {
	flag := syntax.EmptyOpContext(prev, next)
	seen := map[int]bool{}
	var out []int
	match := false
	var rec func(pc int)
	rec = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			rec(int(in.Out))
			rec(int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			rec(int(in.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				rec(int(in.Out))
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, p := range pcs {
		rec(p)
	}
	return out, match
}

type langPos struct {
	pcs     [][]int
	matched []bool
	prev    rune
	text    string
}

func (p *langPos) key() string {
	var b strings.Builder
	k := p.prev
	if k != -1 && k != '\n' {
		if syntax.IsWordChar(k) {
			k = 'w'
		} else {
			k = ' '
		}
	}
	fmt.Fprint(&b, k, p.matched)
	for i, s := range p.pcs {
		if !p.matched[i] {
			fmt.Fprint(&b, s)
		}
		b.WriteByte('|')
	}
	return b.String()
}

// langSat looks for texts that meet all requirements: up to max of them, and
// whether the search was complete (none found then means there is none).
func langSat(reqs []langReq, avoid string, max int) (texts []string, complete bool) {
	var as []*langAut
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, ':': true, 'A': true, '[': true, '_': true, '`': true, 'a': true, '{': true, ' ': true, 0xD800: true, 0xE000: true}
	for _, r := range avoid {
		cut[r], cut[r+1] = true, true
	}
	for _, q := range reqs {
		re, err := syntax.Parse(q.pat, syntax.Perl)
		if err != nil {
			return nil, false
		}
		prog, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil, false
		}
		as = append(as, &langAut{prog, q.want})
		for _, in := range prog.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					for r := in.Rune[0]; ; {
						cut[r], cut[r+1] = true, true
						if r = unicode.SimpleFold(r); r == in.Rune[0] {
							break
						}
					}
				}
				for i := 0; i+1 < len(in.Rune); i += 2 {
					cut[in.Rune[i]], cut[in.Rune[i+1]+1] = true, true
				}
			}
		}
	}
	var alpha []rune
	for r := range cut {
		if r < 0 || r > unicode.MaxRune || r >= 0xD800 && r < 0xE000 || strings.ContainsRune(avoid, r) {
			continue
		}
		alpha = append(alpha, r)
	}
	sort.Slice(alpha, func(i, j int) bool {
		p := func(r rune) bool { return r > ' ' && r < 127 }
		if p(alpha[i]) != p(alpha[j]) {
			return p(alpha[i])
		}
		return alpha[i] < alpha[j]
	})
	first := &langPos{prev: -1}
	for _, a := range as {
		first.pcs = append(first.pcs, []int{a.prog.Start})
		first.matched = append(first.matched, false)
	}
	seen := map[string]int{first.key(): 1}
	todo := []*langPos{first}
	complete = true
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		ok := true
		for i, a := range as {
			m := p.matched[i]
			if !m {
				_, m = a.closure(p.pcs[i], p.prev, -1)
			}
			ok = ok && m == a.want
		}
		if ok {
			texts = append(texts, p.text)
			if len(texts) >= max {
				return texts, false
			}
		}
		if len(seen) > 60000 {
			complete = false
			continue
		}
		for _, r := range alpha {
			q := &langPos{prev: r, text: p.text + string(r)}
			for i, a := range as {
				if p.matched[i] {
					q.pcs, q.matched = append(q.pcs, nil), append(q.matched, true)
					continue
				}
				cl, m := a.closure(p.pcs[i], p.prev, r)
				var nx []int
				if !m {
					for _, pc := range cl {
						if in := &a.prog.Inst[pc]; in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL && r != '\n' || in.Op != syntax.InstRuneAnyNotNL && in.MatchRune(r) {
							nx = append(nx, int(in.Out))
						}
					}
					nx = append(nx, a.prog.Start)
					sort.Ints(nx)
				}
				q.pcs, q.matched = append(q.pcs, nx), append(q.matched, m)
			}
			k := q.key()
			// a few ways to reach each state, for more than one text
			if seen[k] >= 1+max/8 {
				continue
			}
			seen[k]++
			todo = append(todo, q)
		}
	}
	return texts, complete
}
