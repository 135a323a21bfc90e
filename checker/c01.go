package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// C01: the tokenizer recognises exactly the JSON lexical grammar.
//
// The reference automaton below is written from RFC 8259. The tokenizer's
// source is analysed in product with it: the abstract domain tracks, per
// control point, which reference state the bytes consumed so far lead to.

type refTrans struct {
	set ISet
	to  string
}

var hexSet = RangeI('0', '9').Union(RangeI('a', 'f')).Union(RangeI('A', 'F'))
var digit = RangeI('0', '9')

// every state not listed is terminal
var refDFA = map[string][]refTrans{
	"ws": {
		{SetOf(' ', '\t', '\r', '\n'), "ws"},
		{SetOf('{'), "=tknObjectStart"}, {SetOf('}'), "=tknObjectEnd"}, {SetOf(':'), "=tknObjectKeyDelim"},
		{SetOf('['), "=tknArrayStart"}, {SetOf(']'), "=tknArrayEnd"}, {SetOf(','), "=tknListDelim"},
		{SetOf('"'), "str"}, {SetOf('-'), "neg"}, {SetOf('0'), "zero"}, {RangeI('1', '9'), "int"},
		{SetOf('t'), "t"}, {SetOf('f'), "f"}, {SetOf('n'), "n"},
	},
	"str":     {{SetOf('"'), "=tknString"}, {SetOf('\\'), "esc"}, {RangeI(0x20, 255).Minus(SetOf('"', '\\')), "str"}},
	"strE":    {{SetOf('"'), "=tknEscString"}, {SetOf('\\'), "esc"}, {RangeI(0x20, 255).Minus(SetOf('"', '\\')), "strE"}},
	"esc":     {{SetOf('"', '\\', '/', 'b', 'f', 'n', 'r', 't'), "strE"}, {SetOf('u'), "u0"}},
	"u0":      {{hexSet, "u1"}},
	"u1":      {{hexSet, "u2"}},
	"u2":      {{hexSet, "u3"}},
	"u3":      {{hexSet, "strE"}},
	"neg":     {{SetOf('0'), "zero"}, {RangeI('1', '9'), "int"}},
	"zero":    {{SetOf('.'), "dot"}, {SetOf('e', 'E'), "exp"}, {SetOf('.', 'e', 'E').Complement().Intersect(RangeI(0, 255)), "<tknInteger"}},
	"int":     {{digit, "int"}, {SetOf('.'), "dot"}, {SetOf('e', 'E'), "exp"}, {digit.Union(SetOf('.', 'e', 'E')).Complement().Intersect(RangeI(0, 255)), "<tknInteger"}},
	"dot":     {{digit, "frac"}},
	"frac":    {{digit, "frac"}, {SetOf('e', 'E'), "exp"}, {digit.Union(SetOf('e', 'E')).Complement().Intersect(RangeI(0, 255)), "<tknNumber"}},
	"exp":     {{SetOf('+', '-'), "expsign"}, {digit, "expdig"}},
	"expsign": {{digit, "expdig"}},
	"expdig":  {{digit, "expdig"}, {digit.Complement().Intersect(RangeI(0, 255)), "<tknNumber"}},
	"t":       {{SetOf('r'), "tr"}}, "tr": {{SetOf('u'), "tru"}}, "tru": {{SetOf('e'), "=tknTrue"}},
	"f": {{SetOf('a'), "fa"}}, "fa": {{SetOf('l'), "fal"}}, "fal": {{SetOf('s'), "fals"}}, "fals": {{SetOf('e'), "=tknFalse"}},
	"n": {{SetOf('u'), "nu"}}, "nu": {{SetOf('l'), "nul"}}, "nul": {{SetOf('l'), "=tknNull"}},
}

// token at end of input, per state (absent: premature end)
var refEOF = map[string]string{"ws": "tknEnd", "zero": "tknInteger", "int": "tknInteger", "frac": "tknNumber", "expdig": "tknNumber"}

func init() { checks["C01"] = c01 }

// constVal finds a package constant's value term.
func constVal(p *Program, name string) *V {
	o, ok := p.SSA.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return Const(o.Val())
}

func (c *Check) need(names ...string) bool {
	for _, n := range names {
		var ok bool
		if i := strings.Index(n, "."); i >= 0 {
			ok = c.P.Method(n[:i], n[i+1:]) != nil
		} else {
			ok = c.P.SSA.Pkg.Scope().Lookup(n) != nil
		}
		if !ok {
			c.Undec("anchor %s not found: the rule has nothing to apply to", n)
			return false
		}
	}
	return true
}

func c01(c *Check) {
	c.Cov["rule"] = "product of the tokenizer's control flow with the RFC 8259 lexical automaton; every return must agree with the automaton state reached"
	if !c.need("jsonTokenizer.Step", "jsonTokenizer.Reset", "jsonTokenizer.Seek", "jsonTokenizer.Position") {
		return
	}
	p := c.P
	e := c.Engine()
	step, reset, seek, posn := p.Method("jsonTokenizer", "Step"), p.Method("jsonTokenizer", "Reset"), p.Method("jsonTokenizer", "Seek"), p.Method("jsonTokenizer", "Position")
	tt := p.Type("jsonTokenizer")
	data := Sym("data", types.NewSlice(types.Typ[types.Uint8]))
	dlen := T("len", "", nil, data)
	pos := Sym("pos", types.Typ[types.Int])
	tkp := Sym("tkn", types.NewPointer(tt))
	e.Pin = func(v *V) bool {
		return v == pos || v == dlen || v == data || v == Sub(pos, dlen) || v == Sub(dlen, pos)
	}

	st := e.NewState()
	st.Facts.Restrict(pos, Range(NI(0), PosInf))
	content := func(s *State) *V { return e.Content(s, T("backing", "", nil, data)) }
	arr0 := content(st)

	sts := e.Call(reset, st, []*V{tkp, data})
	var seeked []*State
	for _, f := range sts {
		if f.Panic {
			continue
		}
		for _, g := range e.Call(seek, f.St, []*V{tkp, pos}) {
			if g.Panic {
				c.Bad("Seek", e.Pos(InstrPos(g.Instr)), "Seek accepts any position", g.What, nil)
				continue
			}
			for _, h := range e.Call(posn, g.St, []*V{tkp}) {
				c.Expect(!h.Panic && h.Ret == pos, "Position", e.Pos(posn.Pos()), "Position reports the position that was sought", fmt.Sprintf("after Seek(pos), Position() is %v", h.Ret), nil)
				seeked = append(seeked, h.St)
			}
		}
	}
	if len(seeked) == 0 {
		c.Undec("Reset/Seek have no normal outcome")
		return
	}
	// read monitor
	e.OnElem = func(e *Engine, s *State, arr, idx *V, in ssa.Instruction) []*State {
		if arr != arr0 && !(arr.Op == "b2s") {
			return nil
		}
		cur := s.Ghost["cur"]
		ref, _ := s.Ghost["ref"].Str()
		if cur == nil {
			return nil
		}
		d, ok := DiffConst(idx, cur)
		if !ok {
			if ref[0] != '=' && ref[0] != '<' && ref != "error" {
				c.Undec("byte read at %s is not at the reading frontier (%s vs %s)", e.Pos(InstrPos(in)), idx, cur)
			}
			return nil
		}
		if d < 0 {
			return nil // already read
		}
		tr, live := refDFA[ref]
		if !live {
			return nil // lookahead after the token is complete
		}
		if d > 0 {
			c.Undec("byte at offset +%d read before the preceding byte at %s", d, e.Pos(InstrPos(in)))
			return nil
		}
		el := e.ArrRead(s.Facts, arr, idx, types.Typ[types.Uint8])
		var out []*State
		rest := RangeI(0, 255)
		all := append([]refTrans{}, tr...)
		for _, t := range all {
			rest = rest.Minus(t.set)
		}
		all = append(all, refTrans{rest, "error"})
		for _, t := range all {
			n := s.Clone()
			if t.set.Empty() || !n.Facts.Restrict(el, t.set) {
				continue
			}
			n.Log(InstrPos(in), "byte ∈ %s: reference %s → %s", t.set, ref, t.to)
			n.Ghost["ref"] = CStr(t.to)
			if t.to[0] == '<' {
				// the byte is not part of the token
			} else {
				n.Ghost["cur"] = AddI(cur, 1)
			}
			if t.to == "ws" {
				n.Ghost["start"] = AddI(cur, 1)
			}
			out = append(out, n)
		}
		return out
	}
	e.OnFault = func(f Fault) {
		c.Violate("Step", e.Pos(InstrPos(f.Instr)), "the tokenizer never panics", f.Kind+" possible: "+f.What, e.TraceLines(f.St, 40))
	}
	for _, s := range seeked {
		s.Ghost["ref"] = CStr("ws")
		s.Ghost["cur"] = pos
		s.Ghost["start"] = pos
		fins := e.Call(step, s, []*V{tkp})
		key := "(*jsonTokenizer).Step"
		seen := map[string]int{}
		for _, f := range fins {
			where := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				c.Bad(key, where, "the tokenizer never panics", f.What, e.TraceLines(f.St, 40))
				continue
			}
			ref, _ := f.St.Ghost["ref"].Str()
			cur, start := f.St.Ghost["cur"], f.St.Ghost["start"]
			tok, td, tl, er := f.Ret.Args[0], f.Ret.Args[1], f.Ret.Args[2], f.Ret.Args[3]
			want := ""
			switch {
			case ref[0] == '=' || ref[0] == '<':
				want = ref[1:]
			case ref == "error":
				want = "error"
			default:
				// the automaton wants another byte: only the end of input may stop it
				atEnd := f.St.Facts.Eval(Cmp(token.GEQ, cur, dlen, types.Typ[types.Int]))
				if atEnd <= 0 {
					c.Bad(key, where, "a token ends where the grammar ends it", fmt.Sprintf("returns %s in reference state %q with input left", tok, ref), e.TraceLines(f.St, 40))
					continue
				}
				want = refEOF[ref]
				if want == "" {
					want = "error"
				}
			}
			isErr := f.St.Facts.Eval(IsNilCond(er)) < 0
			noErr := f.St.Facts.Eval(IsNilCond(er)) > 0
			if want == "error" {
				c.Expect(isErr, key, where, "malformed input is reported as an error", fmt.Sprintf("reference state %q is not a token, but the tokenizer returns %s without error", ref, tokName(p, tok)), e.TraceLines(f.St, 40))
				seen["error"]++
				continue
			}
			wv := constVal(p, want)
			if wv == nil {
				c.Undec("token constant %s not found", want)
				continue
			}
			if !noErr {
				c.Bad(key, where, "well-formed input is accepted", fmt.Sprintf("input is a complete %s token but an error is returned", want), e.TraceLines(f.St, 40))
				continue
			}
			if !c.Expect(tok == wv, key, where, "the token class is the grammar's", fmt.Sprintf("input is a %s token but %s is returned", want, tokName(p, tok)), e.TraceLines(f.St, 40)) {
				continue
			}
			seen[want]++
			if want == "tknEnd" {
				// the whole rest of the input was white space
				continue
			}
			okLen := c.eqv(f.St, tl, Sub(cur, start))
			c.Expect(okLen, key, where, "the token length is exact", fmt.Sprintf("length %s returned, token spans %s..%s", tl, start, cur), e.TraceLines(f.St, 30))
			ptr, off, n, _ := SliceParts(td)
			okData := ptr.Op == "ptr" && ptr.Args[0] == T("backing", "", nil, data) && c.eqv(f.St, off, start) && c.eqv(f.St, n, Sub(cur, start))
			c.Expect(okData, key, where, "the token bytes are exactly the token's text", fmt.Sprintf("bytes [%s:+%s] returned, token spans %s..%s", off, n, start, cur), e.TraceLines(f.St, 30))
			e.OnElem, e.OnFault = nil, nil
			save := e.OnElem
			for _, g := range e.Call(posn, f.St.Clone(), []*V{tkp}) {
				c.Expect(!g.Panic && c.eqv(g.St, g.Ret, cur), key, where, "the position advances past exactly this token", fmt.Sprintf("position is %v after a token ending at %s", g.Ret, cur), e.TraceLines(f.St, 30))
			}
			e.OnElem = save
		}
		for _, w := range []string{"tknObjectStart", "tknObjectEnd", "tknObjectKeyDelim", "tknArrayStart", "tknArrayEnd", "tknListDelim", "tknString", "tknEscString", "tknInteger", "tknNumber", "tknNull", "tknTrue", "tknFalse", "tknEnd", "error"} {
			if seen[w] == 0 {
				c.Bad(key, e.Pos(step.Pos()), "every lexical class is recognised", "no path of the tokenizer accepts "+w, nil)
			}
		}
		c.Cov["returns_by_class"] = seen
	}
	c.takeUndec(e)
	c.Assume = append(c.Assume, "positions do not overflow int", "the tokenizer's cached length is the length of the data given to Reset (checked: the state analysed is the one Reset and Seek produce)")
}

func tokName(p *Program, v *V) string {
	for _, n := range p.SSA.Pkg.Scope().Names() {
		if strings.HasPrefix(n, "tkn") && constVal(p, n) == v {
			return n
		}
	}
	return v.String()
}

// eqv: the two integer terms are equal in the state.
func (c *Check) eqv(st *State, a, b *V) bool {
	return st.Facts.Eval(Cmp(token.EQL, a, b, types.Typ[types.Int])) > 0
}

func (c *Check) takeUndec(e *Engine) {
	for _, u := range e.Undecided {
		c.Undec("%s", u)
	}
	e.Undecided = nil
}
