package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	. "verifcheck/absint"
)

// C22: literals of documents.
//
// The literal parser is interpreted on tokens of every class, the digits of
// integers and the bytes of strings being symbols; the value it builds must be
// the literal's own. Values read one after the other are compared with what
// they were when read.

func init() { checks["C22"] = c22 }

const c22rule = "a literal becomes a value of its own kind carrying its own text or number"

func c22(c *Check) {
	c.Cov["rule"] = c22rule
	c.litIntegers()
	c.litOthers()
	c.litKeep()
	c.Assume = append(c.Assume, "tokens are those of the JSON grammar (C01), escape sequences are decoded by C15", "strconv parses as documented", "two high surrogate escapes without their partner denote no character and are left open")
}

type litEnv struct {
	*fvModel
	in  *V // the token's text
	sum *V // its number
	key string
	tok map[string]*V
}

func (c *Check) newLit(key string) *litEnv {
	e := c.Engine()
	e.NoWiden = true
	e.MaxUnroll = 80
	e.Pin = func(*V) bool { return true }
	l := &litEnv{fvModel: newFV(c, e), key: key, tok: map[string]*V{}}
	e.OnFault = func(f Fault) {
		if !f.Must {
			c.Undec("%s: cannot exclude %s at %s", l.key, f.Kind, e.Pos(InstrPos(f.Instr)))
			return
		}
		c.Bad(l.key, e.Pos(InstrPos(f.Instr)), "reading a literal never fails", f.Kind+": "+f.What, e.TraceLines(f.St, 14))
	}
	errT := types.Universe.Lookup("error").Type()
	num := func(kind string, t types.Type, rng ISet) Hook {
		return func(x *CallCtx, st *State) ([]Out, bool) {
			if b, ok := x.Args[1].Int(); ok && b != 10 {
				return nil, false
			}
			if b, ok := x.Args[2].Int(); ok && b != 64 {
				return nil, false
			}
			fail := func(st *State) Out {
				ev := Sym("?number error", errT)
				st.Facts.Assume(IsNilCond(ev), false)
				return Out{st, Tuple(e.FreshSym(st, "clamped", t), ev)}
			}
			if s, ok := x.Args[0].Str(); ok {
				n, good := new(big.Int).SetString(s, 10)
				if !good || strings.HasPrefix(s, "+") || kind == "uint" && strings.HasPrefix(s, "-") || n.Cmp(rng.Lo().Big()) < 0 || n.Cmp(rng.Hi().Big()) > 0 {
					return []Out{fail(st)}, true
				}
				return []Out{{st, Tuple(CBigV(n), Nil)}}, true
			}
			if l.sum == nil || x.Args[0] != l.bytesOf(st, l.in) {
				return nil, false
			}
			var outs []Out
			a, b, d := st, st.Clone(), st.Clone()
			if a.Facts.Restrict(l.sum, rng) {
				outs = append(outs, Out{a, Tuple(l.sum, Nil)})
			}
			if b.Facts.Restrict(l.sum, Range(NegInf, NBig(new(big.Int).Sub(rng.Lo().Big(), big.NewInt(1))))) {
				outs = append(outs, fail(b))
			}
			if d.Facts.Restrict(l.sum, Range(NBig(new(big.Int).Add(rng.Hi().Big(), big.NewInt(1))), PosInf)) {
				outs = append(outs, fail(d))
			}
			return outs, true
		}
	}
	e.Hooks["strconv.ParseInt"] = num("int", l.i64, TypeRange(l.i64))
	e.Hooks["strconv.ParseUint"] = num("uint", l.u64, TypeRange(l.u64))
	e.Hooks["strconv.ParseFloat"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if b, ok := x.Args[1].Int(); ok && b != 64 {
			return nil, false
		}
		v := T("parsefloat", "", l.f64, x.Args[0])
		ev := Sym("?number error", errT)
		o := st.Clone()
		st.Facts.Assume(IsNilCond(ev), true)
		o.Facts.Assume(IsNilCond(ev), false)
		return []Out{{st, Tuple(v, ev)}, {o, Tuple(v, ev)}}, true
	}
	for _, n := range litTokens {
		l.tok[n] = c.konst(n)
	}
	return l
}

var litTokens = []string{"tknString", "tknEscString", "tknInteger", "tknNumber", "tknNull", "tknTrue", "tknFalse"}

func (l *litEnv) bad(f *Final, what, format string, a ...interface{}) {
	l.c.Bad(l.key, l.e.Pos(InstrPos(f.Instr)), c22rule, what+": "+fmt.Sprintf(format, a...), l.e.TraceLines(f.St, 14))
}

// parse interprets the literal parser.
func (l *litEnv) parse(st *State, token, what string, judge func(f *Final)) {
	pt := l.c.lookupType("fastLitParser")
	p := l.e.NewObj(st, "parser", pt, ZeroVal(pt))
	for _, f := range l.e.Call(l.c.fn("fastLitParser.Parse"), st, []*V{p, l.tok[token], l.in}) {
		if f.Panic {
			l.bad(f, what, "panics: %s", f.What)
			continue
		}
		judge(f)
	}
	l.c.takeUndec(l.e)
}

// isInt judges the value of an integer token.
func (l *litEnv) isInt(f *Final, what string) {
	st := f.St
	switch k := l.kindOf(st, f.Ret); k {
	case "IntValue", "UintValue":
		t := l.i64
		if k == "UintValue" {
			t = l.u64
		}
		v := l.raw(f.Ret, t)
		if l.c.eqv(st, v, l.sum) {
			l.c.Ok("%s is its number", what)
		} else if st.Facts.Eval(Cmp(tEQL, v, l.sum, intT())) < 0 || v.Op == "bin" || ground(v) && ground(l.sum) {
			l.bad(f, what, "becomes %s", v)
		} else {
			l.bad(f, what, "becomes %s, not %s", v, l.sum)
		}
	case "FloatValue":
		v := l.raw(f.Ret, l.f64)
		if !(v.Op == "parsefloat" && v.Args[0] == l.bytesOf(st, l.in)) && !(v.Op == "conv" && l.c.eqv(st, v.Args[0], l.sum)) {
			l.bad(f, what, "becomes the float %s", v)
		} else if d := st.Facts.Dom(l.sum); d.Lo().Big() != nil && d.Hi().Big() != nil && fits(d, TypeRange(l.i64)) {
			l.bad(f, what, "becomes a float although it fits an integer")
		} else {
			l.c.Ok("%s: the nearest float of an integer beyond 64 bits", what)
		}
	case "JsonIntValue", "JsonUintValue":
		if l.sameText(st, l.c.fieldOf(f.Ret, l.t, "sliceData"), l.in) {
			l.c.Ok("%s keeps its text", what)
		} else {
			l.bad(f, what, "keeps another text")
		}
	default:
		l.bad(f, what, "becomes a %s", k)
	}
}

func ground(v *V) bool { _, ok := v.Int(); return ok }

// fits: the whole range lies in another one.
func fits(d, r ISet) bool {
	return d.Lo().Big().Cmp(r.Lo().Big()) >= 0 && d.Hi().Big().Cmp(r.Hi().Big()) <= 0
}

func (l *litEnv) sameText(st *State, a, b *V) bool {
	ap, ao, an, _ := SliceParts(a)
	bp, bo, bn, _ := SliceParts(b)
	return ap == bp && l.c.eqv(st, ao, bo) && l.c.eqv(st, an, bn)
}

func (c *Check) litIntegers() {
	n := 0
	// every digit a symbol
	for digits := 1; digits <= 24; digits++ {
		for _, neg := range []bool{false, true} {
			l := c.newLit("integers")
			st := l.e.NewState()
			var bs []*V
			l.sum = Zero
			if neg {
				bs = append(bs, CInt('-'))
			}
			for i := 0; i < digits; i++ {
				d := Sym(fmt.Sprintf("digit%d", i), byteT)
				lo := int64('0')
				if i == 0 && digits > 1 {
					lo = '1'
				}
				st.Facts.Restrict(d, RangeI(lo, '9'))
				bs = append(bs, d)
				if digits <= 18 {
					l.sum = Add(Scale(l.sum, 10), AddI(d, -'0'))
				}
			}
			if digits > 18 {
				// the number as a whole is a symbol from here on
				lo := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits-1)), nil)
				hi := new(big.Int).Mul(lo, big.NewInt(10))
				l.sum = Sym("number", nil)
				rng := Range(NBig(lo), NBig(hi.Sub(hi, big.NewInt(1))))
				if neg {
					rng = Range(NBig(new(big.Int).Neg(hi)), NBig(new(big.Int).Neg(lo)))
				}
				st.Facts.Restrict(l.sum, rng)
				if digits == 19 {
					continue // both sides of the border: see the constants
				}
			} else if neg {
				l.sum = Scale(l.sum, -1)
			}
			l.in = l.e.NewSlice(st, "text", byteT, bs)
			n++
			l.parse(st, "tknInteger", fmt.Sprintf("an integer of %d digits (negative: %v)", digits, neg), func(f *Final) { l.isInt(f, fmt.Sprintf("an integer of %d digits (negative: %v)", digits, neg)) })
		}
	}
	// around the borders
	var consts []string
	for _, b := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1000000000000000000", "999999999999999999", "9999999999999999999", "10000000000000000000", "1234567890123456789", "8765432109876543210",
		"0", "1", "9", "10", "4294967295", "4294967296", "2147483647", "2147483648", "9007199254740993", "27670116110564327424", "36893488147419103232", "184467440737095516150", "92233720368547758070"} {
		v, _ := new(big.Int).SetString(b, 10)
		for d := int64(-1); d <= 1; d++ {
			w := new(big.Int).Add(v, big.NewInt(d))
			consts = append(consts, w.String(), new(big.Int).Neg(w).String())
		}
	}
	consts = append(consts, "-0")
	for _, s := range consts {
		l := c.newLit("integers")
		st := l.e.NewState()
		v, _ := new(big.Int).SetString(s, 10)
		l.sum = CBigV(v)
		var bs []*V
		for i := 0; i < len(s); i++ {
			bs = append(bs, CInt(int64(s[i])))
		}
		l.in = l.e.NewSlice(st, "text", byteT, bs)
		n++
		l.parse(st, "tknInteger", s, func(f *Final) { l.isInt(f, s) })
	}
	c.Cov["integer forms"] = n
}

func (c *Check) litOthers() {
	l := c.newLit("literals")
	e := l.e
	bytesT := types.NewSlice(byteT)
	start := func() *State {
		st := e.NewState()
		l.in = Sym("token text", bytesT)
		_, _, n, _ := SliceParts(l.in)
		st.Facts.Assume(Cmp(tGEQ, n, CInt(2), intT()), true)
		return st
	}
	var dec *V
	e.Hooks[e.ShortName(c.fn("unescapeJsonString"))] = func(x *CallCtx, st *State) ([]Out, bool) {
		_, _, n, _ := SliceParts(l.in)
		p, off, k, _ := SliceParts(x.Args[0])
		ip, ioff, _, _ := SliceParts(l.in)
		if p != ip || !c.eqv(st, off, AddI(ioff, 1)) || !c.eqv(st, k, AddI(n, -2)) {
			c.Bad(l.key, e.Pos(InstrPos(x.Instr)), c22rule, fmt.Sprintf("an escaped string is decoded from %s, not from the text between its quotes", x.Args[0]), nil)
			return nil, true
		}
		dec = Sym("decoded", bytesT)
		o := st.Clone()
		ev := Sym("?escape error", types.Universe.Lookup("error").Type())
		o.Facts.Assume(IsNilCond(ev), false)
		o.Ghost["undecodable"] = True
		return []Out{{st, Tuple(dec, Nil)}, {o, Tuple(Nil, ev)}}, true
	}
	expect := func(token, kind string, ok func(f *Final) bool) {
		l.parse(start(), token, token, func(f *Final) {
			if f.St.Ghost["undecodable"] != nil {
				return
			}
			if k := l.kindOf(f.St, f.Ret); k != kind {
				l.bad(f, token, "becomes a %s", k)
			} else if ok != nil && !ok(f) {
				l.bad(f, token, "becomes %s", f.Ret)
			} else {
				c.Ok("%s", token)
			}
		})
	}
	expect("tknString", "BinStringValue", func(f *Final) bool {
		ip, off, n, _ := SliceParts(l.in)
		return l.sameText(f.St, c.fieldOf(f.Ret, l.t, "sliceData"), MkSlice(ip, AddI(off, 1), AddI(n, -2), n))
	})
	expect("tknEscString", "BinStringValue", func(f *Final) bool { return dec != nil && l.sameText(f.St, c.fieldOf(f.Ret, l.t, "sliceData"), dec) })
	expect("tknNull", "NullValue", nil)
	expect("tknTrue", "TrueValue", nil)
	expect("tknFalse", "FalseValue", nil)
	expect("tknNumber", "FloatValue", func(f *Final) bool {
		v := l.raw(f.Ret, l.f64)
		return v.Op == "parsefloat" && v.Args[0] == l.bytesOf(f.St, l.in)
	})
	// which tokens count as literals
	is := c.fn("isLiteralToken")
	tt := c.lookupType("tokenType")
	sc := c.P.SSA.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), tt) {
			continue
		}
		want := false
		for _, t := range litTokens {
			want = want || t == n
		}
		l.key = "which tokens are literals"
		for _, f := range e.Call(is, e.NewState(), []*V{c.konst(n)}) {
			got := f.St.Facts.Eval(f.Ret) > 0
			c.Expect(!f.Panic && got == want, l.key, e.Pos(InstrPos(f.Instr)), "literal tokens are strings, numbers, null, true and false", fmt.Sprintf("%s counts as a literal: %v", n, got), nil)
		}
	}
	// names of members go through the same functions
	l.key = "member names"
	for _, fn := range []string{"ParseString", "ParseEscString"} {
		st := start()
		pt := c.lookupType("fastLitParser")
		for _, f := range e.Call(c.fn("fastLitParser."+fn), st, []*V{e.NewObj(st, "parser", pt, ZeroVal(pt)), l.in}) {
			c.nameText(l, fn, f, dec)
		}
		st = start()
		_, _, n, _ := SliceParts(l.in)
		for _, f := range e.Call(c.fn("fastLitParser."+fn+"WLen"), st, []*V{e.NewObj(st, "parser", pt, ZeroVal(pt)), l.in, n}) {
			c.nameText(l, fn+"WLen", f, dec)
		}
	}
	c.takeUndec(e)
	_ = strconv.Itoa
}

func (c *Check) nameText(l *litEnv, fn string, f *Final, dec *V) {
	if f.Panic {
		l.bad(f, fn, "panics: %s", f.What)
		return
	}
	if f.St.Ghost["undecodable"] != nil {
		return
	}
	ip, off, n, _ := SliceParts(l.in)
	want := MkSlice(ip, AddI(off, 1), AddI(n, -2), n)
	if strings.HasPrefix(fn, "ParseEsc") {
		want = dec
	}
	c.Expect(l.sameText(f.St, f.Ret, want), l.key, l.e.Pos(InstrPos(f.Instr)), c22rule, fmt.Sprintf("%s gives %s", fn, f.Ret), l.e.TraceLines(f.St, 8))
}

// litKeep reads one value after the other: the first must not change.
func (c *Check) litKeep() {
	const rule = "a value read stays what it is while others are read"
	type tk struct{ token, text, val string }
	toks := []tk{{"tknEscString", `"a\n\u0041b"`, "a\nAb"}, {"tknEscString", `"\t"`, "\t"}, {"tknString", `"plain"`, "plain"},
		{"tknEscString", `"` + strings.Repeat(`\n`, 40) + `"`, strings.Repeat("\n", 40)}, {"tknEscString", `"` + strings.Repeat(`\\`, 44) + `"`, strings.Repeat("\\", 44)}}
	setup := func(key string) (*place, *int) {
		p := c.newPlace(key)
		utf8Hooks(c, p.e)
		p.e.MaxUnroll = 120
		turn := new(int)
		return p, turn
	}
	bytes := func(p *place, st *State, name, s string) *V {
		var bs []*V
		for i := 0; i < len(s); i++ {
			bs = append(bs, CInt(int64(s[i])))
		}
		v := p.e.NewSlice(st, name, byteT, bs)
		st.Ghost["keep "+name] = v
		return v
	}
	content := func(p *place, st *State, v *V) string {
		h := &heap{c: c, e: p.e}
		d := c.fieldOf(v, p.fvT, "sliceData")
		_, _, n, _ := SliceParts(d)
		k, ok := n.Int()
		if !ok {
			return "?"
		}
		s := ""
		for i := int64(0); i < k; i++ {
			b, ok := h.elem(st, d, CInt(i), byteT).Int()
			if !ok {
				return "?"
			}
			s += string([]byte{byte(b)})
		}
		return s
	}
	for i, a := range toks {
		for k, b := range toks {
			p, turn := setup("values side by side")
			st := p.start(Sym("pos", intT()), 3)
			p.slots(st, []bool{true, true, true})
			at, bt := bytes(p, st, "first text", a.text), bytes(p, st, "second text", b.text)
			p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
				t, d := a, at
				if *turn == 1 {
					t, d = b, bt
				}
				_, _, n, _ := SliceParts(d)
				return []Out{{s, Tuple(p.tok[t.token], d, n, Nil)}}, true
			})
			fn := c.fn("FastMatcher.literalFromSlot")
			*turn = 0
			for _, f := range p.e.Call(fn, st, []*V{p.M, CInt(1)}) {
				if f.Panic {
					continue // C23
				}
				if got := content(p, f.St, f.Ret); got != a.val {
					if got == "?" {
						c.Undec("side by side: the text is not known")
					} else {
						p.bad(f.St, p.e.Pos(InstrPos(f.Instr)), c22rule, "%s is read as %q", a.text, got)
					}
					continue
				}
				*turn = 1
				f.St.Ghost["first value"] = f.Ret
				for _, g := range p.e.Call(fn, f.St, []*V{p.M, CInt(2)}) {
					if g.Panic {
						continue
					}
					got := content(p, g.St, f.Ret)
					if got == "?" {
						c.Undec("side by side: the text is not known afterwards")
						continue
					}
					c.Expect(got == a.val, "values side by side", p.e.Pos(InstrPos(g.Instr)), rule, fmt.Sprintf("reading the stored value %s turns the other, %s, into %q", b.text, a.text, got), p.e.TraceLines(g.St, 15))
				}
				*turn = 0
			}
			c.takeUndec(p.e)
			// the value at hand, and a stored one
			if i < 2 || k < 2 {
				c.litActive(p, a.token, a.text, a.val, b.token, bytes, content, turn, b.text)
			}
		}
	}
}

// litActive evaluates a value with a condition that looks up a stored one.
func (c *Check) litActive(_ *place, tok, text, val, tok2 string, bytes func(*place, *State, string, string) *V, content func(*place, *State, *V) string, turn *int, text2 string) {
	const rule = "a value read stays what it is while others are read"
	p := c.newPlace("value at hand")
	utf8Hooks(c, p.e)
	p.e.MaxUnroll = 120
	nT := c.lookupType("ExecNode")
	st := p.start(Sym("pos", intT()), 3)
	p.slots(st, []bool{true, true, true})
	node := Sym("node", types.NewPointer(nT))
	st.Facts.Assume(IsNilCond(node), false)
	p.set(st, node, nT, "Ops", p.opList(st, 1, 20))
	p.set(st, node, nT, "Loops", p.loopList(st, 0, 10, func(int) *V { return Nil }))
	p.set(st, node, nT, "After", Nil)
	p.set(st, node, nT, "StoreId", Zero)
	p.set(st, node, nT, "Elems", p.strMap(st, nil, false, nT))
	at, bt := bytes(p, st, "text", text), bytes(p, st, "stored text", text2)
	p.hook("jsonTokenizer.Step", func(x *CallCtx, s *State) ([]Out, bool) {
		_, _, n, _ := SliceParts(bt)
		return []Out{{s, Tuple(p.tok[tok2], bt, n, Nil)}}, true
	})
	seen := 0
	var kept []*State
	where := ""
	p.hook("FastMatcher.matchOp", func(x *CallCtx, s *State) ([]Out, bool) {
		ptr := x.Args[len(x.Args)-1]
		v := p.e.Load(s, ptr, p.fvT)
		seen++
		w := p.at(x)
		if got := content(p, s, v); got == "?" {
			c.Undec("value at hand: the text is not known")
			return nil, true
		} else if got != val {
			p.bad(s, w, c22rule, "%s is evaluated as %q", text, got)
			return nil, true
		}
		k := s.Clone()
		k.Frames = nil
		k.Ghost["value at hand"] = v
		kept = append(kept, k)
		where = w
		return []Out{{s, Nil}}, true
	})
	_, _, n, _ := SliceParts(at)
	for _, f := range p.e.Call(c.fn("FastMatcher.matchExec"), st, []*V{p.M, p.tok[tok], at, n, node}) {
		_ = f
	}
	for _, k := range kept {
		for _, g := range p.e.Call(c.fn("FastMatcher.literalFromSlot"), k, []*V{p.M, CInt(2)}) {
			if g.Panic {
				continue
			}
			got := content(p, g.St, g.St.Ghost["value at hand"])
			if got == "?" {
				c.Undec("value at hand: the text is not known afterwards")
				continue
			}
			c.Expect(got == val, "value at hand", where, rule, fmt.Sprintf("reading the stored value %s turns the value at hand, %s, into %q", text2, text, got), p.e.TraceLines(g.St, 15))
		}
	}
	if seen == 0 {
		c.Undec("value at hand: no condition was evaluated")
	}
	c.takeUndec(p.e)
}
