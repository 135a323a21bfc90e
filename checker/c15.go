package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"time"

	. "verifcheck/absint"
)

// C15: JSON string escapes.
//
// The unescaper is interpreted on strings of every shape up to a small number
// of escapes, with symbolic bytes; the bytes it builds must be those RFC 8259
// gives, computed by a reference decoder on the same symbolic bytes. A run on
// a string of unknown length looks for accesses outside the buffers.

func init() { checks["C15"] = c15 }

var byteT = types.Typ[types.Uint8]

// utf8Hooks models the UTF-8 encoder exactly.
func utf8Hooks(c *Check, e *Engine) {
	encode := func(st *State, r *V) []struct {
		st *State
		bs []*V
	} {
		type br = struct {
			st *State
			bs []*V
		}
		var out []br
		for _, g := range []struct {
			lo, hi int64
			n      int
			bad    bool
		}{{0, 0x7f, 1, false}, {0x80, 0x7ff, 2, false}, {0x800, 0xd7ff, 3, false}, {0xd800, 0xdfff, 3, true}, {0xe000, 0xffff, 3, false}, {0x10000, 0x10ffff, 4, false}, {0x110000, 1 << 40, 3, true}, {-(1 << 40), -1, 3, true}} {
			s := st.Clone()
			if !s.Facts.Assume(Cmp(token.GEQ, r, CInt(g.lo), intT()), true) || !s.Facts.Assume(Cmp(token.LEQ, r, CInt(g.hi), intT()), true) {
				continue
			}
			out = append(out, br{s, utf8Bytes(s, r, g.n, g.bad)})
		}
		return out
	}
	e.Hooks["unicode/utf8.EncodeRune"] = func(x *CallCtx, st *State) ([]Out, bool) {
		var outs []Out
		for _, b := range encode(st, x.Args[1]) {
			_, _, n, _ := SliceParts(x.Args[0])
			if !e.Require(b.st, Cmp(token.GEQ, n, CInt(int64(len(b.bs))), intT()), "index out of range", x.Instr, "utf8.EncodeRune into a short buffer") {
				continue
			}
			h := &heap{c: c, e: e}
			for i, v := range b.bs {
				h.setElem(b.st, x.Args[0], CInt(int64(i)), byteT, v)
			}
			outs = append(outs, Out{b.st, CInt(int64(len(b.bs)))})
		}
		return outs, true
	}
	e.Hooks["bytes.IndexByte"] = func(x *CallCtx, st *State) ([]Out, bool) {
		_, _, n, _ := SliceParts(x.Args[0])
		k, ok := n.Int()
		if !ok {
			if d, single := st.Facts.Dom(n).IsSingle(); single {
				k, ok = d.Int64(), true
			}
		}
		if !ok || k > 128 {
			return nil, false
		}
		h := &heap{c: c, e: e}
		var outs []Out
		for i := int64(0); i < k; i++ {
			el := h.elem(st, x.Args[0], CInt(i), byteT)
			eq := Cmp(token.EQL, el, x.Args[1], byteT)
			hit := st.Clone()
			if hit.Facts.Assume(eq, true) {
				outs = append(outs, Out{hit, CInt(i)})
			}
			if !st.Facts.Assume(eq, false) {
				return outs, true
			}
		}
		return append(outs, Out{st, CInt(-1)}), true
	}
}

// utf8Bytes are the bytes of a rune known to take n of them.
func utf8Bytes(st *State, r *V, n int, bad bool) []*V {
	if bad {
		return []*V{CInt(0xef), CInt(0xbf), CInt(0xbd)}
	}
	if n == 1 {
		return []*V{r}
	}
	if d, ok := st.Facts.Dom(r).IsSingle(); ok {
		var out []*V
		for _, b := range []byte(string(rune(d.Int64()))) {
			out = append(out, CInt(int64(b)))
		}
		return out
	}
	var out []*V
	for i := 0; i < n; i++ {
		out = append(out, T("utf8", fmt.Sprint(i, "/", n), byteT, r))
	}
	return out
}

// refString decodes the symbolic bytes by RFC 8259, deciding what the path
// left open by case distinction.
type refOut struct {
	st  *State
	bs  []*V
	bad bool
}

func split(st *State, cond *V) (yes, no *State) {
	switch st.Facts.Eval(cond) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	y, n := st.Clone(), st.Clone()
	if !y.Facts.Assume(cond, true) {
		y = nil
	}
	if !n.Facts.Assume(cond, false) {
		n = nil
	}
	return y, n
}

func inRange(b *V, lo, hi int64) []*V {
	return []*V{Cmp(token.GEQ, b, CInt(lo), byteT), Cmp(token.LEQ, b, CInt(hi), byteT)}
}

// classify splits a state by membership of a byte in ranges; the last class is
// "none of them".
func classify(st *State, b *V, ranges [][2]int64) []*State {
	out := make([]*State, len(ranges)+1)
	rest := st.Clone()
	for i, r := range ranges {
		y := rest.Clone()
		if y.Facts.Restrict(b, RangeI(r[0], r[1])) {
			out[i] = y
		}
		if !rest.Facts.Restrict(b, RangeI(0, 255).Minus(RangeI(r[0], r[1]))) {
			rest = nil
			break
		}
	}
	out[len(ranges)] = rest
	return out
}

func refDecode(st *State, in []*V, acc []*V) []refOut {
	if len(in) == 0 {
		return []refOut{{st, acc, false}}
	}
	app := func(vs ...*V) []*V { return append(append([]*V{}, acc...), vs...) }
	var out []refOut
	cl := classify(st, in[0], [][2]int64{{'\\', '\\'}})
	if s := cl[1]; s != nil {
		out = append(out, refDecode(s, in[1:], app(in[0]))...)
	}
	st = cl[0]
	if st == nil {
		return out
	}
	if len(in) < 2 {
		return append(out, refOut{st, nil, true})
	}
	simple := "\"\\/bfnrt"
	val := "\"\\/\b\f\n\r\t"
	var rs [][2]int64
	for i := 0; i < len(simple); i++ {
		rs = append(rs, [2]int64{int64(simple[i]), int64(simple[i])})
	}
	rs = append(rs, [2]int64{'u', 'u'})
	cl = classify(st, in[1], rs)
	for i := 0; i < len(simple); i++ {
		if cl[i] != nil {
			out = append(out, refDecode(cl[i], in[2:], app(CInt(int64(val[i]))))...)
		}
	}
	if s := cl[len(simple)+1]; s != nil {
		out = append(out, refOut{s, nil, true})
	}
	st = cl[len(simple)]
	if st == nil {
		return out
	}
	// four hex digits
	type hexed struct {
		st *State
		v  *V
	}
	hex := func(st *State, ds []*V) (good []hexed, bad []*State) {
		good = []hexed{{st, Zero}}
		for _, d := range ds {
			var next []hexed
			for _, g := range good {
				c := classify(g.st, d, [][2]int64{{'0', '9'}, {'A', 'F'}, {'a', 'f'}})
				for i, off := range []int64{'0', 'A' - 10, 'a' - 10} {
					if c[i] != nil {
						next = append(next, hexed{c[i], Add(Scale(g.v, 16), AddI(d, -off))})
					}
				}
				if c[3] != nil {
					bad = append(bad, c[3])
				}
			}
			good = next
		}
		return
	}
	if len(in) < 6 {
		return append(out, refOut{st, nil, true})
	}
	good, bads := hex(st, in[2:6])
	for _, b := range bads {
		out = append(out, refOut{b, nil, true})
	}
	for _, g := range good {
		emit := func(st *State, r *V, lo, hi int64, n int, rest []*V) {
			s := st.Clone()
			if s.Facts.Assume(Cmp(token.GEQ, r, CInt(lo), intT()), true) && s.Facts.Assume(Cmp(token.LEQ, r, CInt(hi), intT()), true) {
				out = append(out, refDecode(s, rest, app(utf8Bytes(s, r, n, false)...))...)
			}
		}
		emit(g.st, g.v, 0, 0x7f, 1, in[6:])
		emit(g.st, g.v, 0x80, 0x7ff, 2, in[6:])
		emit(g.st, g.v, 0x800, 0xd7ff, 3, in[6:])
		emit(g.st, g.v, 0xe000, 0xffff, 3, in[6:])
		// surrogates
		lone := g.st.Clone()
		if lone.Facts.Assume(Cmp(token.GEQ, g.v, CInt(0xdc00), intT()), true) && lone.Facts.Assume(Cmp(token.LEQ, g.v, CInt(0xdfff), intT()), true) {
			out = append(out, refOut{lone, nil, true})
		}
		hi := g.st.Clone()
		if !hi.Facts.Assume(Cmp(token.GEQ, g.v, CInt(0xd800), intT()), true) || !hi.Facts.Assume(Cmp(token.LEQ, g.v, CInt(0xdbff), intT()), true) {
			continue
		}
		if len(in) < 12 {
			out = append(out, refOut{hi, nil, true})
			continue
		}
		for k, ch := range map[int]int64{6: '\\', 7: 'u'} {
			c := classify(hi, in[k], [][2]int64{{ch, ch}})
			if c[1] != nil {
				out = append(out, refOut{c[1], nil, true})
			}
			hi = c[0]
			if hi == nil {
				break
			}
		}
		if hi == nil {
			continue
		}
		good2, bads2 := hex(hi, in[8:12])
		for _, b := range bads2 {
			out = append(out, refOut{b, nil, true})
		}
		for _, g2 := range good2 {
			for _, r := range [][2]int64{{0, 0xdbff}, {0xe000, 0xffff}} {
				s := g2.st.Clone()
				if s.Facts.Assume(Cmp(token.GEQ, g2.v, CInt(r[0]), intT()), true) && s.Facts.Assume(Cmp(token.LEQ, g2.v, CInt(r[1]), intT()), true) {
					out = append(out, refOut{s, nil, true})
				}
			}
			s := g2.st.Clone()
			if s.Facts.Assume(Cmp(token.GEQ, g2.v, CInt(0xdc00), intT()), true) && s.Facts.Assume(Cmp(token.LEQ, g2.v, CInt(0xdfff), intT()), true) {
				r := AddI(Add(Scale(AddI(g.v, -0xd800), 1024), AddI(g2.v, -0xdc00)), 0x10000)
				out = append(out, refDecode(s, in[12:], app(utf8Bytes(s, r, 4, false)...))...)
			}
		}
	}
	return out
}

func c15(c *Check) {
	c.Cov["rule"] = "the unescaper interpreted on strings with symbolic bytes, compared with a reference RFC 8259 decoder byte by byte"
	fn := c.fn("unescapeJsonString")
	e := c.Engine()
	e.MaxStates = 60000
	e.Pin = func(*V) bool { return true }
	e.NoWiden = true
	e.MaxUnroll = 40
	utf8Hooks(c, e)
	what := ""
	e.OnFault = func(f Fault) {
		if !f.Must && !c.oneByte(f) {
			c.Undec("%s: cannot exclude %s at %s", what, f.Kind, e.Pos(InstrPos(f.Instr)))
			return
		}
		c.Bad("fault/"+f.Kind, e.Pos(InstrPos(f.Instr)), "decoding never fails", what+": "+f.Kind+" ("+f.What+")", e.TraceLines(f.St, 14))
	}
	h := &heap{c: c, e: e}
	// a shape is a template: '?' any byte, '.' any byte but a backslash, '#'
	// any hex digit, 'h' a digit of a high surrogate prefix
	shapes := []string{"", "?", "??", "???", "????",
		`\u????`, `.\u####`, `\u####.`, `\n\u####`, `\u####\t`, `\u#0a#\u0#F0`,
		`\u`, `\u#`, `\u##`, `\u###`, `.\u###`,
		`\ud8#0????0#`, `\uD90#\u????`, `\udb0#\u##0#.`, `\udC##\u#00#`, `\uDF##\udc0#`, `\ud8#0\udc0#.\n.`, `.\uDB0#\uDF#0\u00#1`,
		`\ud###`, `\ud###\u#`, `\ud###\u##`, `\ud###\u###`, `\udC0#\uDc00`, `\udbf#\udFf#`, `\ud800\ue00#`, `\ue00#\ud80#`, `\ud7f#\uDC00`, `\ud8##\\udc##`, `\ud800\n....`,
		`.\..\..\.`, `...\?...`, `\"\\\/\b\f\n\r\t`, `\?\?`, `.\?.\?.`}
	for _, sh := range shapes {
		t0 := time.Now()
		for _, room := range []int64{0, 64, -64} {
			if room != 0 && len(sh) > 8 && sh[0] != '.' {
				continue // the same loop, the buffer only has to be tried with some of them
			}
			what = fmt.Sprintf("decoding %q", sh)
			st := e.NewState()
			var in []*V
			for i := 0; i < len(sh); i++ {
				b := Sym(fmt.Sprintf("in%d", i), byteT)
				set := RangeI(0, 255)
				switch sh[i] {
				case '?':
				case '.':
					set = set.Minus(RangeI('\\', '\\'))
				case '#':
					set = RangeI('0', '9').Union(RangeI('A', 'F')).Union(RangeI('a', 'f'))
				default:
					set = RangeI(int64(sh[i]), int64(sh[i]))
				}
				st.Facts.Restrict(b, set)
				if n, ok := set.IsSingle(); ok {
					b = CInt(n.Int64())
				}
				in = append(in, b)
			}
			inS := e.NewSlice(st, "in", byteT, in)
			outS := Nil
			if room != 0 {
				var junk []*V
				for i := int64(0); i < 64; i++ {
					junk = append(junk, Sym(fmt.Sprintf("old%d", i), byteT))
				}
				outS = e.NewSlice(st, "out", byteT, junk)
				if room < 0 { // an empty buffer with that capacity
					p, off, _, cp := SliceParts(outS)
					outS = MkSlice(p, off, Zero, cp)
				}
			}
			for _, f := range e.Call(fn, st, []*V{inS, outS}) {
				if f.Panic {
					c.Bad("panic", e.Pos(InstrPos(f.Instr)), "decoding never fails", what+" panics: "+f.What, e.TraceLines(f.St, 14))
					continue
				}
				where := e.Pos(InstrPos(f.Instr))
				res, errv := TupleAt(f.Ret, 0), TupleAt(f.Ret, 1)
				failed := f.St.Facts.Eval(IsNilCond(errv))
				for _, r := range refDecode(f.St, in, nil) {
					say := func(format string, a ...interface{}) {
						c.Bad("decode", where, "each escape denotes its character", what+" ("+shapeOf(r.st, in)+"): "+fmt.Sprintf(format, a...), e.TraceLines(f.St, 14))
					}
					if r.bad {
						if failed >= 0 {
							say("a malformed escape is accepted")
						} else {
							c.Ok("%s malformed, rejected", what)
						}
						continue
					}
					if failed <= 0 {
						say("well-formed, but rejected")
						continue
					}
					_, _, n, _ := SliceParts(res)
					if !c.eqv(r.st, n, CInt(int64(len(r.bs)))) {
						say("gives %s bytes, expected %d", n, len(r.bs))
						continue
					}
					good := true
					for i, w := range r.bs {
						g := h.elem(f.St, res, CInt(int64(i)), byteT)
						if g != w && !c.eqv(r.st, g, w) && !(g.Op == "utf8" && w.Op == "utf8" && g.Aux == w.Aux && c.eqv(r.st, g.Args[0], w.Args[0])) {
							say("byte %d is %s, expected %s", i, g, w)
							good = false
							break
						}
					}
					if good {
						c.Ok("%s gives the characters", what)
					}
				}
			}
			c.takeUndec(e)
		}
		if os.Getenv("VERIF_TIME") != "" {
			fmt.Fprintln(os.Stderr, sh, time.Since(t0))
		}
	}
	c.Cov["shapes"] = len(shapes)
}

// oneByte: the condition that may fail compares a single input byte, whose
// possible values are exactly known.
func (c *Check) oneByte(f Fault) bool {
	if f.Cond == nil {
		return false
	}
	n, other := 0, false
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case "sym":
			n++
		case "const", "lin", "cmp":
		default:
			other = true
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	walk(f.Cond)
	return n == 1 && !other
}

// shapeOf describes the input bytes in a state.
func shapeOf(st *State, in []*V) string {
	s := ""
	for _, b := range in {
		d := st.Facts.Dom(b)
		if n, ok := d.IsSingle(); ok {
			s += fmt.Sprintf("%q", rune(n.Int64()))
		} else {
			s += "[" + d.String() + "]"
		}
	}
	return s
}
