package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	. "verifcheck/absint"
)

// C14: removing members from a document.
//
// The function is interpreted on documents of every small shape, the bytes of
// keys and values being symbols, with a tokenizer that hands out the tokens of
// the document; what it writes is compared with the document without the
// members whose keys are listed, on every path.

func init() { checks["C14"] = c14 }

const c14rule = "what is left is the document without the members removed"

// rv is a document value; bytes are texts in which '?' stands for a symbol.
type rv struct {
	kind string // literal token, or obj, arr
	text string
	keys []string // texts of the keys
	kids []*rv
}

func rL(tok, text string) *rv { return &rv{kind: tok, text: text} }
func rO(kv ...interface{}) *rv {
	o := &rv{kind: "obj"}
	for i := 0; i < len(kv); i += 2 {
		o.keys = append(o.keys, kv[i].(string))
		o.kids = append(o.kids, kv[i+1].(*rv))
	}
	return o
}
func rA(kids ...*rv) *rv { return &rv{kind: "arr", kids: kids} }

type rtok struct {
	tok        string
	bs         []*V
	start, end int64
	decoded    []*V // of keys: what the key says
}

type rdoc struct {
	c     *Check
	e     *Engine
	st    *State
	bs    []*V
	toks  []rtok
	n     int
	space bool
	first map[*rv]int // token of a value
	last  map[*rv]int
	keyAt map[*rv][]int
}

func (d *rdoc) emit(tok, text string) int {
	if d.space && len(d.toks) > 0 {
		d.bs = append(d.bs, CInt([]int64{' ', '\n', '\t'}[len(d.toks)%3]))
	}
	t := rtok{tok: tok, start: int64(len(d.bs))}
	for i := 0; i < len(text); i++ {
		b := CInt(int64(text[i]))
		if text[i] == '?' {
			b = Sym(fmt.Sprintf("byte%d", d.n), byteT)
			d.n++
			set := RangeI('a', 'z')
			if tok == "tknInteger" || tok == "tknNumber" {
				set = RangeI('0', '9')
			}
			d.st.Facts.Restrict(b, set)
		}
		t.bs = append(t.bs, b)
		d.bs = append(d.bs, b)
	}
	t.end = int64(len(d.bs))
	if len(t.bs) >= 2 && tok == "tknString" {
		t.decoded = t.bs[1 : len(t.bs)-1]
	}
	if tok == "tknEscString" {
		s := text[1 : len(text)-1]
		for _, p := range [][2]string{{`\u006b`, "k"}, {`\n`, "\n"}, {`\"`, `"`}, {`\u006B`, "k"}} {
			s = strings.ReplaceAll(s, p[0], p[1])
		}
		for i := 0; i < len(s); i++ {
			t.decoded = append(t.decoded, CInt(int64(s[i])))
		}
	}
	d.toks = append(d.toks, t)
	return len(d.toks) - 1
}

func (d *rdoc) put(v *rv) {
	d.first[v] = len(d.toks)
	switch v.kind {
	case "obj":
		d.emit("tknObjectStart", "{")
		for i, k := range v.kids {
			if i > 0 {
				d.emit("tknListDelim", ",")
			}
			tok := "tknString"
			if strings.Contains(v.keys[i], `\`) {
				tok = "tknEscString"
			}
			d.keyAt[v] = append(d.keyAt[v], d.emit(tok, v.keys[i]))
			d.emit("tknObjectKeyDelim", ":")
			d.put(k)
		}
		d.emit("tknObjectEnd", "}")
	case "arr":
		d.emit("tknArrayStart", "[")
		for i, k := range v.kids {
			if i > 0 {
				d.emit("tknListDelim", ",")
			}
			d.put(k)
		}
		d.emit("tknArrayEnd", "]")
	default:
		d.emit(v.kind, v.text)
	}
	d.last[v] = len(d.toks) - 1
}

// isKey: the key reads as the text; its conditions are what remains open.
func keyIs(k []*V, s string) (conds []*V, never bool) {
	if len(k) != len(s) {
		return nil, true
	}
	for i := range k {
		conds = append(conds, Cmp(tEQL, k[i], CInt(int64(s[i])), byteT))
	}
	return conds, false
}

type rout struct {
	st      *State
	bs      []*V
	removed int
	vals    map[string]*rv
	left    bool
}

// without is the reference: the texts left of a value, by case distinction.
func (d *rdoc) without(st *State, v *rv, remove []string) []rout {
	tok := func(i int) []*V { return d.toks[i].bs }
	switch v.kind {
	case "obj", "arr":
		outs := []rout{{st: st, bs: tok(d.first[v]), vals: map[string]*rv{}}}
		for i, kid := range v.kids {
			var next []rout
			for _, o := range outs {
				type alt struct {
					st  *State
					key string
				}
				alts := []alt{}
				rest := o.st
				if v.kind == "obj" {
					for _, r := range remove {
						cs, never := keyIs(d.toks[d.keyAt[v][i]].decoded, r)
						if never || rest == nil {
							continue
						}
						hit := rest.Clone()
						miss := []*State{}
						for _, cnd := range cs {
							if hit == nil {
								break
							}
							y, n := split(hit, cnd)
							hit = y
							if n != nil {
								miss = append(miss, n)
							}
						}
						if hit != nil {
							alts = append(alts, alt{hit, r})
						}
						rest = nil
						if len(miss) > 0 {
							rest = miss[0]
						}
						if len(miss) > 1 {
							// keys of several symbols: keep every way to differ
							for _, m := range miss[1:] {
								alts = append(alts, alt{m, "\x00"})
							}
						}
					}
				}
				if rest != nil {
					alts = append(alts, alt{rest, "\x00"})
				}
				for _, a := range alts {
					if a.key != "\x00" {
						n := rout{st: a.st, bs: o.bs, removed: o.removed + 1, vals: map[string]*rv{}, left: o.left}
						for k, x := range o.vals {
							n.vals[k] = x
						}
						n.vals[a.key] = kid
						next = append(next, n)
						continue
					}
					for _, s := range d.without(a.st, kid, remove) {
						n := rout{st: s.st, removed: o.removed + s.removed, vals: map[string]*rv{}, left: true}
						n.bs = append(n.bs, o.bs...)
						if o.left {
							n.bs = append(n.bs, CInt(','))
						}
						if v.kind == "obj" {
							n.bs = append(append(n.bs, tok(d.keyAt[v][i])...), CInt(':'))
						}
						n.bs = append(n.bs, s.bs...)
						for _, m := range []map[string]*rv{o.vals, s.vals} {
							for k, x := range m {
								n.vals[k] = x
							}
						}
						next = append(next, n)
					}
				}
			}
			outs = next
		}
		for i := range outs {
			outs[i].bs = append(append([]*V{}, outs[i].bs...), tok(d.last[v])...)
		}
		return outs
	}
	return []rout{{st: st, bs: tok(d.first[v]), vals: map[string]*rv{}, left: true}}
}

func c14(c *Check) {
	c.Cov["rule"] = c14rule
	lits := []*rv{rL("tknString", `"?"`), rL("tknEscString", `"\n"`), rL("tknInteger", "?"), rL("tknNumber", "?.?"), rL("tknTrue", "true"), rL("tknFalse", "false"), rL("tknNull", "null"), rL("tknString", `""`)}
	cp := func(v *rv) *rv {
		var f func(v *rv) *rv
		f = func(v *rv) *rv {
			n := *v
			n.kids = nil
			for _, k := range v.kids {
				n.kids = append(n.kids, f(k))
			}
			return &n
		}
		return f(v)
	}
	k1 := `"?"`
	s, num := lits[0], lits[2]
	vals := append([]*rv{}, lits...)
	vals = append(vals, rO(), rA(), rO(k1, s), rO(k1, num), rA(s), rA(num), rA(s, s), rA(num, s), rA(rO()), rA(rO(k1, s)), rA(rA(s)), rO(k1, rO(k1, num)), rO(k1, rA(s)), rO(k1, num, k1, s), rA(rO(k1, num), rO(k1, s)), rO(k1, rA(), k1, rO()), rA(s, rA(num, s), rO()))
	var docs []*rv
	add := func(v *rv) { docs = append(docs, cp(v)) }
	add(rO())
	for _, v := range vals {
		add(rO(k1, v))
		add(rO(k1, num, k1, v))
		add(rO(k1, v, k1, num))
		add(rO(k1, s, k1, v))
		add(rO(k1, v, k1, v))
	}
	for _, v := range []*rv{num, s, rA(s), rO(k1, s), rO()} {
		add(rO(k1, num, k1, v, k1, s))
		add(rO(k1, v, k1, s, k1, v, k1, num))
		add(rO(k1, rO(k1, v, k1, num), k1, rA(v)))
		add(rO(k1, rA(rO(k1, v, k1, s), v), k1, v))
	}
	for _, key := range []string{`""`, `"??"`, `"k"`, `"kk"`, `"\u006b"`, `"\u006Bk"`, `"\n"`, `"\"k"`, `"???"`} {
		for _, v := range []*rv{num, s, lits[1], rA(s), rO(k1, s)} {
			add(rO(key, v))
			add(rO(key, v, k1, num))
			add(rO(k1, num, key, v))
			add(rO(k1, rO(key, v)))
		}
	}
	removes := [][]string{{}, {"k"}, {"k", "m"}, {"k", "k"}, {""}, {"kk", "k"}, {"\n"}, {"zzz", "k", "kk", "k"}}
	n := 0
	for i, v := range docs {
		for r, rem := range removes {
			if len(v.kids) > 2 && r > 3 || r > 3 && i%3 != 0 && i < len(vals)*5 {
				continue
			}
			n++
			t0 := time.Now()
			c.removal(v, rem, false, "exact")
			if os.Getenv("VERIF_TIME") != "" {
				fmt.Fprintln(os.Stderr, i, rem, time.Since(t0))
			}
			if r < 4 && i%2 == 0 {
				c.removal(v, rem, true, "large")
			}
			if r == 2 {
				c.removal(v, rem, false, "none")
			}
			if r == 2 && i%5 == 0 || len(v.kids) < 2 && r == 1 && i%3 == 0 {
				c.removal(v, rem, i%2 == 0, "small")
			}
		}
	}
	c.Cov["documents and key lists"] = n
	c.removalErrors()
	c.Assume = append(c.Assume, "tokens are those of the document (C01), escape sequences are decoded by C15", "members are removed wherever they occur, as the implementation documents by its tests", "the output may differ from the input in white space between tokens")
}

// stepper hands out the tokens of a document by position.
func (d *rdoc) stepper(src *V) Hook {
	tT := d.c.lookupType("jsonTokenizer")
	h := &heap{c: d.c, e: d.e}
	sp, so, _, sc := SliceParts(src)
	return func(x *CallCtx, st *State) ([]Out, bool) {
		p, ok := h.get(st, x.Args[0], tT, "pos").Int()
		if !ok {
			return nil, false
		}
		for _, t := range d.toks {
			if t.start >= p {
				h.set(st, x.Args[0], tT, "pos", CInt(t.end))
				return []Out{{st, Tuple(d.c.konst(t.tok), MkSlice(sp, AddI(so, t.start), CInt(t.end-t.start), sc), CInt(t.end-t.start), Nil)}}, true
			}
		}
		h.set(st, x.Args[0], tT, "pos", CInt(int64(len(d.bs))))
		return []Out{{st, Tuple(d.c.konst("tknEnd"), Nil, Zero, Nil)}}, true
	}
}

func (c *Check) removalEngine(key *string) *Engine {
	e := c.Engine()
	e.NoWiden = true
	e.MaxUnroll = 200
	e.Pin = func(*V) bool { return true }
	utf8Hooks(c, e)
	e.OnFault = func(f Fault) {
		if !f.Must {
			c.Undec("%s: cannot exclude %s at %s", *key, f.Kind, e.Pos(InstrPos(f.Instr)))
			return
		}
		c.Bad(*key, e.Pos(InstrPos(f.Instr)), "removing members never fails", f.Kind+": "+f.What, e.TraceLines(f.St, 20))
	}
	return e
}

func (c *Check) removal(v *rv, remove []string, space bool, buffer string) {
	key := "members/" + buffer
	e := c.removalEngine(&key)
	st := e.NewState()
	d := &rdoc{c: c, e: e, st: st, space: space, first: map[*rv]int{}, last: map[*rv]int{}, keyAt: map[*rv][]int{}}
	d.put(v)
	what := d.String()
	what = fmt.Sprintf("removing %q from %s", remove, what)
	src := e.NewSlice(st, "src", byteT, d.bs)
	var rs []*V
	for _, r := range remove {
		rs = append(rs, CStr(r))
	}
	rem := e.NewSlice(st, "remove", types.Typ[types.String], rs)
	mapK := T("alloc", "removed map", types.NewMap(types.Typ[types.String], types.NewSlice(byteT)))
	st.Heap[mapK] = T("mapv", "", nil, Nil)
	remMap := T("map", "", nil, mapK)
	e.Hooks[e.ShortName(c.P.Method("jsonTokenizer", "Step"))] = d.stepper(src)
	sizes := []int{len(d.bs)}
	switch buffer {
	case "large":
		sizes = []int{len(d.bs) + 7}
	case "small":
		sizes = nil
		for i := 0; i < len(d.bs) && i < 40; i++ {
			sizes = append(sizes, i)
		}
	}
	st.Ghost["src"], st.Ghost["remove"], st.Ghost["removed"] = src, rem, remMap
	for _, size := range sizes {
		s0 := st.Clone()
		dst := Nil
		if buffer != "none" {
			var junk []*V
			for i := 0; i < size; i++ {
				junk = append(junk, Sym(fmt.Sprintf("old%d", i), byteT))
			}
			dst = e.NewSlice(s0, "dst", byteT, junk)
		} else {
			remMap = Nil
		}
		s0.Ghost["dst"] = dst
		for _, f := range e.Call(c.fn("MatchAndRemoveItemsFromJsonObject"), s0, []*V{src, rem, dst, remMap}) {
			w := e.Pos(InstrPos(f.Instr))
			if f.Panic {
				c.Bad(key, w, "removing members never fails", what+": "+f.What, e.TraceLines(f.St, 20))
				continue
			}
			failed := errKind(f.St, TupleAt(f.Ret, 3))
			if failed == 0 {
				c.Undec("%s: %s: error or not?", key, what)
				continue
			}
			for _, o := range d.without(f.St, v, remove) {
				d.judge(key, w, what, size, o, f, failed < 0, dst, remMap)
			}
		}
		c.takeUndec(e)
	}
}

func (d *rdoc) String() string {
	var sb strings.Builder
	for _, b := range d.bs {
		if n, ok := b.Int(); ok {
			sb.WriteByte(byte(n))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

func (d *rdoc) judge(key, w, what string, size int, o rout, f *Final, failed bool, dst, remMap *V) {
	c, e := d.c, d.e
	bad := func(format string, a ...interface{}) {
		var ks []string
		for i, t := range d.toks {
			if t.tok == "tknString" && i+1 < len(d.toks) && d.toks[i+1].tok == "tknObjectKeyDelim" {
				ks = append(ks, d.see(o.st, t.bs))
			}
		}
		c.Bad(key, w, c14rule, fmt.Sprintf("%s (keys %s): ", what, strings.Join(ks, " "))+fmt.Sprintf(format, a...), e.TraceLines(f.St, 20))
	}
	if size < len(o.bs) && !dst.IsNil() {
		if !failed {
			bad("a buffer of %d bytes is accepted where %d are needed", size, len(o.bs))
		} else {
			c.Ok("%s: too small, reported", key)
		}
		return
	}
	if failed {
		if size < len(d.bs) && !dst.IsNil() {
			c.Ok("%s: a buffer smaller than the document may be refused", key)
			return
		}
		bad("fails")
		return
	}
	h := &heap{c: c, e: e}
	n, ok := TupleAt(f.Ret, 0).Int()
	if !ok {
		c.Undec("%s: the length is not known", key)
		return
	}
	// what is written, white space between tokens aside
	if !dst.IsNil() {
		if n < 0 || n > int64(size) {
			bad("reports %d bytes", n)
			return
		}
		var got []*V
		for i := int64(0); i < n; i++ {
			b := h.elem(f.St, dst, CInt(i), byteT)
			if k, isC := b.Int(); isC && (k == ' ' || k == '\n' || k == '\t') {
				continue
			}
			got = append(got, b)
		}
		same := len(got) == len(o.bs)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == o.bs[i] || c.eqv(o.st, got[i], o.bs[i])
		}
		if !same {
			bad("leaves %s, should be %s", d.see(o.st, got), d.see(o.st, o.bs))
			return
		}
	} else if n < int64(len(o.bs)) || n > int64(len(d.bs)) {
		bad("reports %d bytes, should be %d", n, len(o.bs))
		return
	}
	if k, ok := TupleAt(f.Ret, 1).Int(); !ok || int(k) != o.removed {
		bad("reports %s members removed, should be %d", TupleAt(f.Ret, 1), o.removed)
		return
	}
	left := f.St.Facts.Eval(TupleAt(f.Ret, 2))
	if left != 0 && left > 0 != o.left {
		bad("reports members left: %v", left > 0)
		return
	}
	if !remMap.IsNil() {
		m := e.MapContent(f.St, remMap)
		if !m.Args[0].IsNil() {
			c.Undec("%s: the removed members are not known", key)
			return
		}
		seen := map[string]bool{}
		for i := 1; i+1 < len(m.Args); i += 2 {
			k, ok := m.Args[i].Str()
			if !ok {
				c.Undec("%s: a removed key is not known", key)
				return
			}
			v := o.vals[k]
			if v == nil {
				bad("reports %q removed", k)
				return
			}
			seen[k] = true
			var want, got []*V
			for i := d.toks[d.first[v]].start; i < d.toks[d.last[v]].end; i++ {
				want = append(want, d.bs[i])
			}
			_, _, ln, _ := SliceParts(m.Args[i+1])
			k2, ok := ln.Int()
			if !ok {
				c.Undec("%s: a removed value's length is not known", key)
				return
			}
			for i2 := int64(0); i2 < k2; i2++ {
				b := h.elem(f.St, m.Args[i+1], CInt(i2), byteT)
				if x, isC := b.Int(); isC && len(got) == 0 && (x == ' ' || x == '\n' || x == '\t') {
					continue // white space before the value
				}
				got = append(got, b)
			}
			same := len(got) == len(want)
			for i := 0; same && i < len(got); i++ {
				same = got[i] == want[i] || c.eqv(o.st, got[i], want[i])
			}
			if !same {
				bad("reports %q removed with %s, should be %s", k, d.see(o.st, got), d.see(o.st, want))
				return
			}
		}
		if len(seen) != len(o.vals) {
			bad("reports %d keys removed, should be %d", len(seen), len(o.vals))
			return
		}
	}
	c.Ok("%s: the rest is left", key)
}

func (d *rdoc) see(st *State, bs []*V) string {
	var sb strings.Builder
	for _, b := range bs {
		if n, ok := b.Int(); ok {
			sb.WriteByte(byte(n))
		} else if n, ok := st.Facts.Dom(b).IsSingle(); ok {
			sb.WriteByte(byte(n.Int64()))
		} else if strings.HasPrefix(b.String(), "old") {
			sb.WriteString("<unwritten>")
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// removalErrors: any tokens, and a tokenizer that fails.
func (c *Check) removalErrors() {
	key := "any tokens"
	e := c.removalEngine(&key)
	m := &matEnv{heap: heap{c: c, e: e}}
	tokT := c.lookupType("tokenType")
	errT := types.Universe.Lookup("error").Type()
	src := Sym("src", types.NewSlice(byteT))
	for steps := 1; steps <= 4; steps++ {
		st := e.NewState()
		_, _, n, _ := SliceParts(src)
		st.Facts.Assume(Cmp(tGEQ, n, CInt(64), intT()), true)
		st.Ghost["src"] = src
		rem := e.NewSlice(st, "remove", types.Typ[types.String], []*V{CStr("k")})
		st.Ghost["remove"] = rem
		tT := c.lookupType("jsonTokenizer")
		h := &heap{c: c, e: e}
		e.Hooks[e.ShortName(c.P.Method("jsonTokenizer", "Step"))] = func(x *CallCtx, s *State) ([]Out, bool) {
			k := int64(0)
			if g := s.Ghost["step"]; g != nil {
				k, _ = g.Int()
			}
			var outs []Out
			if int(k) < steps {
				a := s.Clone()
				a.Ghost["step"] = CInt(k + 1)
				tk := Sym(fmt.Sprintf("token%d", k), tokT)
				var set ISet
				first := true
				for _, nm := range c.P.SSA.Pkg.Scope().Names() {
					if strings.HasPrefix(nm, "tkn") {
						if v, ok := constVal(c.P, nm).Int(); ok {
							if first {
								set, first = RangeI(v, v), false
							} else {
								set = set.Union(RangeI(v, v))
							}
						}
					}
				}
				a.Facts.Restrict(tk, set)
				sp, so, _, sc := SliceParts(src)
				h.set(a, x.Args[0], tT, "pos", CInt((k+1)*3))
				outs = append(outs, Out{a, Tuple(tk, MkSlice(sp, AddI(so, k*3), CInt(3), sc), CInt(3), Nil)})
				b := s.Clone()
				b.Ghost["failed"] = True
				ev := Sym("?tokenizer error", errT)
				b.Facts.Assume(IsNilCond(ev), false)
				outs = append(outs, Out{b, Tuple(Zero, Nil, Zero, ev)})
			} else {
				a := s.Clone()
				outs = append(outs, Out{a, Tuple(c.konst("tknEnd"), Nil, Zero, Nil)})
			}
			return outs, true
		}
		_ = m
		for _, f := range e.Call(c.fn("MatchAndRemoveItemsFromJsonObject"), st, []*V{src, rem, Nil, Nil}) {
			w := e.Pos(InstrPos(f.Instr))
			switch {
			case f.Panic:
				c.Bad(key, w, "removing members never fails", f.What, e.TraceLines(f.St, 20))
			case f.St.Ghost["failed"] != nil && errKind(f.St, TupleAt(f.Ret, 3)) > 0:
				c.Bad(key, w, "an error of the tokenizer is reported", "the document is accepted although it cannot be read", e.TraceLines(f.St, 20))
			default:
				c.Ok("%s: no fault", key)
			}
		}
		c.takeUndec(e)
	}
}
