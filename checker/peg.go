package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"text/scanner"

	. "verifcheck/absint"
)

// A model of the grammar formalism the filter language is declared in: the
// tags of the struct types are read as participle (v0.7) reads them, and a
// sequence of tokens is parsed as its parser does - ordered alternatives,
// limited lookahead, captures applied when a struct is complete. What a
// grammar means is thereby derived from its declaration.

// tok is a token; its text is a constant or a symbol.
type tok struct {
	typ rune
	val *V
	s   string // the text, when it is known
	sym bool
}

func (t *tok) String() string {
	switch t.typ {
	case scanner.String:
		return strconv.Quote(t.s)
	case scanner.RawString:
		return "`" + t.s + "`"
	case scanner.Char:
		return "'" + t.s + "'"
	}
	return t.s
}

// known token: its text matters.
func tk(typ rune, s string) *tok { return &tok{typ: typ, s: s, val: CStr(s)} }

// symbolic token: its text is different from that of every literal.
func tkS(typ rune, name string) *tok {
	return &tok{typ: typ, s: name, sym: true, val: Sym("?"+name, types.Typ[types.String])}
}

// words makes tokens of the space separated parts of s; keywords are Idents.
func words(s string) []*tok {
	var out []*tok
	for _, w := range strings.Fields(s) {
		if len(w) == 1 && !(w[0] >= 'A' && w[0] <= 'Z' || w[0] >= 'a' && w[0] <= 'z') {
			out = append(out, tk(rune(w[0]), w))
		} else {
			out = append(out, tk(scanner.Ident, w))
		}
	}
	return out
}

func toksString(ts []*tok) string {
	var l []string
	for _, t := range ts {
		l = append(l, t.String())
	}
	return strings.Join(l, " ")
}

// pInst is an instance of a grammar struct.
type pInst struct {
	typ    types.Type
	fields map[int]*pField
}

// pField is the content of a field that was set.
type pField struct {
	inst *pInst   // pointer to struct
	list []*pInst // slice of pointers to structs
	vals []*V     // slice of scalars
	v    *V       // (pointer to) scalar
}

// pVal is what a node of the grammar yields.
type pVal struct {
	inst *pInst
	tok  *tok
}

type pErr struct{ msg string }

type pCtx struct {
	toks              []*tok
	cursor            int
	lookahead         int
	deepestErrorDepth int
	apply             []pSet
	g                 *grammar
	steps             *int
}

type pSet struct {
	inst  *pInst
	field int
	vals  []pVal
}

func (c *pCtx) peek() *tok {
	if c.cursor < len(c.toks) {
		return c.toks[c.cursor]
	}
	return nil
}

func (c *pCtx) branch() *pCtx {
	b := *c
	b.apply = nil
	return &b
}

func (c *pCtx) accept(b *pCtx) {
	c.apply = append(c.apply, b.apply...)
	c.cursor = b.cursor
	if b.deepestErrorDepth >= c.deepestErrorDepth {
		c.deepestErrorDepth = b.deepestErrorDepth
	}
}

func (c *pCtx) maybeUpdate() {
	if c.cursor >= c.deepestErrorDepth {
		c.deepestErrorDepth = c.cursor
	}
}

func (c *pCtx) stop(b *pCtx) bool {
	if b.cursor >= c.deepestErrorDepth {
		c.deepestErrorDepth = b.cursor
		if b.deepestErrorDepth > c.deepestErrorDepth {
			c.deepestErrorDepth = b.deepestErrorDepth
		}
	}
	if b.cursor > c.cursor+c.lookahead {
		c.accept(b)
		return true
	}
	return false
}

func (c *pCtx) doApply() *pErr {
	for _, a := range c.apply {
		if err := c.g.set(a); err != nil {
			return err
		}
	}
	c.apply = nil
	return nil
}

// pNode is a node of a grammar.
type pNode interface {
	parse(c *pCtx, parent *pInst) ([]pVal, *pErr)
}

type nStruct struct {
	typ  types.Type
	expr pNode
}
type nGroup struct {
	expr pNode
	mode rune // 0 once, ? * + !
}
type nAlt struct{ nodes []pNode }
type nSeq struct{ nodes []pNode }
type nCapture struct {
	field int
	node  pNode
}
type nRef struct{ typ rune }
type nLit struct {
	s string
	t rune
}
type nNot struct{ node pNode }

// unsupported is the panic for a construct the model does not know.
type unsupported string

func (n *nStruct) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	if *c.steps++; *c.steps > 200000 {
		panic(unsupported("the grammar does not terminate"))
	}
	sv := &pInst{typ: n.typ, fields: map[int]*pField{}}
	out, err := n.expr.parse(c, sv)
	if err != nil {
		c.doApply()
		c.maybeUpdate()
		return []pVal{{inst: sv}}, err
	}
	if out == nil {
		return nil, nil
	}
	return []pVal{{inst: sv}}, c.doApply()
}

func (n *nGroup) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	min, max := 1, 1
	switch n.mode {
	case '!':
		out, err := n.expr.parse(c, parent)
		if err == nil && len(out) == 0 {
			err = &pErr{"empty"}
		}
		return out, err
	case 0:
		return n.expr.parse(c, parent)
	case '?':
		min = 0
	case '*':
		min, max = 0, 1000
	case '+':
		max = 1000
	}
	var out []pVal
	matches := 0
	for ; matches < max; matches++ {
		b := c.branch()
		v, err := n.expr.parse(b, parent)
		out = append(out, v...)
		if err != nil {
			c.maybeUpdate()
			if c.stop(b) {
				return out, err
			}
			break
		}
		c.accept(b)
		if v == nil {
			break
		}
	}
	if matches < min {
		return out, &pErr{"must match at least once"}
	}
	if min == 0 && out == nil {
		out = []pVal{}
	}
	return out, nil
}

func (n *nAlt) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	deepest := 0
	var first *pErr
	var firstVals []pVal
	for _, a := range n.nodes {
		b := c.branch()
		v, err := a.parse(b, parent)
		if err != nil {
			if c.stop(b) {
				return v, err
			}
			if b.cursor >= deepest {
				first, firstVals, deepest = err, v, b.cursor
			}
		} else if v != nil {
			if b.cursor == c.cursor {
				// the parser panics, which becomes an error
				panic(&pErr{"accepted without progress"})
			}
			c.accept(b)
			return v, nil
		}
	}
	if first != nil {
		c.maybeUpdate()
		return firstVals, first
	}
	return nil, nil
}

func (n *nSeq) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	var out []pVal
	for i, k := range n.nodes {
		v, err := k.parse(c, parent)
		out = append(out, v...)
		if err != nil {
			return out, err
		}
		if v == nil {
			if i == 0 {
				return nil, nil
			}
			return out, &pErr{"unexpected token"}
		}
	}
	return out, nil
}

func (n *nCapture) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	v, err := n.node.parse(c, parent)
	if err != nil {
		if v != nil {
			c.apply = append(c.apply, pSet{parent, n.field, v})
		}
		return []pVal{{inst: parent}}, err
	}
	if v == nil {
		return nil, nil
	}
	c.apply = append(c.apply, pSet{parent, n.field, v})
	return []pVal{{inst: parent}}, nil
}

func (n *nRef) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	t := c.peek()
	if t == nil || t.typ != n.typ {
		return nil, nil
	}
	c.cursor++
	return []pVal{{tok: t}}, nil
}

func (n *nLit) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	t := c.peek()
	if t == nil || t.sym || t.s != n.s || n.t != -1 && n.t != t.typ {
		return nil, nil
	}
	c.cursor++
	return []pVal{{tok: t}}, nil
}

func (n *nNot) parse(c *pCtx, parent *pInst) ([]pVal, *pErr) {
	t := c.peek()
	if t == nil {
		return nil, nil
	}
	out, err := n.node.parse(c.branch(), parent)
	if out != nil && err == nil {
		return nil, &pErr{"unexpected token"}
	}
	c.cursor++
	return []pVal{{tok: t}}, nil
}

// grammar is the grammar declared by a struct type.
type grammar struct {
	pkg   *types.Package
	nodes map[string]*nStruct
	root  pNode
}

func derefT(t types.Type) types.Type {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return t
		}
	}
}

var symbolTypes = map[string]rune{"EOF": scanner.EOF, "Char": scanner.Char, "Ident": scanner.Ident, "Int": scanner.Int, "Float": scanner.Float,
	"String": scanner.String, "RawString": scanner.RawString, "Comment": scanner.Comment}

type tagTok struct {
	typ   rune
	s     string
	field int
}

// tags lexes the grammar of a struct.
func tagToks(st *types.Struct) []tagTok {
	var out []tagTok
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			panic(unsupported("embedded grammar struct"))
		}
		if !f.Exported() {
			continue
		}
		tag := st.Tag(i)
		if p, ok := reflect.StructTag(tag).Lookup("parser"); ok {
			tag = p
		}
		var s scanner.Scanner
		s.Init(strings.NewReader(tag))
		s.Error = func(*scanner.Scanner, string) {}
		for t := s.Scan(); t != scanner.EOF; t = s.Scan() {
			x := s.TokenText()
			switch t {
			case scanner.Char:
				x = `"` + x[1:len(x)-1] + `"`
				fallthrough
			case scanner.String:
				u, err := strconv.Unquote(x)
				if err != nil {
					panic(unsupported("tag " + tag))
				}
				x = u
			case scanner.RawString:
				x = x[1 : len(x)-1]
			}
			out = append(out, tagTok{t, x, i})
		}
	}
	return out
}

type tagParser struct {
	g    *grammar
	st   *types.Struct
	toks []tagTok
	i    int
}

func (p *tagParser) peek() tagTok {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return tagTok{typ: scanner.EOF}
}

func (p *tagParser) next() tagTok {
	t := p.peek()
	p.i++
	return t
}

func (p *tagParser) want(r rune) {
	if p.next().typ != r {
		panic(unsupported(fmt.Sprintf("malformed grammar: %q expected", r)))
	}
}

func (g *grammar) typ(t types.Type) pNode {
	t = derefT(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("grammar of " + t.String()))
	}
	k := t.String()
	if n := g.nodes[k]; n != nil {
		return n
	}
	for _, m := range []string{"Parse", "Capture", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, g.pkg, m); o != nil {
			panic(unsupported("type with its own " + m))
		}
	}
	n := &nStruct{typ: t}
	g.nodes[k] = n
	p := &tagParser{g: g, st: st, toks: tagToks(st)}
	n.expr = p.alt()
	if p.i < len(p.toks) {
		panic(unsupported("malformed grammar of " + k))
	}
	return n
}

func (p *tagParser) alt() pNode {
	var l []pNode
	for {
		l = append(l, p.seq())
		if p.peek().typ != '|' {
			break
		}
		p.next()
	}
	if len(l) == 1 {
		return l[0]
	}
	return &nAlt{l}
}

func (p *tagParser) seq() pNode {
	var l []pNode
	for p.peek().typ != scanner.EOF {
		t := p.term()
		if t == nil {
			break
		}
		switch m := p.peek().typ; m {
		case '!', '+', '*', '?':
			p.next()
			t = &nGroup{t, m}
		}
		l = append(l, t)
	}
	switch len(l) {
	case 0:
		panic(unsupported("empty alternative in the grammar"))
	case 1:
		return l[0]
	}
	return &nSeq{l}
}

func (p *tagParser) term() pNode {
	switch t := p.peek(); t.typ {
	case '@':
		p.next()
		t = p.peek()
		if t.typ == '@' {
			p.next()
			return &nCapture{t.field, p.g.typ(p.st.Field(t.field).Type())}
		}
		return &nCapture{t.field, p.term()}
	case scanner.String, scanner.RawString, scanner.Char:
		p.next()
		n := &nLit{t.s, -1}
		if k := p.peek(); k.s == ":" && (k.typ == ':' || k.typ == scanner.Char) {
			p.next()
			typ, ok := symbolTypes[p.next().s]
			if !ok {
				panic(unsupported("token type in the grammar"))
			}
			n.t = typ
		}
		return n
	case '!':
		p.next()
		return &nNot{p.term()}
	case '[', '{', '(':
		p.next()
		e := p.alt()
		p.want(map[rune]rune{'[': ']', '{': '}', '(': ')'}[t.typ])
		return &nGroup{e, map[rune]rune{'[': '?', '{': '*', '(': 0}[t.typ]}
	case scanner.Ident:
		p.next()
		typ, ok := symbolTypes[t.s]
		if !ok {
			panic(unsupported("token type in the grammar"))
		}
		return &nRef{typ}
	}
	return nil
}

// set stores captured values in a field.
func (g *grammar) set(a pSet) *pErr {
	st := a.inst.typ.Underlying().(*types.Struct)
	ft := st.Field(a.field).Type()
	if p, ok := ft.(*types.Pointer); ok {
		ft = p.Elem()
	}
	f := a.inst.fields[a.field]
	if f == nil {
		f = &pField{}
		a.inst.fields[a.field] = f
	}
	for _, m := range []string{"Capture", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(ft, true, g.pkg, m); o != nil {
			panic(unsupported("type with its own " + m))
		}
	}
	switch u := ft.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			for _, v := range a.vals {
				sc, err := scalar(b, []pVal{v})
				if err != nil {
					return err
				}
				f.vals = append(f.vals, sc)
			}
			return nil
		}
		if _, ok := u.Elem().(*types.Pointer); !ok {
			panic(unsupported("slice of " + u.Elem().String()))
		}
		for _, v := range a.vals {
			f.list = append(f.list, v.inst)
		}
		return nil
	case *types.Struct:
		if len(a.vals) != 1 || a.vals[0].inst == nil {
			panic(unsupported("struct captured from tokens"))
		}
		n := a.vals[0].inst
		c := &pInst{typ: n.typ, fields: map[int]*pField{}}
		for k, v := range n.fields {
			w := *v
			c.fields[k] = &w
		}
		f.inst = c
		return nil
	case *types.Basic:
		v, err := scalar(u, a.vals)
		if err != nil {
			return err
		}
		if u.Info()&types.IsString != 0 && f.v != nil {
			o, ok := f.v.Str()
			s, ok2 := v.Str()
			if !ok || !ok2 {
				panic(unsupported("concatenated texts"))
			}
			v = CStr(o + s)
		}
		f.v = v
		return nil
	}
	panic(unsupported("field of type " + ft.String()))
}

// scalar converts captured tokens.
func scalar(b *types.Basic, vals []pVal) (*V, *pErr) {
	for _, v := range vals {
		if v.tok == nil {
			panic(unsupported("scalar captured from a struct"))
		}
	}
	t := vals[0].tok
	switch {
	case b.Info()&types.IsBoolean != 0:
		return True, nil
	case b.Info()&types.IsString != 0:
		if len(vals) > 1 {
			panic(unsupported("several tokens in one text"))
		}
		return t.val, nil
	case len(vals) > 1:
		panic(unsupported("several tokens in one number"))
	case b.Info()&types.IsInteger != 0:
		if t.sym {
			if t.typ != scanner.Int {
				return nil, &pErr{"invalid integer"}
			}
			return Sym("?"+t.s, b), nil
		}
		n, err := strconv.ParseInt(t.s, 0, 64)
		if err != nil {
			return nil, &pErr{"invalid integer"}
		}
		return CInt(n), nil
	case b.Info()&types.IsFloat != 0:
		if t.sym {
			if t.typ != scanner.Int && t.typ != scanner.Float {
				return nil, &pErr{"invalid float"}
			}
			return Sym("?"+t.s, b), nil
		}
		n, err := strconv.ParseFloat(t.s, 64)
		if err != nil {
			return nil, &pErr{"invalid float"}
		}
		return CFloat(n), nil
	}
	panic(unsupported("field of type " + b.String()))
}

func newGrammar(pkg *types.Package, t types.Type) (g *grammar, why string) {
	defer func() {
		if u, ok := recover().(unsupported); ok {
			g, why = nil, string(u)
		}
	}()
	g = &grammar{pkg: pkg, nodes: map[string]*nStruct{}}
	g.root = g.typ(t)
	return g, ""
}

// parse parses a token sequence; nil: it is rejected.
func (g *grammar) parse(ts []*tok, lookahead int) (inst *pInst, why string) {
	defer func() {
		r := recover()
		if u, ok := r.(unsupported); ok {
			inst, why = nil, string(u)
		} else if _, ok := r.(*pErr); ok {
			inst, why = nil, ""
		} else if r != nil {
			panic(r)
		}
	}()
	n := 0
	c := &pCtx{toks: ts, lookahead: lookahead, g: g, steps: &n}
	v, err := g.root.parse(c, nil)
	if err != nil || v == nil || c.peek() != nil {
		return nil, ""
	}
	return v[0].inst, ""
}

// value builds the parsed struct in the abstract heap.
func (m *exprs) instance(st *State, in *pInst) *V {
	v := ZeroVal(in.typ)
	s := in.typ.Underlying().(*types.Struct)
	ptr := func(t types.Type, v *V) *V {
		m.n++
		return m.e.NewObj(st, "node"+strconv.Itoa(m.n), t, v)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := in.fields[i]
		if f == nil {
			continue
		}
		ft := s.Field(i).Type()
		var fv *V
		switch u := ft.(type) {
		case *types.Pointer:
			if f.inst != nil {
				fv = ptr(u.Elem(), m.instance(st, f.inst))
			} else {
				fv = ptr(u.Elem(), f.v)
			}
		case *types.Slice:
			if f.vals != nil {
				fv = m.slice(st, u.Elem(), f.vals)
				break
			}
			var l []*V
			for _, k := range f.list {
				l = append(l, ptr(k.typ, m.instance(st, k)))
			}
			fv = m.slice(st, u.Elem(), l)
		default:
			if f.inst != nil {
				fv = m.instance(st, f.inst)
			} else {
				fv = f.v
			}
		}
		v = StructWith(v, s, in.typ, i, fv)
	}
	return v
}
