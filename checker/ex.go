package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	. "verifcheck/absint"
)

// X is an expression of the rule language, as the checks build and read it.
type X struct {
	Kind string // type name without "Expr"; Field, Value, Func, ...
	Kids []*X
	Name string   // function name, or text of a value
	Root int64    // variable: of a field, or bound by a loop
	Path []string // of a field
	V    *V       // payload of a value
}

func (x *X) String() string {
	if x == nil {
		return "?"
	}
	var ks []string
	for _, k := range x.Kids {
		ks = append(ks, k.String())
	}
	a := strings.Join(ks, ", ")
	switch x.Kind {
	case "Field":
		return fmt.Sprintf("$%d.%s", x.Root, strings.Join(x.Path, "."))
	case "Value", "Regex", "Pcre", "Time":
		return x.Kind + " " + x.Name
	case "Func":
		return x.Name + "(" + a + ")"
	case "AnyIn", "EveryIn", "AnyEveryIn":
		return fmt.Sprintf("%s $%d (%s)", x.Kind, x.Root, a)
	}
	return x.Kind + "(" + a + ")"
}

func xF(root int64, path ...string) *X { return &X{Kind: "Field", Root: root, Path: path} }
func xV(n string) *X                   { return &X{Kind: "Value", Name: n} }
func x1(k string, a *X) *X             { return &X{Kind: k, Kids: []*X{a}} }
func x2(k string, a, b *X) *X          { return &X{Kind: k, Kids: []*X{a, b}} }
func xN(k string, as ...*X) *X         { return &X{Kind: k, Kids: as} }
func xL(k string, v int64, in, sub *X) *X {
	return &X{Kind: k, Root: v, Kids: []*X{in, sub}}
}
func xFn(n string, as ...*X) *X { return &X{Kind: "Func", Name: n, Kids: as} }

var cmpKinds = []string{"Equals", "NotEquals", "LessThan", "LessEquals", "GreaterThan", "GreaterEquals", "Like"}
var loopKinds = []string{"AnyIn", "EveryIn", "AnyEveryIn"}

// exprs builds and reads expression values of the program.
type exprs struct {
	heap
	exprT types.Type
	n     int
}

func newExprs(c *Check, e *Engine) *exprs {
	return &exprs{heap: heap{c: c, e: e}, exprT: c.lookupType("Expression")}
}

func (m *exprs) slice(st *State, et types.Type, vals []*V) *V {
	m.n++
	return m.e.NewSlice(st, "expr"+strconv.Itoa(m.n), et, vals)
}

func (m *exprs) strs(st *State, ss []string) *V {
	var vs []*V
	for _, s := range ss {
		if strings.HasPrefix(s, "?") {
			vs = append(vs, Sym(s, types.Typ[types.String]))
		} else {
			vs = append(vs, CStr(s))
		}
	}
	return m.slice(st, types.Typ[types.String], vs)
}

// build makes the interface value of an expression.
func (m *exprs) build(st *State, x *X) *V {
	t := m.c.lookupType(x.Kind + "Expr")
	var kids []*V
	for _, k := range x.Kids {
		kids = append(kids, m.build(st, k))
	}
	v := ZeroVal(t)
	f := func(n string, nv *V) { v = m.c.withField(v, t, n, nv) }
	switch x.Kind {
	case "Field":
		f("Root", CInt(x.Root))
		f("Path", m.strs(st, x.Path))
	case "Value":
		f("Value", m.payload(x))
	case "Regex":
		f("Regex", m.payload(x))
	case "Pcre":
		f("Pcre", m.payload(x))
	case "Time":
		f("Time", m.payload(x))
	case "Func":
		f("FuncName", CStr(x.Name))
		f("Params", m.slice(st, m.exprT, kids))
	case "And", "Or":
		v = m.slice(st, m.exprT, kids)
	case "Not", "Exists", "NotExists":
		f("SubExpr", kids[0])
	case "AnyIn", "EveryIn", "AnyEveryIn":
		f("VarId", CInt(x.Root))
		f("InExpr", kids[0])
		f("SubExpr", kids[1])
	case "True", "False":
	default:
		f("Lhs", kids[0])
		f("Rhs", kids[1])
	}
	return Iface(t, v)
}

func (m *exprs) payload(x *X) *V {
	if x.V != nil {
		return x.V
	}
	if x.Kind != "Value" {
		return Iface(types.Typ[types.String], Sym("text "+x.Name, types.Typ[types.String]))
	}
	return Iface(types.Typ[types.Int64], Sym("value "+x.Name, types.Typ[types.Int64]))
}

// list reads the elements of a slice of known length.
func (m *exprs) list(st *State, s *V, et types.Type) ([]*V, bool) {
	if s.IsNil() {
		return nil, true
	}
	_, _, n, _ := SliceParts(s)
	k, ok := n.Int()
	if !ok || k > 64 {
		return nil, false
	}
	var out []*V
	for i := int64(0); i < k; i++ {
		out = append(out, m.elem(st, s, CInt(i), et))
	}
	return out, true
}

func (m *exprs) strList(st *State, s *V) ([]string, bool) {
	l, ok := m.list(st, s, types.Typ[types.String])
	if !ok {
		return nil, false
	}
	var out []string
	for _, v := range l {
		out = append(out, strOf(st, v))
	}
	return out, true
}

// strOf names a string term: its text, or the symbol.
func strOf(st *State, v *V) string {
	if s, ok := st.Facts.StrConst(v); ok {
		return s
	}
	if v.Op == "sym" {
		return v.Aux
	}
	return v.String()
}

// read turns an expression value back into X; nil when it has no known shape.
func (m *exprs) read(st *State, v *V) *X {
	if v.Op != "iface" {
		return nil
	}
	n := types.TypeString(v.Typ, func(*types.Package) string { return "" })
	if !strings.HasSuffix(n, "Expr") || strings.HasPrefix(n, "*") {
		return nil
	}
	x := &X{Kind: strings.TrimSuffix(n, "Expr")}
	t, p := v.Typ, v.Args[0]
	f := func(name string) *V { return m.c.fieldOf(p, t, name) }
	kid := func(v *V) bool {
		k := m.read(st, v)
		x.Kids = append(x.Kids, k)
		return k != nil
	}
	ok := true
	switch x.Kind {
	case "Field":
		r, isInt := f("Root").Int()
		x.Root = r
		x.Path, ok = m.strList(st, f("Path"))
		ok = ok && isInt
	case "Value", "Regex", "Pcre", "Time":
		x.V = f(x.Kind)
		x.Name = m.payloadName(st, x.V)
	case "Func":
		var l []*V
		x.Name = strOf(st, f("FuncName"))
		l, ok = m.list(st, f("Params"), m.exprT)
		for _, k := range l {
			ok = kid(k) && ok
		}
	case "And", "Or":
		var l []*V
		l, ok = m.list(st, p, m.exprT)
		for _, k := range l {
			ok = kid(k) && ok
		}
	case "Not", "Exists", "NotExists":
		ok = kid(f("SubExpr"))
	case "AnyIn", "EveryIn", "AnyEveryIn":
		r, isInt := f("VarId").Int()
		x.Root = r
		ok = kid(f("InExpr")) && kid(f("SubExpr")) && isInt
	case "True", "False":
	default:
		ok = kid(f("Lhs")) && kid(f("Rhs"))
	}
	if !ok {
		return nil
	}
	return x
}

func (m *exprs) payloadName(st *State, v *V) string {
	if v.Op == "iface" {
		v = v.Args[0]
	}
	if v.Op == "sym" {
		return strings.TrimPrefix(strings.TrimPrefix(v.Aux, "value "), "text ")
	}
	return strOf(st, v)
}

// mapEntries lists a map of known contents.
func (m *exprs) mapEntries(st *State, mv *V) (keys []string, vals []*V, ok bool) {
	if mv.IsNil() {
		return nil, nil, true
	}
	c := m.e.MapContent(st, mv)
	if !c.Args[0].IsNil() {
		return nil, nil, false
	}
	type kv struct {
		k string
		v *V
	}
	var l []kv
	for i := 1; i+1 < len(c.Args); i += 2 {
		l = append(l, kv{strOf(st, c.Args[i]), c.Args[i+1]})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	for _, e := range l {
		keys, vals = append(keys, e.k), append(vals, e.v)
	}
	return keys, vals, true
}
