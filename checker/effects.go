package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A whole-program points-to and write-effect analysis (inclusion based, field
// sensitive, one call site of context, call graph built on the fly). Memory
// that exists before the entry points run (package variables, the arguments)
// is represented by self-contained objects: whatever is loaded from one of
// them is again that object.

// eobj is an abstract memory object.
type eobj struct {
	id   int
	kind string // alloc, box, fn, global, arg, ext
	name string
	typ  types.Type
	self bool // loads give the object itself as well
	fn   *ssa.Function
	at   token.Pos
}

type eloc struct {
	o    *eobj
	path string
}

type locset map[eloc]bool

type ectx struct {
	fn *ssa.Function
	cs string // calling site
}

type enode struct {
	set  locset
	subs []*enode // every member flows on to these
	in   bool     // queued
	todo []eloc
	hook []func(eloc)
}

type effects struct {
	c       *Check
	nodes   map[string]*enode
	objs    map[string]*eobj
	queue   []*enode
	done    map[ectx]bool
	calledP map[ectx]ectx      // first caller
	calledA map[ectx]token.Pos // first call site
	writes  map[string]*ewrite
	fnDone  map[string]bool
	nid     int
	ids     map[ssa.Value]int
	unk     map[string]bool
	leafC   map[types.Type][]string
	nsites  map[token.Pos]bool
}

type ewrite struct {
	pos  token.Pos
	cx   ectx
	what string
	to   map[*eobj]bool
}

func newEffects(c *Check) *effects {
	return &effects{c: c, nodes: map[string]*enode{}, objs: map[string]*eobj{}, done: map[ectx]bool{}, calledP: map[ectx]ectx{}, calledA: map[ectx]token.Pos{},
		writes: map[string]*ewrite{}, fnDone: map[string]bool{}, ids: map[ssa.Value]int{}, unk: map[string]bool{}, leafC: map[types.Type][]string{}, nsites: map[token.Pos]bool{}}
}

func (a *effects) obj(kind, name string, t types.Type, self bool) *eobj {
	k := kind + "|" + name
	o := a.objs[k]
	if o == nil {
		o = &eobj{id: len(a.objs), kind: kind, name: name, typ: t, self: self}
		a.objs[k] = o
	}
	return o
}

func (a *effects) vid(v ssa.Value) int {
	n, ok := a.ids[v]
	if !ok {
		n = len(a.ids) + 1
		a.ids[v] = n
	}
	return n
}

func (a *effects) node(k string) *enode {
	n := a.nodes[k]
	if n == nil {
		n = &enode{set: locset{}}
		a.nodes[k] = n
	}
	return n
}

// val is the node of one pointer leaf of a register.
func (a *effects) val(cx ectx, v ssa.Value, leaf string) *enode {
	switch x := v.(type) {
	case *ssa.Global:
		n := a.node(fmt.Sprintf("g%s|%s", x.String(), leaf))
		a.add(n, eloc{a.obj("global", x.String(), x.Type(), true), ""})
		return n
	case *ssa.Function:
		n := a.node(fmt.Sprintf("f%s|%s", x.String(), leaf))
		o := a.obj("fn", x.String(), x.Type(), false)
		o.fn = x
		a.add(n, eloc{o, ""})
		return n
	case *ssa.Const, *ssa.Builtin:
		return a.node("none")
	}
	return a.node(fmt.Sprintf("v%d|%s|%s", a.vid(v), cx.cs, leaf))
}

func (a *effects) mem(o *eobj, path string) *enode {
	if o.self {
		path = "*"
	}
	n := a.node(fmt.Sprintf("o%d|%s", o.id, path))
	if o.self && !n.set[eloc{o, ""}] {
		a.add(n, eloc{o, ""})
	}
	return n
}

func (a *effects) add(n *enode, l eloc) {
	if l.o.self {
		l.path = ""
	}
	if n.set[l] {
		return
	}
	n.set[l] = true
	n.todo = append(n.todo, l)
	if !n.in {
		n.in = true
		a.queue = append(a.queue, n)
	}
}

func (a *effects) flow(from, to *enode) {
	if from == to {
		return
	}
	for _, s := range from.subs {
		if s == to {
			return
		}
	}
	from.subs = append(from.subs, to)
	for l := range from.set {
		a.add(to, l)
	}
}

func (a *effects) each(n *enode, f func(eloc)) {
	n.hook = append(n.hook, f)
	var ls []eloc
	for l := range n.set {
		ls = append(ls, l)
	}
	for _, l := range ls {
		f(l)
	}
}

func (a *effects) solve() {
	for len(a.queue) > 0 {
		n := a.queue[len(a.queue)-1]
		a.queue = a.queue[:len(a.queue)-1]
		n.in = false
		t := n.todo
		n.todo = nil
		for _, l := range t {
			for _, s := range n.subs {
				a.add(s, l)
			}
			for i := 0; i < len(n.hook); i++ {
				n.hook[i](l)
			}
		}
	}
}

// leaves are the pointer-like parts of a type.
func (a *effects) leaves(t types.Type) []string {
	if l, ok := a.leafC[t]; ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []string{""}
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		out = []string{""}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range a.leaves(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, l))
			}
		}
	case *types.Array:
		for _, l := range a.leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range a.leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, l))
			}
		}
	}
	a.leafC[t] = out
	return out
}

func (a *effects) load(cx ectx, ptr *enode, sub string, t types.Type, dst func(leaf string) *enode) {
	for _, l := range a.leaves(t) {
		l := l
		d := dst(l)
		a.each(ptr, func(p eloc) { a.flow(a.mem(p.o, p.path+sub+l), d) })
	}
}

func (a *effects) store(ptr *enode, sub string, t types.Type, src func(leaf string) *enode) {
	for _, l := range a.leaves(t) {
		l := l
		s := src(l)
		a.each(ptr, func(p eloc) {
			if p.o.kind != "fn" {
				a.flow(s, a.mem(p.o, p.path+sub+l))
			}
		})
	}
}

// wrote records that an instruction writes the memory ptr points to.
func (a *effects) wrote(cx ectx, pos token.Pos, what string, ptr *enode) {
	a.nsites[pos] = true
	a.each(ptr, func(l eloc) {
		k := fmt.Sprintf("%d|%s|%s|%s", pos, cx.fn.String(), cx.cs, what)
		w := a.writes[k]
		if w == nil {
			w = &ewrite{pos: pos, cx: cx, what: what, to: map[*eobj]bool{}}
			a.writes[k] = w
		}
		w.to[l.o] = true
	})
}

// run analyses a function in a calling context.
func (a *effects) run(cx ectx, from ectx, at token.Pos) {
	if a.done[cx] {
		return
	}
	a.done[cx] = true
	if from.fn != nil {
		a.calledP[cx] = from
		a.calledA[cx] = at
	}
	for _, b := range cx.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(cx, in)
		}
	}
}

func (a *effects) newObj(cx ectx, kind string, in ssa.Value, t types.Type) *eobj {
	o := a.obj(kind, fmt.Sprintf("%d|%s", a.vid(in), cx.cs), t, false)
	o.at = in.Pos()
	return o
}

func (a *effects) instr(cx ectx, in ssa.Instruction) {
	V := func(v ssa.Value) func(string) *enode { return func(l string) *enode { return a.val(cx, v, l) } }
	copyAll := func(src, dst ssa.Value) {
		for _, l := range a.leaves(dst.Type()) {
			a.flow(a.val(cx, src, l), a.val(cx, dst, l))
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.val(cx, x, ""), eloc{a.newObj(cx, "alloc", x, x.Type()), ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.add(a.val(cx, v, ""), eloc{a.newObj(cx, "alloc", v, v.Type()), ""})
	case *ssa.MakeInterface:
		o := a.newObj(cx, "box", x, x.X.Type())
		a.add(a.val(cx, x, ""), eloc{o, ""})
		for _, l := range a.leaves(x.X.Type()) {
			a.flow(a.val(cx, x.X, l), a.mem(o, l))
		}
	case *ssa.MakeClosure:
		o := a.newObj(cx, "fn", x, x.Type())
		o.fn = x.Fn.(*ssa.Function)
		a.add(a.val(cx, x, ""), eloc{o, ""})
		for i, b := range x.Bindings {
			for _, l := range a.leaves(b.Type()) {
				a.flow(a.val(cx, b, l), a.mem(o, fmt.Sprintf("^%d%s", i, l)))
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			copyAll(e, x)
		}
	case *ssa.ChangeType:
		copyAll(x.X, x)
	case *ssa.ChangeInterface:
		copyAll(x.X, x)
	case *ssa.SliceToArrayPointer:
		copyAll(x.X, x)
	case *ssa.Convert:
		st, dt := x.X.Type().Underlying(), x.Type().Underlying()
		if _, ok := dt.(*types.Slice); ok {
			if _, ok := st.(*types.Basic); ok { // string to bytes
				a.add(a.val(cx, x, ""), eloc{a.newObj(cx, "alloc", x, x.Type()), ""})
				return
			}
		}
		if b, ok := st.(*types.Basic); ok && b.Kind() == types.Uintptr && len(a.leaves(dt)) > 0 {
			a.unk["conversion of an integer to a pointer at "+a.c.at(x.Pos())] = true
		}
		copyAll(x.X, x)
	case *ssa.Field:
		for _, l := range a.leaves(x.Type()) {
			a.flow(a.val(cx, x.X, fmt.Sprintf(".%d%s", x.Field, l)), a.val(cx, x, l))
		}
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			for _, l := range a.leaves(x.Type()) {
				a.flow(a.val(cx, x.X, "[]"+l), a.val(cx, x, l))
			}
		}
	case *ssa.FieldAddr:
		d := a.val(cx, x, "")
		a.each(a.val(cx, x.X, ""), func(l eloc) { a.add(d, eloc{l.o, fmt.Sprintf("%s.%d", l.path, x.Field)}) })
	case *ssa.IndexAddr:
		d := a.val(cx, x, "")
		a.each(a.val(cx, x.X, ""), func(l eloc) { a.add(d, eloc{l.o, elemPath(l.path)}) })
	case *ssa.Slice:
		a.flow(a.val(cx, x.X, ""), a.val(cx, x, ""))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.load(cx, a.val(cx, x.X, ""), "", x.Type(), V(x))
		case token.ARROW:
			pre := ""
			t := x.Type()
			if x.CommaOk {
				pre = "#0"
				t = t.(*types.Tuple).At(0).Type()
			}
			a.load(cx, a.val(cx, x.X, ""), "[]", t, func(l string) *enode { return a.val(cx, x, pre+l) })
		}
	case *ssa.Store:
		p := a.val(cx, x.Addr, "")
		a.store(p, "", x.Val.Type(), V(x.Val))
		a.wrote(cx, posOf(x), "stores through "+exprAt(x.Addr), p)
	case *ssa.MapUpdate:
		m := a.val(cx, x.Map, "")
		a.store(m, "[k]", x.Key.Type(), V(x.Key))
		a.store(m, "[v]", x.Value.Type(), V(x.Value))
		a.wrote(cx, posOf(x), "stores into a map", m)
	case *ssa.Send:
		a.store(a.val(cx, x.Chan, ""), "[]", x.X.Type(), V(x.X))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		pre := ""
		t := x.Type()
		if x.CommaOk {
			pre = "#0"
			t = t.(*types.Tuple).At(0).Type()
		}
		a.load(cx, a.val(cx, x.X, ""), "[v]", t, func(l string) *enode { return a.val(cx, x, pre+l) })
	case *ssa.Range:
		a.flow(a.val(cx, x.X, ""), a.val(cx, x, ""))
	case *ssa.Next:
		if x.IsString {
			return
		}
		tt := x.Type().(*types.Tuple)
		for i, s := range []string{"[k]", "[v]"} {
			pre := fmt.Sprintf("#%d", i+1)
			a.load(cx, a.val(cx, x.Iter, ""), s, tt.At(i+1).Type(), func(l string) *enode { return a.val(cx, x, pre+l) })
		}
	case *ssa.Extract:
		for _, l := range a.leaves(x.Type()) {
			a.flow(a.val(cx, x.Tuple, fmt.Sprintf("#%d%s", x.Index, l)), a.val(cx, x, l))
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		src := a.val(cx, x.X, "")
		if types.IsInterface(x.AssertedType) {
			d := a.val(cx, x, pre)
			a.each(src, func(l eloc) {
				if l.o.kind == "box" && !types.Implements(l.o.typ, x.AssertedType.Underlying().(*types.Interface)) {
					return
				}
				a.add(d, l)
			})
			return
		}
		for _, lf := range a.leaves(x.AssertedType) {
			lf := lf
			d := a.val(cx, x, pre+lf)
			a.each(src, func(l eloc) {
				if l.o.kind == "box" && types.Identical(l.o.typ, x.AssertedType) || l.o.self && l.o.kind == "box" || l.o.self && !a.hidden(x.AssertedType) {
					a.flow(a.mem(l.o, lf), d)
				}
			})
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for _, l := range a.leaves(r.Type()) {
				k := l
				if len(x.Results) > 1 {
					k = fmt.Sprintf("#%d%s", i, l)
				}
				a.flow(a.val(cx, r, l), a.ret(cx, k))
			}
		}
	case *ssa.Call:
		a.call(cx, x, x.Common(), x)
	case *ssa.Defer:
		a.call(cx, x, x.Common(), nil)
	case *ssa.Go:
		a.call(cx, x, x.Common(), nil)
	case *ssa.Select:
		a.unk["select at "+a.c.at(x.Pos())] = true
	}
}

// hidden types cannot be made by a caller outside of the package.
func (a *effects) hidden(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == a.c.P.SSA.Pkg && !n.Obj().Exported()
}

func elemPath(p string) string {
	// the elements of an array are one; nested arrays stay finite since paths
	// follow the type of the object
	if strings.Count(p, "[]") > 8 {
		return p
	}
	return p + "[]"
}

func (a *effects) ret(cx ectx, leaf string) *enode {
	return a.node(fmt.Sprintf("r%s|%s|%s", cx.fn.String(), cx.cs, leaf))
}

func posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return in.Parent().Pos()
}

// exprAt describes the place an address denotes.
func exprAt(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return "package variable " + x.Name()
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return "field " + st.Underlying().(*types.Struct).Field(x.Field).Name() + " of a " + types.TypeString(st, short)
	case *ssa.IndexAddr:
		return "an element of a " + types.TypeString(x.X.Type(), short)
	}
	return "a " + types.TypeString(v.Type(), short)
}

func short(p *types.Package) string { return "" }

// enter connects a call with the function called.
func (a *effects) enter(cx ectx, in ssa.CallInstruction, fn *ssa.Function, args []func(string) *enode, fo *eobj, res ssa.Value) {
	if len(fn.Blocks) == 0 || !a.inside(fn) {
		a.external(cx, in, fn, args, res)
		return
	}
	cc := ectx{fn, fmt.Sprintf("%s@%d", cx.fn.Name(), in.Pos())}
	if fn.Synthetic != "" { // wrappers keep the context of their caller
		cc.cs = cx.cs + "/" + fmt.Sprint(in.Pos())
	}
	for i, p := range fn.Params {
		if i < len(args) {
			for _, l := range a.leaves(p.Type()) {
				a.flow(args[i](l), a.val(cc, p, l))
			}
		}
	}
	for i, fv := range fn.FreeVars {
		for _, l := range a.leaves(fv.Type()) {
			if fo != nil {
				a.flow(a.mem(fo, fmt.Sprintf("^%d%s", i, l)), a.val(cc, fv, l))
			}
		}
	}
	if res != nil {
		for _, l := range a.leaves(res.Type()) {
			a.flow(a.ret(cc, l), a.val(cx, res, l))
		}
	}
	a.run(cc, cx, in.Pos())
}

// inside reports whether a function's body is part of the analysis.
func (a *effects) inside(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == a.c.P.SSA {
		return true
	}
	if fn.Pkg == nil { // wrappers and instances
		if o := fn.Origin(); o != nil && o != fn {
			return o.Pkg == a.c.P.SSA || o.Pkg != nil && (o.Pkg.Pkg.Path() == "slices" || o.Pkg.Pkg.Path() == "maps")
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil && o.Pkg() != a.c.P.SSA.Pkg {
			return false
		}
		return true
	}
	return false
}

func (a *effects) call(cx ectx, in ssa.CallInstruction, cc *ssa.CallCommon, res ssa.Value) {
	var args []func(string) *enode
	for _, v := range cc.Args {
		v := v
		args = append(args, func(l string) *enode { return a.val(cx, v, l) })
	}
	if cc.IsInvoke() {
		seen := map[*ssa.Function]bool{}
		it := cc.Value.Type().Underlying().(*types.Interface)
		a.each(a.val(cx, cc.Value, ""), func(l eloc) {
			if l.o.kind == "box" {
				if m := a.method(l.o.typ, cc.Method); m != nil {
					o := l.o
					recv := func(lf string) *enode { return a.mem(o, lf) }
					a.enter(cx, in, m, append([]func(string) *enode{recv}, args...), nil, res)
				}
				return
			}
			if !l.o.self {
				return
			}
			// a value from outside: any type that implements the interface
			for _, t := range a.impls(it) {
				m := a.method(t, cc.Method)
				if m == nil || seen[m] {
					continue
				}
				seen[m] = true
				o := l.o
				a.enter(cx, in, m, append([]func(string) *enode{func(lf string) *enode { return a.mem(o, lf) }}, args...), nil, res)
			}
			if res != nil {
				for _, lf := range a.leaves(res.Type()) {
					a.add(a.val(cx, res, lf), eloc{l.o, ""})
				}
			}
		})
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		a.builtin(cx, in, f.Name(), cc, args, res)
		return
	case *ssa.Function:
		a.enter(cx, in, f, args, nil, res)
		return
	}
	a.each(a.val(cx, cc.Value, ""), func(l eloc) {
		if l.o.kind == "fn" {
			a.enter(cx, in, l.o.fn, args, l.o, res)
		} else if l.o.self {
			// any function of that type whose address is taken
			for _, f := range a.taken(cc.Signature()) {
				a.enter(cx, in, f, args, nil, res)
			}
		}
	})
}

// taken lists the functions of a type that are used as values.
func (a *effects) taken(sig *types.Signature) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, fn := range a.c.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || seen[f] || !types.Identical(f.Signature, sig) || f.Signature.Recv() != nil {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == *op {
						continue
					}
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (a *effects) method(t types.Type, m *types.Func) *ssa.Function {
	ms := a.c.P.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return a.c.P.Prog.MethodValue(sel)
}

// impls are the package's types that implement an interface.
func (a *effects) impls(it *types.Interface) []types.Type {
	var out []types.Type
	sc := a.c.P.SSA.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if _, g := tn.Type().(*types.Named); !g {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if p := types.NewPointer(tn.Type()); types.Implements(p, it) {
			out = append(out, p)
		}
	}
	return out
}

func (a *effects) builtin(cx ectx, in ssa.CallInstruction, name string, cc *ssa.CallCommon, args []func(string) *enode, res ssa.Value) {
	switch name {
	case "append":
		d := a.val(cx, res, "")
		src := args[0]("")
		o := a.newObj(cx, "alloc", res, res.Type())
		a.add(d, eloc{o, ""})
		a.flow(src, d)
		et := res.Type().Underlying().(*types.Slice).Elem()
		self := a.node(fmt.Sprintf("self|o%d", o.id))
		a.add(self, eloc{o, ""})
		move := func(from *enode) {
			for _, l := range a.leaves(et) {
				l := l
				a.each(from, func(p eloc) {
					a.each(d, func(q eloc) { a.flow(a.mem(p.o, p.path+"[]"+l), a.mem(q.o, q.path+"[]"+l)) })
				})
			}
		}
		move(src)
		if len(args) > 1 {
			if _, isSlice := cc.Args[1].Type().Underlying().(*types.Slice); isSlice {
				move(args[1](""))
			}
		}
		if !capped(cc.Args[0]) {
			a.wrote(cx, in.Pos(), "appends in place to a "+types.TypeString(cc.Args[0].Type(), short), src)
		}
	case "copy":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		for _, l := range a.leaves(et) {
			l := l
			a.each(args[1](""), func(p eloc) {
				a.each(args[0](""), func(q eloc) { a.flow(a.mem(p.o, p.path+"[]"+l), a.mem(q.o, q.path+"[]"+l)) })
			})
		}
		a.wrote(cx, in.Pos(), "copies into a "+types.TypeString(cc.Args[0].Type(), short), args[0](""))
	case "delete", "clear":
		a.wrote(cx, in.Pos(), name+" on a "+types.TypeString(cc.Args[0].Type(), short), args[0](""))
	case "recover":
		if res != nil {
			a.add(a.val(cx, res, ""), eloc{a.obj("ext", "recovered value", nil, true), ""})
		}
	case "Slice", "SliceData", "Add", "String", "StringData":
		if res != nil && len(a.leaves(res.Type())) > 0 {
			if len(a.leaves(cc.Args[0].Type())) > 0 {
				a.flow(args[0](""), a.val(cx, res, ""))
			} else {
				a.unk["pointer into a string at "+a.c.at(in.Pos())] = true
			}
		}
	case "ssa:wrapnilchk":
		for _, l := range a.leaves(res.Type()) {
			a.flow(args[0](l), a.val(cx, res, l))
		}
	case "min", "max", "len", "cap", "print", "println", "panic", "real", "imag", "complex", "close":
	default:
		a.unk["builtin "+name+" at "+a.c.at(in.Pos())] = true
	}
}

// capped: a slice without spare capacity, or nil.
func capped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if x.Max == nil {
			return false
		}
		if x.Max == x.High {
			return true
		}
		m, ok1 := x.Max.(*ssa.Const)
		h, ok2 := x.High.(*ssa.Const)
		return ok1 && ok2 && m.Value != nil && h.Value != nil && constant.Compare(m.Value, token.EQL, h.Value)
	}
	return false
}

// external models a function outside of the package: it may write what its
// name says it writes, its results may share memory with its arguments.
func (a *effects) external(cx ectx, in ssa.CallInstruction, fn *ssa.Function, args []func(string) *enode, res ssa.Value) {
	pkg, name := "", fn.Name()
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg, name = o.Pkg.Pkg.Path(), o.Name()
	}
	full := pkg + "." + name
	recv := fn.Signature.Recv() != nil
	if recv {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		full = pkg + "." + types.TypeString(rt, short) + "." + name
	}
	extMem := a.obj("ext", "memory made by "+full, nil, true)
	for _, i := range extWrites(pkg, name, full, recv) {
		if i >= len(args) || i >= len(fn.Params) && i >= fn.Signature.Params().Len()+1 {
			continue
		}
		var t types.Type
		if recv {
			if i == 0 {
				t = fn.Signature.Recv().Type()
			} else {
				t = fn.Signature.Params().At(i - 1).Type()
			}
		} else {
			t = fn.Signature.Params().At(i).Type()
		}
		for _, l := range a.leaves(t) {
			n := args[i](l)
			mark := func(n *enode) {
				a.wrote(cx, in.Pos(), "passes it to "+full+", which writes it", n)
				a.each(n, func(p eloc) {
					if !p.o.self && p.o.kind != "fn" {
						// whatever it stores there is its own
						p.o.self = true
						a.add(a.mem(p.o, "*"), eloc{extMem, ""})
						a.reself(p.o)
					}
				})
			}
			if types.IsInterface(t) {
				a.each(n, func(p eloc) {
					if p.o.kind == "box" {
						for _, l2 := range a.leaves(p.o.typ) {
							mark(a.mem(p.o, l2))
						}
					} else {
						x := a.node(fmt.Sprintf("one|%d|%s", p.o.id, p.path))
						a.add(x, p)
						mark(x)
					}
				})
				continue
			}
			mark(n)
		}
	}
	// functions and methods it may call back
	for i := range args {
		var t types.Type
		k := i
		if recv {
			k--
		}
		if k < 0 {
			continue
		}
		if k >= fn.Signature.Params().Len() {
			continue
		}
		t = fn.Signature.Params().At(k).Type()
		if _, ok := t.Underlying().(*types.Signature); ok {
			a.each(args[i](""), func(l eloc) {
				if l.o.kind == "fn" && a.inside(l.o.fn) {
					var as []func(string) *enode
					for range l.o.fn.Params {
						n := a.node("ext|" + full)
						a.add(n, eloc{extMem, ""})
						for j := range args {
							if j != i {
								a.flow(args[j](""), n)
							}
						}
						as = append(as, func(string) *enode { return n })
					}
					a.enter(cx, in, l.o.fn, as, l.o, nil)
				}
			})
		}
		boxes := func(n *enode) {
			a.each(n, func(l eloc) {
				if l.o.kind != "box" {
					return
				}
				ms := a.c.P.Prog.MethodSets.MethodSet(l.o.typ)
				for j := 0; j < ms.Len(); j++ {
					f := ms.At(j).Obj().(*types.Func)
					nm := f.Name()
					_, isIface := t.Underlying().(*types.Interface)
					declared := false
					if isIface {
						m := t.Underlying().(*types.Interface)
						for q := 0; q < m.NumMethods(); q++ {
							declared = declared || m.Method(q).Name() == nm
						}
					}
					if !declared && nm != "String" && nm != "Error" && nm != "GoString" && nm != "Format" && nm != "MarshalJSON" && nm != "UnmarshalJSON" {
						continue
					}
					if m := a.c.P.Prog.MethodValue(ms.At(j)); m != nil && a.inside(m) {
						o := l.o
						as := []func(string) *enode{func(lf string) *enode { return a.mem(o, lf) }}
						for q := 1; q < len(m.Params); q++ {
							n := a.node("ext|" + full)
							a.add(n, eloc{extMem, ""})
							as = append(as, func(string) *enode { return n })
						}
						a.enter(cx, in, m, as, nil, nil)
					}
				}
			})
		}
		switch u := t.Underlying().(type) {
		case *types.Interface:
			boxes(args[i](""))
		case *types.Slice:
			if types.IsInterface(u.Elem()) {
				a.each(args[i](""), func(l eloc) { boxes(a.mem(l.o, l.path+"[]")) })
			}
		}
	}
	if res == nil {
		return
	}
	for _, l := range a.leaves(res.Type()) {
		r := a.val(cx, res, l)
		o := a.obj("ext", fmt.Sprintf("%s#%d|%s", full, a.vid(res), cx.cs), nil, true)
		a.add(r, eloc{o, ""})
		if pkg == "fmt" || pkg == "errors" {
			continue
		}
		for i := range args {
			a.each(args[i](""), func(p eloc) {
				if p.o.kind == "box" {
					for _, l2 := range a.leaves(p.o.typ) {
						a.flow(a.mem(p.o, l2), r)
					}
				}
				a.add(r, p)
			})
		}
	}
}

// reself gives everything already known about an object the collapsed reading.
func (a *effects) reself(o *eobj) {
	pre := fmt.Sprintf("o%d|", o.id)
	all := a.mem(o, "*")
	var ks []string
	for k := range a.nodes {
		if strings.HasPrefix(k, pre) && k != pre+"*" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a.flow(a.nodes[k], all)
		a.flow(all, a.nodes[k])
	}
}

// extWrites lists the arguments (receiver first) an outside function writes.
func extWrites(pkg, name, full string, recv bool) []int {
	pre := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	switch pkg {
	case "strconv":
		if pre("Append") {
			return []int{0}
		}
	case "unicode/utf8":
		if pre("EncodeRune", "AppendRune") {
			return []int{0}
		}
	case "sort":
		if pre("Search", "Find") || strings.HasSuffix(name, "IsSorted") || strings.HasSuffix(name, "AreSorted") || name == "Reverse" {
			return nil
		}
		return []int{0}
	case "fmt":
		if pre("Fprint", "Append") {
			return []int{0}
		}
		if pre("Sscan", "Fscan", "Scan") {
			return []int{1, 2, 3}
		}
	case "bytes":
		if recv {
			if pre("Len", "Cap", "Bytes", "String", "Available") {
				return nil
			}
			if pre("Read") {
				return []int{0, 1}
			}
			return []int{0}
		}
	case "strings":
		if recv {
			if pre("Len", "Cap", "String") {
				return nil
			}
			return []int{0}
		}
	case "sync", "sync/atomic":
		if pre("Load", "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "Do", "Get", "Put", "Range", "Wait", "Add", "Done") && pkg == "sync" {
			return nil
		}
		if pre("Load") {
			return nil
		}
		return []int{0}
	case "encoding/json", "encoding/gob", "encoding/xml":
		if pre("Unmarshal") {
			return []int{1}
		}
		if pre("Compact", "Indent", "HTMLEscape") {
			return []int{0}
		}
		if pre("Decode") {
			return []int{0, 1}
		}
	case "encoding/binary", "encoding/hex", "encoding/base64":
		if pre("Put", "Append", "Encode", "Decode") {
			if recv {
				return []int{1}
			}
			return []int{0}
		}
		if pre("Read") {
			return []int{2}
		}
	case "io":
		if pre("Read", "Write", "Copy") {
			return []int{0, 1}
		}
	case "math/rand", "crypto/rand":
		if pre("Read", "Shuffle") {
			return []int{0}
		}
	case "time":
		if pre("Append") {
			return []int{1}
		}
		if recv && pre("Unmarshal", "GobDecode", "Reset", "Stop") {
			return []int{0}
		}
	case "regexp":
		if recv && pre("Expand") {
			return []int{1}
		}
		if recv && pre("Longest") {
			return []int{0}
		}
	case "math/big":
		if recv && pre("Set", "Add", "Sub", "Mul", "Quo", "Div", "Mod", "Rem", "Exp", "Neg", "Abs", "Lsh", "Rsh", "And", "Or", "Xor", "Not", "Sqrt", "Scan", "Parse") {
			return []int{0}
		}
	case "reflect":
		if recv && pre("Set") {
			return []int{0}
		}
		if pre("Copy", "Swapper") {
			return []int{0}
		}
	case "slices":
		if pre("Sort", "Reverse", "Insert", "Delete", "Replace", "Compact") {
			return []int{0}
		}
	case "maps":
		if pre("Copy", "DeleteFunc", "Insert") {
			return []int{0}
		}
	}
	return nil
}

// path is the chain of calls that first reaches a function.
func (a *effects) path(cx ectx) []string {
	var out []string
	for i := 0; i < 40; i++ {
		p, ok := a.calledP[cx]
		if !ok {
			break
		}
		out = append([]string{fmt.Sprintf("%s: %s calls %s", a.c.at(a.calledA[cx]), fnName(p.fn), fnName(cx.fn))}, out...)
		cx = p
	}
	return out
}

func fnName(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.RelString(f.Pkg.Pkg)
	}
	return f.Name()
}

// at is a source position.
func (c *Check) at(p token.Pos) string {
	q := c.P.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// judge compares every write found with what may be written.
func (a *effects) judge(rule string, bad func(o *eobj) string) {
	c := a.c
	var ks []string
	for k := range a.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	failed := map[token.Pos]bool{}
	for _, k := range ks {
		w := a.writes[k]
		var os []*eobj
		for o := range w.to {
			os = append(os, o)
		}
		sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
		for _, o := range os {
			if m := bad(o); m != "" {
				failed[w.pos] = true
				c.Bad(fnName(w.cx.fn), c.at(w.pos), rule, fmt.Sprintf("%s %s, which may be %s", fnName(w.cx.fn), w.what, m), a.path(w.cx))
			}
		}
	}
	var ps []token.Pos
	for p := range a.nsites {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	for _, p := range ps {
		if !failed[p] {
			c.Ok("write at %s: %s", c.at(p), rule)
		}
	}
	fns := map[string]bool{}
	for cx := range a.done {
		fns[fnName(cx.fn)] = true
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	c.Cov["functions_analysed"] = fl
	c.Cov["calling_contexts"] = len(a.done)
	c.Cov["write_sites"] = len(a.nsites)
	c.Cov["memory_objects"] = len(a.objs)
	var us []string
	for u := range a.unk {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		c.Undec("%s", u)
	}
}

// entry analyses one entry point; arg says what each parameter points to.
func (a *effects) entry(name string, fn *ssa.Function, arg func(i int, p *ssa.Parameter, leaf string) []*eobj) ectx {
	cx := ectx{fn, "entry"}
	for i, p := range fn.Params {
		for _, l := range a.leaves(p.Type()) {
			for _, o := range arg(i, p, l) {
				a.add(a.val(cx, p, l), eloc{o, ""})
			}
		}
	}
	a.run(cx, ectx{}, token.NoPos)
	a.solve()
	return cx
}

// matching analyses the life of one matcher: made from a shared definition,
// then any of its exported methods.
func (a *effects) matching(def, doc *eobj) int {
	c := a.c
	nm := c.fn("NewFastMatcher")
	cx := a.entry("NewFastMatcher", nm, func(i int, p *ssa.Parameter, l string) []*eobj { return []*eobj{def} })
	n := 1
	own := a.obj("arg", "other arguments", nil, true)
	ms := c.P.Prog.MethodSets.MethodSet(types.NewPointer(c.lookupType("FastMatcher")))
	var names []string
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if !f.Exported() {
			continue
		}
		m := c.P.Prog.MethodValue(ms.At(i))
		n++
		names = append(names, f.Name())
		a.entry(f.Name(), m, func(i int, p *ssa.Parameter, l string) []*eobj {
			if i == 0 {
				a.flow(a.ret(cx, ""), a.val(ectx{m, "entry"}, p, l))
				return nil
			}
			if s, ok := p.Type().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return []*eobj{doc}
				}
			}
			return []*eobj{own}
		})
	}
	for _, want := range []string{"Match", "Reset"} {
		found := false
		for _, x := range names {
			found = found || x == want
		}
		if !found {
			panic(missing("FastMatcher." + want))
		}
	}
	return n
}
