package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// missing is the panic value used when an anchor of a check is not in the code.
type missing string

// heap builds and reads abstract program states by name.
type heap struct {
	c  *Check
	e  *Engine
	st *State
}

func (c *Check) lookupType(name string) types.Type {
	t := c.P.Type(name)
	if t == nil {
		panic(missing("type " + name))
	}
	return t
}

// method finds the SSA function of "Type.name" or "name".
func (c *Check) fn(name string) *ssa.Function {
	var f *ssa.Function
	if i := strings.Index(name, "."); i >= 0 {
		f = c.P.Method(name[:i], name[i+1:])
	} else {
		f = c.P.Func(name)
	}
	if f == nil {
		panic(missing("function " + name))
	}
	return f
}

func (c *Check) konst(name string) *V {
	v := constVal(c.P, name)
	if v == nil {
		panic(missing("constant " + name))
	}
	return v
}

// fieldPath resolves a (possibly embedded) field.
func (c *Check) fieldPath(t types.Type, name string) ([]int, types.Type) {
	o, idx, _ := types.LookupFieldOrMethod(t, true, c.P.SSA.Pkg, name)
	v, ok := o.(*types.Var)
	if !ok {
		panic(missing(fmt.Sprintf("field %s of %s", name, t)))
	}
	return idx, v.Type()
}

// fieldPtr extends a location of type t to a field; path may have dots.
func (c *Check) fieldPtr(p *V, t types.Type, path string) (*V, types.Type) {
	p = PtrTo(p, t)
	for _, name := range strings.Split(path, ".") {
		idx, ft := c.fieldPath(t, name)
		for _, i := range idx {
			p = ExtendPtr(p, PF(i, t))
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		t = ft
	}
	return p, t
}

func (h *heap) get(st *State, p *V, t types.Type, path string) *V {
	q, ft := h.c.fieldPtr(p, t, path)
	return h.e.Load(st, q, ft)
}

func (h *heap) set(st *State, p *V, t types.Type, path string, v *V) {
	q, ft := h.c.fieldPtr(p, t, path)
	h.e.Store(st, q, ft, v)
}

// fieldOf projects a field (possibly embedded) out of a struct value.
func (c *Check) fieldOf(v *V, t types.Type, path string) *V {
	for _, name := range strings.Split(path, ".") {
		idx, ft := c.fieldPath(t, name)
		for _, i := range idx {
			f := t.Underlying().(*types.Struct).Field(i)
			v = StructField(v, i, f.Type())
			t = f.Type()
		}
		t = ft
	}
	return v
}

// withField replaces a field in a struct value.
func (c *Check) withField(v *V, t types.Type, name string, nv *V) *V {
	idx, _ := c.fieldPath(t, name)
	return withIdx(v, t, idx, nv)
}

func withIdx(v *V, t types.Type, idx []int, nv *V) *V {
	s := t.Underlying().(*types.Struct)
	f := s.Field(idx[0])
	if len(idx) > 1 {
		nv = withIdx(StructField(v, idx[0], f.Type()), f.Type(), idx[1:], nv)
	}
	return StructWith(v, s, t, idx[0], nv)
}

// read / write an element of a slice value.
func (h *heap) elem(st *State, slice *V, idx *V, et types.Type) *V {
	p, off, _, _ := SliceParts(slice)
	if p.IsNil() {
		return ZeroVal(et)
	}
	return h.e.Load(st, ExtendPtr(p, PI(Add(off, idx), et)), et)
}

func (h *heap) setElem(st *State, slice *V, idx *V, et types.Type, v *V) {
	p, off, _, _ := SliceParts(slice)
	h.e.Store(st, ExtendPtr(p, PI(Add(off, idx), et)), et, v)
}

func intT() types.Type { return types.Typ[types.Int] }

func eqI(a, b *V) *V { return Cmp(token.EQL, a, b, intT()) }

// distinct assumes the terms pairwise different.
func distinct(st *State, xs ...*V) {
	for i := range xs {
		for j := i + 1; j < len(xs); j++ {
			st.Facts.Assume(eqI(xs[i], xs[j]), false)
		}
	}
}

func within(st *State, n *V, xs ...*V) {
	for _, x := range xs {
		st.Facts.Assume(Cmp(token.GEQ, x, Zero, intT()), true)
		st.Facts.Assume(Cmp(token.LSS, x, n, intT()), true)
	}
}

func (c *Check) isTrue(st *State, cond *V) bool { return st.Facts.Eval(cond) > 0 }

// calls runs fn and separates normal outcomes from panics.
func (h *heap) calls(fn *ssa.Function, st *State, args ...*V) (ok, bad []*Final) {
	for _, f := range h.e.Call(fn, st.Clone(), args) {
		if f.Panic {
			bad = append(bad, f)
		} else {
			ok = append(ok, f)
		}
	}
	return
}

// TupleAt is a component of a multi-valued result.
func TupleAt(v *V, i int) *V {
	if v.Op == "tuple" {
		return v.Args[i]
	}
	return v
}
