package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = c06
	checks["C07"] = c07
}

// C06: matching writes no shared state.
func c06(c *Check) {
	c.Cov["rule"] = "points-to and write-effect analysis of everything reachable from the matcher's constructor and exported methods; no store, map update, append, copy or writing library call may reach a package variable, the compiled definition or the document"
	c.Assume = append(c.Assume, "functions of the standard library write only the arguments their documentation names")
	a := newEffects(c)
	def := a.obj("arg", "the compiled definition", nil, true)
	doc := a.obj("arg", "the document", nil, true)
	c.Cov["entry_points"] = a.matching(def, doc)
	a.judge("matching writes only memory of its own", func(o *eobj) string {
		switch {
		case o == def:
			return "the compiled definition, which is shared between matchers"
		case o == doc:
			return "the document"
		case o.kind == "global":
			return "memory reachable from package variable " + o.name
		}
		return ""
	})
}

// C07: documents and expressions are never modified.
func c07(c *Check) {
	c.Cov["rule"] = "points-to and write-effect analysis of everything reachable from the matching, key-removal and compilation entry points; no store, map update, append, copy or writing library call may reach the document or the expressions passed in"
	c.Assume = append(c.Assume, "functions of the standard library write only the arguments their documentation names")
	a := newEffects(c)
	def := a.obj("arg", "the compiled definition", nil, true)
	doc := a.obj("arg", "the document", nil, true)
	exprs := a.obj("arg", "the expressions", nil, true)
	n := a.matching(def, doc)
	own := a.obj("arg", "other arguments", nil, true)
	exprI := c.lookupType("Expression")
	iface := exprI.Underlying().(*types.Interface)
	isExpr := func(t types.Type) bool {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if types.Identical(t, exprI) {
			return true
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() == c.P.SSA.Pkg && strings.HasSuffix(n.Obj().Name(), "Expr") && types.Implements(t, iface)
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	// which byte slices are documents, by entry point
	docs := map[string]int{"MatchAndRemoveItemsFromJsonObject": 0, "ParseJsonExpression": 0}
	for nm := range docs {
		c.fn(nm)
	}
	fmT := c.lookupType("FastMatcher")
	var entries []*ssa.Function
	for _, f := range c.P.AllFuncs() {
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		want := false
		k := -1
		if f.Signature.Recv() == nil {
			if i, ok := docs[f.Name()]; ok {
				want, k = true, i
			}
		} else {
			rt := f.Signature.Recv().Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			if types.Identical(rt, fmT) {
				continue
			}
			// another matcher: its document and its expressions
			if f.Name() == "Match" && f.Signature.Params().Len() == 1 && isBytes(f.Signature.Params().At(0).Type()) {
				want, k = true, 1
			}
		}
		for i, p := range f.Params {
			if (i > 0 || f.Signature.Recv() == nil) && isExpr(p.Type()) {
				want = true
			}
		}
		if !want {
			continue
		}
		entries = append(entries, f)
		f2 := f
		a.entry(f.Name(), f, func(i int, p *ssa.Parameter, l string) []*eobj {
			switch {
			case i == k && isBytes(p.Type()):
				return []*eobj{doc}
			case isExpr(p.Type()) && (i > 0 || f2.Signature.Recv() == nil):
				return []*eobj{exprs}
			case i == 0 && f2.Signature.Recv() != nil && k == 1:
				// a matcher made from expressions
				rt := p.Type()
				if q, ok := rt.(*types.Pointer); ok {
					rt = q.Elem()
				}
				if n, ok := rt.(*types.Named); ok {
					if mk := c.P.SSA.Func("New" + n.Obj().Name()); mk != nil {
						mcx := a.entry(mk.Name(), mk, func(int, *ssa.Parameter, string) []*eobj { return []*eobj{exprs} })
						a.flow(a.ret(mcx, l), a.val(ectx{f2, "entry"}, p, l))
						return nil
					}
				}
				return []*eobj{own}
			case i == 0 && f2.Signature.Recv() != nil:
				o := a.obj("alloc", "receiver of "+f2.Name(), p.Type(), false)
				return []*eobj{o}
			}
			return []*eobj{own}
		})
	}
	var names []string
	for _, f := range entries {
		names = append(names, fnName(f))
	}
	c.Cov["entry_points"] = n + len(entries)
	c.Cov["compilation_entry_points"] = names
	a.judge("arguments are only read", func(o *eobj) string {
		switch o {
		case doc:
			return "the caller's document"
		case exprs:
			return "the caller's expressions"
		}
		return ""
	})
}
