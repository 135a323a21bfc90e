package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// C05: Reset.
//
// A new matcher is built by the constructor; then everything it owns is
// overwritten with unknown values (what any history may have left), Reset is
// interpreted, and a document is started on it. Everything it owns must be
// what it is for a new matcher at the same point.

func init() { checks["C05"] = c05 }

type ownLoc struct {
	name string
	ptr  *V
	typ  types.Type
}

type owned struct {
	heap
	locs []ownLoc
	seen map[string]bool
	skip map[string]bool // types that belong to the definition
}

// collect lists the scalar locations owned through a location of a type.
func (o *owned) collect(st *State, name string, p *V, t types.Type, depth int) {
	if depth > 8 || o.skip[types.TypeString(t, func(*types.Package) string { return "" })] {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			o.collect(st, name+"."+f.Name(), ExtendPtr(PtrTo(p, t), PF(i, t)), f.Type(), depth+1)
		}
		return
	case *types.Pointer:
		if o.skip[types.TypeString(u.Elem(), func(*types.Package) string { return "" })] {
			return // into the definition: set once, by the constructor
		}
		v := o.e.Load(st, p, t)
		if v.Op == "ptr" {
			k := v.String()
			if !o.seen[k] {
				o.seen[k] = true
				o.collect(st, name+".*", v, u.Elem(), depth+1)
			}
			return
		}
	case *types.Slice:
		v := o.e.Load(st, p, t)
		if v.Op == "slice" {
			ptr, off, n, _ := SliceParts(v)
			if k, ok := n.Int(); ok && k <= 16 && !ptr.IsNil() {
				for i := int64(0); i < k; i++ {
					o.collect(st, fmt.Sprintf("%s[%d]", name, i), ExtendPtr(ptr, PI(Add(off, CInt(i)), u.Elem())), u.Elem(), depth+1)
				}
				return
			}
		}
	}
	o.locs = append(o.locs, ownLoc{name, p, t})
}

func c05(c *Check) {
	c.Cov["rule"] = "after any history and Reset, everything a matcher owns is what it is in a new matcher when the next document's first token is read"
	for _, sz := range [][2]int64{{0, 1}, {1, 1}, {2, 3}, {3, 5}} {
		for _, entry := range []string{"Match", "MatchWithStatus"} {
			c.resetRun(sz[0], sz[1], entry)
		}
	}
	c.Assume = append(c.Assume, "the definition is the same (C06: nothing writes it)")
}

func (c *Check) resetRun(slots, nodes int64, entry string) {
	m := newMat(c)
	e := m.e
	e.NoWiden = true
	e.MaxRec = 6
	key := "Reset"
	defT := c.lookupType("MatchDef")
	build := func() (*State, *V) {
		st := e.NewState()
		nt := c.lookupType("binTreeNode")
		var ns []*V
		for i := int64(0); i < nodes; i++ {
			n := ZeroVal(nt)
			set := func(f string, v int64) { n = c.withField(n, nt, f, CInt(v)) }
			// a chain of conjunctions: node 0 over 1 and 2, node 2 over 3 and 4
			if i%2 == 0 && i+1 < nodes {
				n = c.withField(n, nt, "NodeType", c.konst("nodeTypeAnd"))
				set("Left", i+1)
				set("Right", i+2)
			}
			if i > 0 {
				set("ParentIdx", (i-1)/2*2)
			}
			ns = append(ns, n)
		}
		d := e.NewObj(st, "def", defT, ZeroVal(defT))
		m.set(st, d, defT, "NumSlots", CInt(slots))
		m.set(st, d, defT, "NumBuckets", CInt(nodes))
		m.set(st, d, defT, "MatchTree.data", e.NewSlice(st, "nodes", nt, ns))
		pn := Sym("parse node", types.NewPointer(c.lookupType("ExecNode")))
		st.Facts.Assume(IsNilCond(pn), false)
		m.set(st, d, defT, "ParseNode", pn)
		fs := e.Call(c.fn("NewFastMatcher"), st, []*V{d})
		if len(fs) != 1 || fs[0].Panic {
			c.Undec("%s: the constructor has %d outcomes", key, len(fs))
			return nil, nil
		}
		return fs[0].St, fs[0].Ret
	}
	list := func(st *State, p *V) []ownLoc {
		o := &owned{heap: m.heap, seen: map[string]bool{}, skip: map[string]bool{"MatchDef": true, "binTree": true, "ExecNode": true}}
		o.collect(st, "m", p, m.mT, 0)
		return o.locs
	}
	// what is owned when the first token is read
	data := Sym("document", types.NewSlice(byteT))
	type snap struct {
		st *State
		w  string
	}
	start := func(st *State, p *V) []snap {
		var out []snap
		h := func(x *CallCtx, s *State) ([]Out, bool) {
			out = append(out, snap{s.Clone(), m.at(x)})
			return nil, true
		}
		m.hook("jsonTokenizer.Step", h)
		_, _, n, _ := SliceParts(data)
		st.Facts.Assume(Cmp(tGTR, n, Zero, intT()), true)
		for _, f := range e.Call(c.fn("FastMatcher."+entry), st, []*V{p, data}) {
			if f.Panic {
				c.Bad(key, e.Pos(InstrPos(f.Instr)), "a reset matcher is as good as new", "starting a document panics: "+f.What, e.TraceLines(f.St, 10))
			}
		}
		return out
	}
	fs, fp := build()
	if fs == nil {
		return
	}
	fresh := start(fs.Clone(), fp)
	if len(fresh) != 1 {
		c.Undec("%s: a new matcher reaches its first token in %d ways", key, len(fresh))
		return
	}
	flocs := map[string]ownLoc{}
	for _, l := range list(fresh[0].st, fp) {
		flocs[l.name] = l
	}
	// any history: whatever is owned has any value
	us, up := build()
	for i, l := range list(us, up) {
		e.Store(us, l.ptr, l.typ, Sym(fmt.Sprintf("left over %d %s", i, l.name), l.typ))
	}
	n := 0
	for _, f := range e.Call(c.fn("FastMatcher.Reset"), us, []*V{up}) {
		w := e.Pos(InstrPos(f.Instr))
		if f.Panic {
			c.Bad(key, w, "a reset matcher is as good as new", "Reset panics: "+f.What, e.TraceLines(f.St, 10))
			continue
		}
		for _, s := range start(f.St, up) {
			n++
			for _, l := range list(s.st, up) {
				fl, ok := flocs[l.name]
				got := e.Load(s.st, l.ptr, l.typ)
				what := fmt.Sprintf("%s is %s", l.name, got)
				if !ok {
					c.Undec("%s: %s has no counterpart in a new matcher", key, l.name)
					continue
				}
				want := e.Load(fresh[0].st, fl.ptr, fl.typ)
				if got == want || c.eqv(s.st, got, want) {
					c.Ok("%s %s", key, l.name)
					continue
				}
				if !strings.Contains(got.String(), "left over") {
					c.Undec("%s: cannot compare %s with %s", key, what, want)
					continue
				}
				if !c.everRead(l.name) {
					c.Undec("%s: %s, never read", key, what)
					continue
				}
				switch l.typ.Underlying().(type) {
				case *types.Basic:
				default:
					if _, ok := l.typ.Underlying().(*types.Slice); ok && strings.HasPrefix(l.name, "m.slots") {
						break
					}
					c.Undec("%s: %s", key, what)
					continue
				}
				c.Bad(key, w, "a reset matcher is as good as new", fmt.Sprintf("%s (new: %s)", what, want), e.TraceLines(s.st, 10))
			}
		}
	}
	if n == 0 {
		c.Undec("%s has no normal outcome", key)
	}
	c.takeUndec(e)
}

// everRead tells whether a field that a location's name ends in is loaded anywhere.
func (c *Check) everRead(name string) bool {
	parts := strings.Split(name, ".")
	last := ""
	for i := len(parts) - 1; i >= 0; i-- {
		if p := parts[i]; p != "*" {
			if j := strings.Index(p, "["); j >= 0 {
				p = p[:j]
			}
			last = p
			break
		}
	}
	for _, fn := range c.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					if s.Field(x.Field).Name() != last {
						continue
					}
					for _, r := range *x.Referrers() {
						if st, ok := r.(*ssa.Store); !ok || st.Addr != x {
							return true
						}
					}
				case *ssa.Field:
					s := x.X.Type().Underlying().(*types.Struct)
					if s.Field(x.Field).Name() == last {
						return true
					}
				}
			}
		}
	}
	return false
}
