package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locations ----

// PtrTo turns any pointer value into location form: ptr(objkey, path...).
func PtrTo(p *V, elem types.Type) *V {
	if p.Op == "ptr" {
		return p
	}
	return T("ptr", "", nil, T("objof", "", elem, p))
}

// PF is the path element selecting field i of struct type t.
func PF(i int, t types.Type) *V { return T("pf", strconv.Itoa(i), t) }

// PI is the path element selecting index idx.
func PI(idx *V, elem types.Type) *V { return T("pi", "", elem, idx) }

func extendPtr(p *V, el *V) *V {
	args := append(append([]*V{}, p.Args...), el)
	return T("ptr", "", nil, args...)
}

// ExtendPtr appends a path element to a location.
func ExtendPtr(p *V, el *V) *V { return extendPtr(p, el) }

// Content returns the content of the object a location lies in.
func (e *Engine) Content(st *State, key *V) *V {
	if c, ok := st.Heap[key]; ok {
		return c
	}
	switch key.Op {
	case "objof":
		return T("deref", "", key.Typ, key.Args[0])
	case "backing":
		return T("arr", "", key.Typ, key.Args[0])
	case "global":
		pt := key.Typ.(*types.Pointer)
		return T("deref", "", pt.Elem(), key)
	}
	return T("deref", "", nil, key)
}

// Load reads a location.
func (e *Engine) Load(st *State, p *V, elem types.Type) *V {
	p = PtrTo(p, elem)
	v := e.Content(st, p.Args[0])
	for _, el := range p.Args[1:] {
		v = e.project(st, v, el)
	}
	if v.Typ == nil && (v.Op == "deref") {
		return T("deref", "", elem, v.Args...)
	}
	return v
}

func (e *Engine) project(st *State, v *V, el *V) *V {
	switch el.Op {
	case "pf":
		i, _ := strconv.Atoi(el.Aux)
		return StructField(v, i, el.Typ.Underlying().(*types.Struct).Field(i).Type())
	case "pi":
		return e.ArrRead(st.Facts, v, el.Args[0], el.Typ)
	case "pv":
		if v.Op == "rawof" && v.Aux == TypeKey(el.Typ) {
			return v.Args[0]
		}
		if v.Op == "zeroarr" {
			return ZeroVal(el.Typ)
		}
		return T("viewas", "", el.Typ, v)
	}
	panic("project " + el.Op)
}

// Store writes a location.
func (e *Engine) Store(st *State, p *V, elem types.Type, val *V) {
	p = PtrTo(p, elem)
	k := p.Args[0]
	st.Heap[k] = e.update(st, e.Content(st, k), p.Args[1:], val)
}

func (e *Engine) update(st *State, c *V, path []*V, val *V) *V {
	if len(path) == 0 {
		return val
	}
	el := path[0]
	sub := e.update(st, func() *V {
		if len(path) == 1 {
			return nil
		}
		return e.project(st, c, el)
	}(), path[1:], val)
	switch el.Op {
	case "pf":
		i, _ := strconv.Atoi(el.Aux)
		return StructWith(c, el.Typ.Underlying().(*types.Struct), el.Typ, i, sub)
	case "pi":
		return e.ArrWrite(st.Facts, c, el.Args[0], sub)
	case "pv":
		return T("rawof", TypeKey(el.Typ), nil, sub)
	}
	panic("update " + el.Op)
}

// ---- arrays ----

// ArrRead reads arr[idx].
func (e *Engine) ArrRead(f *Facts, arr, idx *V, elem types.Type) *V {
	if n, ok := f.Dom(idx).IsSingle(); ok && !idx.IsConst() {
		idx = CBigV(n.v)
	}
	for {
		switch arr.Op {
		case "zeroarr":
			return ZeroVal(elem)
		case "arrlit":
			if i, ok := idx.Int(); ok {
				for k, j := range arr.Idx {
					if i == j {
						return arr.Args[k+1]
					}
				}
				arr = arr.Args[0]
				continue
			}
			d := f.Dom(idx)
			hit := false
			for _, j := range arr.Idx {
				if d.Has(j) {
					hit = true
				}
			}
			if !hit {
				arr = arr.Args[0]
				continue
			}
		case "fill":
			in := f.Between(arr.Args[1], idx, arr.Args[2])
			if in > 0 {
				return arr.Args[3]
			}
			if in < 0 {
				arr = arr.Args[0]
				continue
			}
		case "copyrange": // base, dlo, n, src, slo
			in := f.Between(arr.Args[1], idx, Add(arr.Args[1], arr.Args[2]))
			if in > 0 {
				idx = Add(arr.Args[4], Sub(idx, arr.Args[1]))
				arr = arr.Args[3]
				continue
			}
			if in < 0 {
				arr = arr.Args[0]
				continue
			}
		case "fromstr":
			return StrIndex(arr.Args[0], idx)
		}
		return T("elem", "", elem, arr, idx)
	}
}

// Between decides lo <= x < hi: +1 yes, -1 no, 0 unknown.
func (f *Facts) Between(lo, x, hi *V) int {
	if d, ok := DiffConst(hi, lo); ok && d == 1 {
		return f.Eval(eq0(Sub(x, lo)))
	}
	a := f.Eval(le0(Sub(lo, x)))
	b := f.Eval(le0(AddI(Sub(x, hi), 1)))
	if a < 0 || b < 0 {
		return -1
	}
	if a > 0 && b > 0 {
		return 1
	}
	return 0
}

// StrIndex is s[i] for a string term.
func StrIndex(s, i *V) *V {
	for {
		if c, ok := s.Str(); ok {
			if n, ok := i.Int(); ok && n >= 0 && int(n) < len(c) {
				return CInt(int64(c[n]))
			}
		}
		switch s.Op {
		case "substr":
			i = Add(s.Args[1], i)
			s = s.Args[0]
			continue
		case "b2s":
			a := s.Args[0]
			if a.Op == "arr" || a.Op == "arrlit" || a.Op == "zeroarr" {
				idx := Add(s.Args[1], i)
				if n, ok := idx.Int(); ok && a.Op == "arrlit" {
					for k, j := range a.Idx {
						if n == j {
							return a.Args[k+1]
						}
					}
				}
				if a.Op == "arr" {
					return T("elem", "", types.Typ[types.Uint8], a, idx)
				}
			}
		}
		return T("selem", "", types.Typ[types.Uint8], s, i)
	}
}

const maxLit = 4096

// ArrWrite is arr with idx replaced.
func (e *Engine) ArrWrite(f *Facts, arr, idx, v *V) *V {
	if n, ok := f.Dom(idx).IsSingle(); ok && !idx.IsConst() {
		idx = CBigV(n.v)
	}
	if i, ok := idx.Int(); ok && (arr.Op == "zeroarr" || arr.Op == "arrlit") {
		base := arr
		var idxs []int64
		var vals []*V
		if arr.Op == "arrlit" {
			base = arr.Args[0]
			idxs = append(idxs, arr.Idx...)
			vals = append(vals, arr.Args[1:]...)
		}
		for k, j := range idxs {
			if j == i {
				vals[k] = v
				return ArrLit(arr.Typ, base, idxs, vals)
			}
		}
		// keep sorted
		k := len(idxs)
		for k > 0 && idxs[k-1] > i {
			k--
		}
		idxs = append(idxs, 0)
		vals = append(vals, nil)
		copy(idxs[k+1:], idxs[k:])
		copy(vals[k+1:], vals[k:])
		idxs[k], vals[k] = i, v
		return ArrLit(arr.Typ, base, idxs, vals)
	}
	if arr.Op == "fill" && arr.Args[1] == idx && arr.Args[2] == AddI(idx, 1) {
		arr = arr.Args[0]
	}
	if arr.Op == "fill" && arr.Args[3] == v {
		if arr.Args[2] == idx {
			return T("fill", "", arr.Typ, arr.Args[0], arr.Args[1], AddI(idx, 1), v)
		}
		if d, ok := DiffConst(arr.Args[1], idx); ok && d == 1 {
			return T("fill", "", arr.Typ, arr.Args[0], idx, arr.Args[2], v)
		}
		if f.Between(arr.Args[1], idx, arr.Args[2]) > 0 {
			return arr
		}
	}
	return T("fill", "", arr.Typ, arr, idx, AddI(idx, 1), v)
}

// SliceParts decomposes a slice value.
func SliceParts(s *V) (ptr, off, n, c *V) {
	if s.Op == "slice" {
		return s.Args[0], s.Args[1], s.Args[2], s.Args[3]
	}
	if s.IsNil() {
		return Nil, Zero, Zero, Zero
	}
	return T("ptr", "", nil, T("backing", "", nil, s)), Zero, T("len", "", nil, s), T("cap", "", nil, s)
}

// MkSlice builds a slice value.
func MkSlice(ptr, off, n, c *V) *V {
	if ptr.Op == "ptr" && len(ptr.Args) == 1 && ptr.Args[0].Op == "backing" {
		s := ptr.Args[0].Args[0]
		if off == Zero && n == T("len", "", nil, s) && c == T("cap", "", nil, s) {
			return s
		}
	}
	return T("slice", "", nil, ptr, off, n, c)
}

// SliceContent returns the array term a slice looks into.
func (e *Engine) SliceContent(st *State, s *V) *V {
	p, _, _, _ := SliceParts(s)
	if p.IsNil() {
		return T("zeroarr", "", nil)
	}
	v := e.Content(st, p.Args[0])
	for _, el := range p.Args[1:] {
		v = e.project(st, v, el)
	}
	return v
}

// LenOf is the length term of a slice, string, array or map value.
func (e *Engine) LenOf(st *State, v *V, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return StrLen(v)
	case *types.Slice:
		_, _, n, _ := SliceParts(v)
		return n
	case *types.Array:
		return CInt(u.Len())
	case *types.Pointer:
		return CInt(u.Elem().Underlying().(*types.Array).Len())
	case *types.Map:
		if v.IsNil() {
			return Zero
		}
		m := e.MapContent(st, v)
		if m.Op == "mapv" && m.Args[0].IsNil() {
			return CInt(int64(len(m.Args)-1) / 2)
		}
		return T("len", "", nil, m)
	}
	return T("len", "", nil, v)
}

// ---- maps ----

func mapKey(m *V) *V {
	if m.Op == "map" {
		return m.Args[0]
	}
	return T("mapof", "", nil, m)
}

func (e *Engine) MapContent(st *State, m *V) *V {
	k := mapKey(m)
	if c, ok := st.Heap[k]; ok {
		return c
	}
	if k.Op == "mapof" {
		return T("mapv", "", nil, k.Args[0])
	}
	return T("mapv", "", nil, Nil)
}

func (e *Engine) mapEq(st *State, a, b *V, kt types.Type) int {
	if a == b {
		return 1
	}
	return st.Facts.Eval(Cmp(token.EQL, a, b, kt))
}

// mapLookup returns the outcomes of a lookup: states with (value, present).
func (e *Engine) mapLookup(st *State, m, key *V, mt *types.Map) (sts []*State, vals, oks []*V) {
	if m.IsNil() {
		return []*State{st}, []*V{ZeroVal(mt.Elem())}, []*V{False}
	}
	c := e.MapContent(st, m)
	cur := st
	for i := len(c.Args) - 2; i >= 1; i -= 2 {
		k, v := c.Args[i], c.Args[i+1]
		switch e.mapEq(cur, k, key, mt.Key()) {
		case 1:
			return append(sts, cur), append(vals, v), append(oks, True)
		case -1:
			continue
		}
		cond := Cmp(token.EQL, k, key, mt.Key())
		s2 := cur.Clone()
		if s2.Facts.Assume(cond, true) {
			s2.Log(token.NoPos, "map key: assume %s", cond)
			sts, vals, oks = append(sts, s2), append(vals, v), append(oks, True)
		}
		if !cur.Facts.Assume(cond, false) {
			return
		}
	}
	base := c.Args[0]
	if base.IsNil() {
		return append(sts, cur), append(vals, ZeroVal(mt.Elem())), append(oks, False)
	}
	has := T("maphas", "", nil, base, key)
	get := T("mapget", "", mt.Elem(), base, key)
	switch cur.Facts.Eval(has) {
	case 1:
		return append(sts, cur), append(vals, get), append(oks, True)
	case -1:
		return append(sts, cur), append(vals, ZeroVal(mt.Elem())), append(oks, False)
	}
	s2 := cur.Clone()
	s2.Facts.Assume(has, true)
	sts, vals, oks = append(sts, s2), append(vals, get), append(oks, True)
	cur.Facts.Assume(has, false)
	return append(sts, cur), append(vals, ZeroVal(mt.Elem())), append(oks, False)
}

func (e *Engine) mapUpdate(st *State, m, key, val *V, mt *types.Map) {
	k := mapKey(m)
	c := e.MapContent(st, m)
	args := append([]*V{}, c.Args...)
	for i := 1; i+1 < len(args); i += 2 {
		if e.mapEq(st, args[i], key, mt.Key()) > 0 {
			args[i+1] = val
			st.Heap[k] = T("mapv", "", nil, args...)
			return
		}
	}
	args = append(args, key, val)
	st.Heap[k] = T("mapv", "", nil, args...)
}

// ---- faults ----

// require checks a run-time safety condition; false ends the state.
// Require makes a condition an obligation (see OnFault) and assumes it.
func (e *Engine) Require(st *State, cond *V, kind string, instr ssa.Instruction, what string) bool {
	return e.require(st, cond, kind, instr, what)
}

func (e *Engine) requireF(st *State, cond *V, kind string, instr ssa.Instruction, what func() string) bool {
	if st.Facts.Eval(cond) == 1 {
		return true
	}
	return e.require(st, cond, kind, instr, what())
}

func (e *Engine) require(st *State, cond *V, kind string, instr ssa.Instruction, what string) bool {
	switch st.Facts.Eval(cond) {
	case 1:
		return true
	case -1:
		if e.OnFault != nil {
			e.OnFault(Fault{Kind: kind, Fn: st.top().Fn, Instr: instr, St: st, Must: true, What: what, Cond: cond})
		}
		e.fin(&Final{St: st, Panic: true, Instr: instr, Ret: Nil, What: kind + ": " + what})
		return false
	}
	if n := e.opaqueIn(cond); n != "" {
		e.Undec("%s at %s depends on %s, which is not modelled", kind, e.Pos(InstrPos(instr)), n)
	} else if e.OnFault != nil {
		e.OnFault(Fault{Kind: kind, Fn: st.top().Fn, Instr: instr, St: st, What: what, Cond: cond})
	}
	return st.Facts.Assume(cond, true)
}

// opaqueIn names an unmodelled library function a condition depends on.
func (e *Engine) opaqueIn(v *V) string {
	if len(e.opaque) == 0 {
		return ""
	}
	seen := map[*V]bool{}
	v.Walk(seen)
	for x := range seen {
		if e.opaque[x] {
			return x.Aux
		}
	}
	return ""
}

func (e *Engine) nonNil(st *State, p *V, instr ssa.Instruction) bool {
	c := IsNilCond(p)
	switch st.Facts.Eval(c) {
	case -1:
		return true
	case 1:
		return e.require(st, False, "nil dereference", instr, p.String())
	}
	if e.NilFaults != nil && e.NilFaults(p) {
		return e.require(st, Not(c), "nil dereference", instr, p.String())
	}
	return st.Facts.Assume(c, false)
}

// ---- instructions ----

func (e *Engine) simple(st *State, instr ssa.Instruction) []*State {
	fr := st.top()
	one := []*State{st}
	set := func(v *V) []*State {
		fr.Env[instr.(ssa.Value)] = v
		return one
	}
	switch i := instr.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		k := e.newAlloc(st, fr.Ctx+"/"+fr.Fn.Name()+":"+i.Name(), et)
		if st.dead {
			return nil
		}
		st.Heap[k] = ZeroVal(et)
		return set(T("ptr", "", nil, k))
	case *ssa.BinOp:
		return e.binop(st, i)
	case *ssa.UnOp:
		x := e.val(st, i.X)
		switch i.Op {
		case token.NOT:
			return set(Not(x))
		case token.SUB:
			return set(e.neg(st, x, i.Type()))
		case token.XOR:
			if b, ok := x.BigInt(); ok && !isUnsigned(i.Type()) {
				return set(CBigV(new(big.Int).Not(b)))
			}
			return set(T("un", "^", i.Type(), x))
		case token.MUL:
			if !e.nonNil(st, x, i) {
				return nil
			}
			p := PtrTo(x, i.Type())
			if e.OnElem != nil && p.Args[len(p.Args)-1].Op == "pi" {
				last := p.Args[len(p.Args)-1]
				arr := e.Content(st, p.Args[0])
				for _, el := range p.Args[1 : len(p.Args)-1] {
					arr = e.project(st, arr, el)
				}
				if sts := e.OnElem(e, st, arr, last.Args[0], i); sts != nil {
					for _, s := range sts {
						s.top().Env[i] = e.Load(s, x, i.Type())
					}
					return sts
				}
			}
			return e.loadFork(st, p, i)
		}
		e.Undec("unary %s at %s", i.Op, e.Pos(i.Pos()))
		return set(e.FreshSym(st, "un:"+fr.Ctx+fr.Fn.Name()+i.Name(), i.Type()))
	case *ssa.ChangeInterface:
		return set(e.val(st, i.X))
	case *ssa.ChangeType:
		return set(e.val(st, i.X))
	case *ssa.Convert:
		return e.convert(st, i)
	case *ssa.MultiConvert:
		e.Undec("multiconvert")
		return set(Sym("multiconvert", i.Type()))
	case *ssa.Extract:
		t := e.val(st, i.Tuple)
		if t.Op == "tuple" {
			return set(t.Args[i.Index])
		}
		return set(T("ret", strconv.Itoa(i.Index), i.Type(), t))
	case *ssa.Field:
		return set(StructField(e.val(st, i.X), i.Field, i.Type()))
	case *ssa.FieldAddr:
		x := e.val(st, i.X)
		if !e.nonNil(st, x, i) {
			return nil
		}
		et := i.X.Type().Underlying().(*types.Pointer).Elem()
		return set(extendPtr(PtrTo(x, et), PF(i.Field, et)))
	case *ssa.IndexAddr:
		x, idx := e.val(st, i.X), e.val(st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			p, off, n, _ := SliceParts(x)
			if !e.bounds(st, idx, n, i) {
				return nil
			}
			if p.IsNil() {
				return nil
			}
			return set(extendPtr(p, PI(Add(off, idx), u.Elem())))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if !e.nonNil(st, x, i) || !e.bounds(st, idx, CInt(at.Len()), i) {
				return nil
			}
			return set(extendPtr(PtrTo(x, u.Elem()), PI(idx, at.Elem())))
		}
	case *ssa.Index:
		x, idx := e.val(st, i.X), e.val(st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			if !e.bounds(st, idx, CInt(u.Len()), i) {
				return nil
			}
			return e.forkIndex(st, idx, x, func(s *State, ix *V) {
				s.top().Env[i] = e.ArrRead(s.Facts, x, ix, u.Elem())
			})
		case *types.Basic:
			if !e.bounds(st, idx, StrLen(x), i) {
				return nil
			}
			if e.OnElem != nil {
				if sts := e.OnElem(e, st, x, idx, i); sts != nil {
					for _, s := range sts {
						s.top().Env[i] = StrIndex(x, idx)
					}
					return sts
				}
			}
			return set(StrIndex(x, idx))
		}
	case *ssa.Lookup:
		m := e.val(st, i.X)
		k := e.val(st, i.Index)
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			sts, vals, oks := e.mapLookup(st, m, k, mt)
			for j, s := range sts {
				if i.CommaOk {
					s.top().Env[i] = Tuple(vals[j], oks[j])
				} else {
					s.top().Env[i] = vals[j]
				}
			}
			if len(sts) == 0 {
				return nil
			}
			return sts
		}
		if !e.bounds(st, k, StrLen(m), i) {
			return nil
		}
		return set(StrIndex(m, k))
	case *ssa.MakeClosure:
		var bs []*V
		for _, b := range i.Bindings {
			bs = append(bs, e.val(st, b))
		}
		return set(ClosureV(i.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		x := e.val(st, i.X)
		if x.Op == "unbox" && TypeKey(x.Typ) == TypeKey(i.X.Type()) {
			return set(x.Args[0])
		}
		return set(Iface(i.X.Type(), x))
	case *ssa.MakeMap:
		k := e.newAlloc(st, fr.Ctx+"/"+fr.Fn.Name()+":"+i.Name(), i.Type())
		if st.dead {
			return nil
		}
		st.Heap[k] = T("mapv", "", nil, Nil)
		return set(T("map", "", nil, k))
	case *ssa.MapUpdate:
		m := e.val(st, i.Map)
		if !e.nonNil(st, m, i) {
			return nil
		}
		e.mapUpdate(st, m, e.val(st, i.Key), e.val(st, i.Value), i.Map.Type().Underlying().(*types.Map))
		return one
	case *ssa.MakeSlice:
		n, c := e.val(st, i.Len), e.val(st, i.Cap)
		if !e.require(st, le0(Scale(n, -1)), "makeslice", i, n.String()) {
			return nil
		}
		if !e.require(st, le0(Sub(n, c)), "makeslice", i, n.String()) {
			return nil
		}
		k := e.newAlloc(st, fr.Ctx+"/"+fr.Fn.Name()+":"+i.Name(), i.Type())
		if st.dead {
			return nil
		}
		st.Heap[k] = T("zeroarr", "", i.Type())
		return set(T("slice", "", nil, T("ptr", "", nil, k), Zero, n, c))
	case *ssa.Range:
		x := e.val(st, i.X)
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			c := T("mapv", "", nil, Nil)
			if !x.IsNil() {
				c = e.MapContent(st, x)
			}
			return set(T("iter", "map", i.X.Type(), c, Zero))
		}
		return set(T("iter", "str", i.X.Type(), x, Zero))
	case *ssa.Next:
		return e.next(st, i)
	case *ssa.Slice:
		return e.sliceOp(st, i)
	case *ssa.Store:
		a := e.val(st, i.Addr)
		if !e.nonNil(st, a, i) {
			return nil
		}
		v := e.val(st, i.Val)
		if e.OnStore != nil {
			e.OnStore(e, st, PtrTo(a, i.Val.Type()), v, i)
		}
		e.Store(st, a, i.Val.Type(), v)
		return one
	case *ssa.TypeAssert:
		return e.typeAssert(st, i)
	}
	e.Undec("instruction %T at %s not modelled", instr, e.Pos(InstrPos(instr)))
	if v, ok := instr.(ssa.Value); ok {
		fr.Env[v] = e.FreshSym(st, "unk:"+fr.Fn.Name()+v.Name(), v.Type())
	}
	return one
}

// loadFork loads through p, splitting on a small symbolic index into a literal array.
func (e *Engine) loadFork(st *State, p *V, i *ssa.UnOp) []*State {
	last := p.Args[len(p.Args)-1]
	if last.Op == "pi" && !last.Args[0].IsConst() {
		arr := e.Content(st, p.Args[0])
		for _, el := range p.Args[1 : len(p.Args)-1] {
			arr = e.project(st, arr, el)
		}
		return e.forkIndex(st, last.Args[0], arr, func(s *State, ix *V) {
			s.top().Env[i] = e.ArrRead(s.Facts, arr, ix, i.Type())
		})
	}
	st.top().Env[i] = e.Load(st, p, i.Type())
	return []*State{st}
}

func (e *Engine) forkIndex(st *State, idx, arr *V, f func(*State, *V)) []*State {
	if arr.Op == "arrlit" && arr.Args[0].Op == "zeroarr" && !idx.IsConst() {
		vals, ok := st.Facts.Dom(idx).Values(128)
		if ok && len(vals) > 1 {
			// group indices by the element read
			same := map[*V]ISet{}
			var order []*V
			elemT := types.Type(nil)
			switch u := under(arr.Typ).(type) {
			case *types.Array:
				elemT = u.Elem()
			case *types.Slice:
				elemT = u.Elem()
			}
			if elemT != nil {
				for _, n := range vals {
					r := e.ArrRead(st.Facts, arr, CInt(n), elemT)
					if _, ok := same[r]; !ok {
						order = append(order, r)
					}
					same[r] = same[r].Union(SetOf(n))
				}
				var out []*State
				for k, r := range order {
					s := st
					if k < len(order)-1 {
						s = st.Clone()
					}
					if !s.Facts.Restrict(idx, same[r]) {
						continue
					}
					n0 := same[r].Lo()
					f(s, CBigV(n0.v))
					out = append(out, s)
				}
				return out
			}
		}
	}
	f(st, idx)
	return []*State{st}
}

func (e *Engine) bounds(st *State, idx, n *V, i ssa.Instruction) bool {
	what := func() string { return idx.String() + " vs len " + n.String() }
	return e.requireF(st, le0(Scale(idx, -1)), "index out of range", i, what) &&
		e.requireF(st, le0(AddI(Sub(idx, n), 1)), "index out of range", i, what)
}

func (e *Engine) sliceOp(st *State, i *ssa.Slice) []*State {
	x := e.val(st, i.X)
	lo := Zero
	if i.Low != nil {
		lo = e.val(st, i.Low)
	}
	var hi, max *V
	if i.High != nil {
		hi = e.val(st, i.High)
	}
	if i.Max != nil {
		max = e.val(st, i.Max)
	}
	set := func(v *V) []*State { st.top().Env[i] = v; return []*State{st} }
	req := func(a, b *V) bool { // a <= b
		return e.requireF(st, le0(Sub(a, b)), "slice bounds out of range", i, func() string { return a.String() + " > " + b.String() })
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		n := StrLen(x)
		if hi == nil {
			hi = n
		}
		if !req(Zero, lo) || !req(lo, hi) || !req(hi, n) {
			return nil
		}
		return set(SubStr(x, lo, hi))
	case *types.Slice:
		p, off, n, c := SliceParts(x)
		if hi == nil {
			hi = n
		}
		lim := c
		if max != nil {
			if !req(max, c) {
				return nil
			}
			lim = max
		}
		// capacity never below length
		st.Facts.Assume(le0(Sub(n, c)), true)
		if !req(Zero, lo) || !req(lo, hi) || !req(hi, lim) {
			return nil
		}
		if p.IsNil() {
			return set(Nil)
		}
		return set(MkSlice(p, Add(off, lo), Sub(hi, lo), Sub(lim, lo)))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := CInt(at.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if max != nil {
			lim = max
		}
		if !e.nonNil(st, x, i) || !req(Zero, lo) || !req(lo, hi) || !req(hi, lim) {
			return nil
		}
		return set(T("slice", "", nil, PtrTo(x, u.Elem()), lo, Sub(hi, lo), Sub(lim, lo)))
	}
	panic("slice of " + i.X.Type().String())
}

// SubStr is s[lo:hi].
func SubStr(s, lo, hi *V) *V {
	if lo == Zero && hi == StrLen(s) {
		return s
	}
	if c, ok := s.Str(); ok {
		a, ok1 := lo.Int()
		b, ok2 := hi.Int()
		if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(c) {
			return CStr(c[a:b])
		}
	}
	if lo == hi {
		return CStr("")
	}
	switch s.Op {
	case "b2s":
		return T("b2s", "", s.Typ, s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	case "substr":
		return T("substr", "", s.Typ, s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	return T("substr", "", nil, s, lo, hi)
}

// BytesToStr is string(content[lo:hi]).
func (e *Engine) BytesToStr(f *Facts, content, lo, hi *V) *V {
	if content.Op == "fromstr" {
		return SubStr(content.Args[0], lo, hi)
	}
	a, ok1 := lo.Int()
	b, ok2 := hi.Int()
	if ok1 && ok2 && b-a <= 4096 && (content.Op == "arrlit" || content.Op == "zeroarr") {
		bs := make([]byte, 0, b-a)
		for i := a; i < b; i++ {
			n, ok := e.ArrRead(f, content, CInt(i), types.Typ[types.Uint8]).Int()
			if !ok {
				bs = nil
				break
			}
			bs = append(bs, byte(n))
		}
		if bs != nil {
			return CStr(string(bs))
		}
	}
	if d, ok := DiffConst(hi, lo); ok && d == 0 {
		return CStr("")
	}
	return T("b2s", "", nil, content, lo, hi)
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isPlainInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func (e *Engine) neg(st *State, x *V, t types.Type) *V {
	if IsIntT(t) {
		r := Scale(x, -1)
		if e.fits(st, r, t) {
			return r
		}
		if n, ok := x.Int(); ok && types.Identical(t.Underlying(), types.Typ[types.Int64]) && n == math.MinInt64 {
			return x
		}
		// a negation that may wrap is the same machine operation as -1*x
		y := CInt(-1)
		if x.ID > y.ID {
			x, y = y, x
		}
		return T("bin", "*", t, x, y)
	}
	if f, ok := floatConst(x); ok {
		return T("fconst", strconv.FormatFloat(-f, 'g', -1, 64), nil)
	}
	// the IEEE negation is the product with -1 (but for the sign of NaN, which no float operation shows)
	y := T("fconst", "-1", nil)
	if x.ID > y.ID {
		x, y = y, x
	}
	return T("fbin", "*", nil, x, y)
}

// fits: the mathematical result of an integer operation is the machine result.
func (e *Engine) fits(st *State, r *V, t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if ok && b.Kind() == types.Int && !r.IsConst() {
		return true // lengths and positions: no overflow of int is assumed
	}
	return st.Facts.Dom(r).Subset(TypeRange(t))
}

func wrapBig(b *big.Int, t types.Type) *big.Int {
	bt := under(t).(*types.Basic)
	bits := uint(64)
	switch bt.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	m := new(big.Int).Lsh(bigOne, bits)
	r := new(big.Int).Mod(b, m)
	if !isUnsigned(t) && r.Bit(int(bits-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

func (e *Engine) binop(st *State, i *ssa.BinOp) []*State {
	x, y := e.val(st, i.X), e.val(st, i.Y)
	t := i.X.Type()
	set := func(v *V) []*State { st.top().Env[i] = v; return []*State{st} }
	if isCmpOp(i.Op) {
		if isTypeParamlessIface(t) != isTypeParamlessIface(i.Y.Type()) {
			// mixed interface/concrete comparison: box the concrete side
			if !isTypeParamlessIface(t) {
				x, t = Iface(t, x), i.Y.Type()
			} else {
				y = Iface(i.Y.Type(), y)
			}
		}
		return set(Cmp(i.Op, x, y, t))
	}
	switch {
	case isStrT(t):
		return set(Concat(x, y))
	case IsIntT(t):
		if ps := e.piecewise(st, i, x, y); ps != nil {
			var outs []*State
			for _, p := range ps {
				p.st.top().Env[i] = p.v
				outs = append(outs, p.st)
			}
			return outs
		}
		r := e.intop(st, i, x, y)
		if r == nil {
			return nil
		}
		return set(r)
	case isFloatV(t):
		if a, ok := floatConst(x); ok {
			if b, ok := floatConst(y); ok {
				var r float64
				switch i.Op {
				case token.ADD:
					r = a + b
				case token.SUB:
					r = a - b
				case token.MUL:
					r = a * b
				case token.QUO:
					r = a / b
				}
				return set(T("fconst", strconv.FormatFloat(r, 'g', -1, 64), nil))
			}
		}
		if (i.Op == token.ADD || i.Op == token.MUL) && x.ID > y.ID {
			x, y = y, x
		}
		return set(T("fbin", i.Op.String(), nil, x, y))
	case isBoolT(t):
		return set(T("bbin", i.Op.String(), nil, x, y))
	}
	e.Undec("binary %s on %s at %s", i.Op, t, e.Pos(i.Pos()))
	return set(T("bin", i.Op.String(), i.Type(), x, y))
}

func isTypeParamlessIface(t types.Type) bool { return types.IsInterface(t) }

// Concat joins two string terms.
func Concat(x, y *V) *V {
	a, ok1 := x.Str()
	b, ok2 := y.Str()
	switch {
	case ok1 && ok2:
		return CStr(a + b)
	case ok1 && a == "":
		return y
	case ok2 && b == "":
		return x
	}
	if ok2 && x.Op == "concat" {
		if l, ok := x.Args[1].Str(); ok {
			return Concat(x.Args[0], CStr(l+b))
		}
	}
	return T("concat", "", nil, x, y)
}

func (e *Engine) intop(st *State, i *ssa.BinOp, x, y *V) *V {
	t := i.X.Type()
	a, ca := x.BigInt()
	b, cb := y.BigInt()
	opaque := func() *V { return T("bin", i.Op.String(), i.Type(), x, y) }
	fit := func(r *V) *V {
		if c, ok := r.BigInt(); ok {
			return CBigV(wrapBig(c, t))
		}
		if e.fits(st, r, t) {
			return r
		}
		if e.OnOverflow != nil {
			e.OnOverflow(st, i, r)
		}
		xx, yy := x, y
		if (i.Op == token.ADD || i.Op == token.MUL) && xx.ID > yy.ID {
			xx, yy = yy, xx
		}
		return T("bin", i.Op.String(), i.Type(), xx, yy)
	}
	switch i.Op {
	case token.ADD:
		return fit(Add(x, y))
	case token.SUB:
		if ca && a.Sign() == 0 {
			return e.neg(st, y, i.Type())
		}
		return fit(Sub(x, y))
	case token.MUL:
		if cb && b.IsInt64() {
			return fit(Scale(x, b.Int64()))
		}
		if ca && a.IsInt64() {
			return fit(Scale(y, a.Int64()))
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return T("bin", "*", i.Type(), x, y)
	case token.QUO, token.REM:
		if !e.require(st, Not(eq0(y)), "integer divide by zero", i, y.String()) {
			return nil
		}
		if ca && cb {
			q, r := new(big.Int).QuoRem(a, b, new(big.Int))
			if i.Op == token.QUO {
				return CBigV(wrapBig(q, t))
			}
			return CBigV(r)
		}
		r := opaque()
		d := st.Facts.Dom(x)
		if cb && b.Sign() > 0 && d.Lo().Cmp(NI(0)) >= 0 {
			if i.Op == token.REM {
				st.Facts.Restrict(r, Range(NI(0), NBig(new(big.Int).Sub(b, bigOne))))
			} else if !d.Hi().IsInf() {
				st.Facts.Restrict(r, Range(NI(0), NBig(new(big.Int).Quo(d.Hi().v, b))))
			} else {
				st.Facts.Restrict(r, Range(NI(0), PosInf))
			}
		}
		return r
	case token.SHL:
		if cb && b.IsInt64() && b.Int64() >= 0 && b.Int64() < 62 {
			return fit(Scale(x, int64(1)<<uint(b.Int64())))
		}
	case token.SHR:
		if ca && cb && b.IsInt64() {
			return CBigV(new(big.Int).Rsh(a, uint(b.Int64())))
		}
		d := st.Facts.Dom(x)
		if cb && b.IsInt64() && d.Lo().Cmp(NI(0)) >= 0 && !d.Hi().IsInf() {
			r := opaque()
			n := uint(b.Int64())
			st.Facts.Restrict(r, Range(NBig(new(big.Int).Rsh(d.Lo().v, n)), NBig(new(big.Int).Rsh(d.Hi().v, n))))
			return r
		}
	case token.AND:
		if ca && cb {
			return CBigV(new(big.Int).And(a, b))
		}
		m, v := b, x
		if ca {
			m, v = a, y
		}
		if (ca || cb) && m.Sign() >= 0 {
			// x & (2^k-1) is x when x already fits
			if new(big.Int).And(m, new(big.Int).Add(m, bigOne)).Sign() == 0 &&
				st.Facts.Dom(v).Subset(Range(NI(0), NBig(m))) {
				return v
			}
			r := opaque()
			st.Facts.Restrict(r, Range(NI(0), NBig(m)))
			return r
		}
	case token.OR, token.XOR:
		if ca && cb {
			if i.Op == token.OR {
				return CBigV(new(big.Int).Or(a, b))
			}
			return CBigV(wrapBig(new(big.Int).Xor(a, b), t))
		}
		if i.Op == token.OR || i.Op == token.XOR {
			if e.disjointBits(st, x, y) || e.disjointBits(st, y, x) {
				return fit(Add(x, y))
			}
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return T("bin", i.Op.String(), i.Type(), x, y)
	case token.AND_NOT:
		if ca && cb {
			return CBigV(new(big.Int).AndNot(a, b))
		}
	}
	return opaque()
}

type piece struct {
	st *State
	v  *V
}

// piecewise is the exact result of a bitwise or wrapping operation of a small
// value with a constant, when the values fall into a few groups each of which
// the operation shifts by one distance or sends to one result.
func (e *Engine) piecewise(st *State, i *ssa.BinOp, x, y *V) []piece {
	t := i.Type()
	if x.IsConst() == y.IsConst() {
		return nil
	}
	v, k, ok := x, new(big.Int), false
	if k, ok = y.BigInt(); !ok {
		if k, ok = x.BigInt(); !ok {
			return nil
		}
		v = y
	}
	var f func(n *big.Int) *big.Int
	switch i.Op {
	case token.ADD, token.SUB:
		if !isUnsigned(t) {
			return nil
		}
		var r *V
		f = func(n *big.Int) *big.Int { return wrapBig(new(big.Int).Add(n, k), t) }
		r = Add(x, y)
		if i.Op == token.SUB {
			if v == y {
				return nil
			}
			r = Sub(x, y)
			f = func(n *big.Int) *big.Int { return wrapBig(new(big.Int).Sub(n, k), t) }
		}
		if e.fits(st, r, t) {
			return nil
		}
	case token.OR:
		if e.disjointBits(st, x, y) || e.disjointBits(st, y, x) {
			return nil
		}
		f = func(n *big.Int) *big.Int { return new(big.Int).Or(n, k) }
	case token.XOR:
		if e.disjointBits(st, x, y) || e.disjointBits(st, y, x) {
			return nil
		}
		f = func(n *big.Int) *big.Int { return wrapBig(new(big.Int).Xor(n, k), t) }
	case token.AND:
		f = func(n *big.Int) *big.Int { return new(big.Int).And(n, k) }
	case token.AND_NOT:
		if v == y {
			return nil
		}
		f = func(n *big.Int) *big.Int { return new(big.Int).AndNot(n, k) }
	default:
		return nil
	}
	vals, ok := st.Facts.Dom(v).Values(256)
	if !ok || len(vals) == 0 {
		return nil
	}
	return e.pieces(st, v, vals, f)
}

func (e *Engine) pieces(st *State, v *V, vals []int64, f func(n *big.Int) *big.Int) []piece {
	shift, send := map[int64][]int64{}, map[int64][]int64{}
	for _, n := range vals {
		r := f(big.NewInt(n)).Int64()
		shift[r-n] = append(shift[r-n], n)
		send[r] = append(send[r], n)
	}
	groups, res := shift, func(d int64) *V { return Add(v, CInt(d)) }
	if len(send) < len(shift) {
		groups, res = send, func(d int64) *V { return CInt(d) }
	}
	if len(groups) > 4 {
		return nil
	}
	var ds []int64
	for d := range groups {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(a, b int) bool { return ds[a] < ds[b] })
	var out []piece
	for j, d := range ds {
		s := st
		if j < len(ds)-1 {
			s = st.Clone()
		}
		if len(ds) > 1 && !s.Facts.Restrict(v, SetOf(groups[d]...)) {
			continue
		}
		out = append(out, piece{s, res(d)})
	}
	return out
}

// disjointBits: hi is a multiple of 2^k and 0 <= lo < 2^k.
func (e *Engine) disjointBits(st *State, hi, lo *V) bool {
	l := toLin(hi)
	k := uint(62)
	upd := func(b *big.Int) {
		if b.Sign() == 0 {
			return
		}
		if z := b.TrailingZeroBits(); z < k {
			k = z
		}
	}
	upd(l.k)
	for _, t := range l.t {
		upd(big.NewInt(t.C))
	}
	if len(l.t) == 0 && l.k.Sign() == 0 {
		return true
	}
	m := new(big.Int).Lsh(bigOne, k)
	m.Sub(m, bigOne)
	return st.Facts.Dom(lo).Subset(Range(NI(0), NBig(m)))
}

func (e *Engine) convert(st *State, i *ssa.Convert) []*State {
	x := e.val(st, i.X)
	from, to := i.X.Type(), i.Type()
	set := func(v *V) []*State { st.top().Env[i] = v; return []*State{st} }
	switch {
	case IsIntT(from) && IsIntT(to):
		if b, ok := x.BigInt(); ok {
			return set(CBigV(wrapBig(b, to)))
		}
		if st.Facts.Dom(x).Subset(TypeRange(to)) {
			return set(x)
		}
		return set(T("conv", TypeKey(from.Underlying()), to, x))
	case IsIntT(from) && isFloatV(to):
		if b, ok := x.BigInt(); ok {
			f, _ := new(big.Float).SetInt(b).Float64()
			return set(T("fconst", strconv.FormatFloat(f, 'g', -1, 64), nil))
		}
		return set(T("conv", TypeKey(from.Underlying()), to, x))
	case isFloatV(from) && isFloatV(to):
		if TypeKey(from.Underlying()) == TypeKey(to.Underlying()) {
			return set(x)
		}
		return set(T("conv", TypeKey(from.Underlying()), to, x))
	case isFloatV(from) && IsIntT(to):
		if f, ok := floatConst(x); ok && math.Abs(f) < 1<<62 && TypeRange(to).Has(int64(f)) {
			return set(CInt(int64(f)))
		}
		return set(T("conv", TypeKey(from.Underlying()), to, x))
	case isStrT(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return set(e.StrToBytes(st, x, st.top().Ctx+"/"+st.top().Fn.Name()+":"+i.Name(), to))
			}
			return set(T("conv", "runes", to, x))
		}
		if isStrT(to) {
			return set(x)
		}
	case isStrT(to):
		if _, ok := from.Underlying().(*types.Slice); ok {
			_, off, n, _ := SliceParts(x)
			if x.IsNil() {
				return set(CStr(""))
			}
			return set(e.BytesToStr(st.Facts, e.SliceContent(st, x), off, Add(off, n)))
		}
		if c, ok := x.Int(); ok {
			return set(CStr(string(rune(c))))
		}
		return set(T("conv", TypeKey(from.Underlying()), to, x))
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return set(x)
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if pt, ok := to.Underlying().(*types.Pointer); ok && x.Op == "ptr" {
			return set(extendPtr(x, T("pv", "", pt.Elem())))
		}
	}
	return set(T("conv", TypeKey(from.Underlying()), to, x))
}

// StrToBytes is []byte(s).
func (e *Engine) StrToBytes(st *State, s *V, site string, sliceT types.Type) *V {
	if c, ok := s.Str(); ok {
		vals := make([]*V, len(c))
		for j := range vals {
			vals[j] = CInt(int64(c[j]))
		}
		return e.NewSlice(st, site, types.Typ[types.Uint8], vals)
	}
	k := e.newAlloc(st, site, sliceT)
	n := StrLen(s)
	if s.Op == "b2s" {
		st.Heap[k] = T("copyrange", "", sliceT, T("zeroarr", "", sliceT), Zero, n, s.Args[0], s.Args[1])
	} else {
		st.Heap[k] = T("fromstr", "", sliceT, s)
	}
	return T("slice", "", nil, T("ptr", "", nil, k), Zero, n, n)
}

func (e *Engine) typeAssert(st *State, i *ssa.TypeAssert) []*State {
	x := e.val(st, i.X)
	set := func(s *State, v, ok *V) {
		if i.CommaOk {
			s.top().Env[i] = Tuple(v, ok)
		} else {
			s.top().Env[i] = v
		}
	}
	var cond, val *V
	if types.IsInterface(i.AssertedType) {
		it := i.AssertedType.Underlying().(*types.Interface)
		val = x
		switch {
		case x.IsNil():
			cond = False
		case x.Op == "iface":
			cond = CBool(types.Implements(x.Typ, it))
		default:
			if t := st.Facts.TypeOf(x); t != nil {
				cond = CBool(types.Implements(t, it))
			} else if it.Empty() {
				cond = Not(IsNilCond(x))
			} else if xi, ok := i.X.Type().Underlying().(*types.Interface); ok && types.Implements(xi, it) {
				cond = Not(IsNilCond(x))
			} else {
				cond = T("implements", TypeKey(i.AssertedType), nil, x)
			}
		}
	} else {
		cond = IsTypeCond(x, i.AssertedType)
		if x.Op == "iface" {
			val = x.Args[0]
		} else {
			val = T("unbox", "", i.AssertedType, x)
		}
	}
	switch st.Facts.Eval(cond) {
	case 1:
		set(st, val, True)
		return []*State{st}
	case -1:
		if !i.CommaOk {
			e.require(st, False, "type assertion", i, x.String()+" is not "+typStr(i.AssertedType))
			return nil
		}
		set(st, ZeroVal(i.AssertedType), False)
		return []*State{st}
	}
	if !i.CommaOk {
		if !e.require(st, cond, "type assertion", i, x.String()+" may not be "+typStr(i.AssertedType)) {
			return nil
		}
		set(st, val, True)
		return []*State{st}
	}
	s2 := st.Clone()
	var out []*State
	if st.Facts.Assume(cond, true) {
		st.Log(i.Pos(), "assume %s is %s", x, typStr(i.AssertedType))
		set(st, val, True)
		out = append(out, st)
	}
	if s2.Facts.Assume(cond, false) {
		set(s2, ZeroVal(i.AssertedType), False)
		out = append(out, s2)
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// IsTypeCond is the condition "dynamic type of x is t".
func IsTypeCond(x *V, t types.Type) *V {
	if x.Op == "iface" {
		return CBool(TypeKey(x.Typ) == TypeKey(t))
	}
	if x.IsNil() {
		return False
	}
	return T("istype", "", t, x)
}

func (e *Engine) next(st *State, i *ssa.Next) []*State {
	st.fresh++
	it := e.val(st, i.Iter)
	fr := st.top()
	tt := i.Type().(*types.Tuple)
	if it.Op == "iter" && it.Aux == "map" {
		c := it.Args[0]
		n, isn := it.Args[1].Int()
		if isn && c.Args[0].IsNil() {
			if int(n)*2+1 < len(c.Args) {
				k, v := c.Args[1+2*n], c.Args[2+2*n]
				fr.Env[i.Iter] = T("iter", "map", it.Typ, c, CInt(n+1))
				fr.Env[i] = Tuple(True, k, v)
				return []*State{st}
			}
			fr.Env[i] = Tuple(False, Nil, Nil)
			return []*State{st}
		}
	}
	if it.Op == "iter" && it.Aux == "str" {
		if s, ok := it.Args[0].Str(); ok {
			if n, ok := it.Args[1].Int(); ok {
				if int(n) < len(s) {
					w := len(s) - int(n)
					var r rune
					for j, rr := range s[n:] {
						if j == 0 {
							r = rr
						} else {
							w = j
							break
						}
					}
					fr.Env[i.Iter] = T("iter", "str", it.Typ, it.Args[0], CInt(n+int64(w)))
					fr.Env[i] = Tuple(True, CInt(n), CInt(int64(r)))
					return []*State{st}
				}
				fr.Env[i] = Tuple(False, Zero, Zero)
				return []*State{st}
			}
		}
	}
	// over-approximate: any number of iterations with arbitrary key and value
	e.markFork(st, fr)
	for h, body := range e.loopHeads(fr.Fn) {
		if body[fr.Blk] {
			if r := fr.Loops[h]; r != nil {
				r.forked = true
			}
		}
	}
	s2 := st.Clone()
	s2.top().Env[i] = Tuple(False, Nil, Nil)
	base := fr.Ctx + "/" + fr.Fn.Name() + ":" + i.Name()
	var k, v *V = Nil, Nil
	if mt, ok := it.Typ.Underlying().(*types.Map); ok {
		k = e.FreshSym(st, "rangekey:"+base, mt.Key())
		v = T("mapget", "", mt.Elem(), it.Args[0].Args[0], k)
		st.Facts.Assume(T("maphas", "", nil, it.Args[0].Args[0], k), true)
	} else {
		k = e.FreshSym(st, "rangekey:"+base, types.Typ[types.Int])
		v = e.FreshSym(st, "rangeval:"+base, types.Typ[types.Int32])
		st.Facts.Restrict(k, Range(NI(0), PosInf))
		st.Facts.Assume(le0(AddI(Sub(k, StrLen(it.Args[0])), 1)), true)
		st.Facts.Restrict(v, RangeI(0, 0x10ffff))
	}
	_ = tt
	st.top().Env[i] = Tuple(True, k, v)
	return []*State{st, s2}
}

// ---- calls ----

// ShortName is a callee's name without the analysed package's path.
func (e *Engine) ShortName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), e.Pkg.Pkg.Path()+".", "")
}

func (e *Engine) callee(st *State, c *ssa.CallCommon) (*V, []*V, bool) {
	var args []*V
	if c.IsInvoke() {
		recv := e.val(st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(st, a))
		}
		dyn := st.Facts.TypeOf(recv)
		if recv.IsNil() {
			return T("invoke", c.Method.Name(), nil), append([]*V{recv}, args...), true
		}
		if dyn != nil {
			if fn := e.Prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name()); fn != nil {
				rv := recv
				if recv.Op == "iface" {
					rv = recv.Args[0]
				} else {
					rv = T("unbox", "", dyn, recv)
				}
				return FuncV(fn), append([]*V{rv}, args...), true
			}
		}
		return T("invoke", c.Method.Name(), nil), append([]*V{recv}, args...), true
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return e.val(st, c.Value), args, true
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Pkg == e.Pkg {
		return true
	}
	if fn.Pkg == nil { // wrappers, bound methods, instantiations
		if fn.Object() != nil && fn.Object().Pkg() == e.Pkg.Pkg {
			return true
		}
		if p := fn.Parent(); p != nil {
			return e.inlinable(p)
		}
		if fn.Synthetic != "" && strings.Contains(fn.String(), e.Pkg.Pkg.Path()) {
			return true
		}
	}
	if smallExt(fn) {
		return true
	}
	return e.InlineExt != nil && e.InlineExt(fn)
}

// smallExt: library helpers that are interpreted from their source.
func smallExt(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil || fn.Signature.Recv() != nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes", "internal/stringslite":
		switch fn.Name() {
		case "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix":
			return true
		}
	case "slices":
		switch fn.Name() {
		case "Contains", "Index", "IndexFunc", "ContainsFunc", "Equal", "Reverse":
			return true
		}
	}
	return false
}

func (e *Engine) callValue(st *State, fnv *V, args []*V, call ssa.CallInstruction, instr ssa.Instruction, sig *types.Signature) ([]Out, bool) {
	ctx := &CallCtx{E: e, Args: args, Sig: sig}
	ctx.Instr = call
	switch fnv.Op {
	case "func", "closure":
		ctx.Fn = fnv.Fn
		ctx.Name = e.ShortName(fnv.Fn)
		if sig == nil {
			ctx.Sig = fnv.Fn.Signature
		}
	case "builtin":
		return e.builtin(st, fnv.Aux, args, call, instr)
	case "invoke":
		ctx.Name = "invoke:" + fnv.Aux
		if args[0].IsNil() {
			e.require(st, False, "nil dereference", instr, "method "+fnv.Aux+" of nil interface")
			return nil, false
		}
	case "nil":
		e.require(st, False, "nil dereference", instr, "call of nil function")
		return nil, false
	default:
		ctx.Name = "dyn"
		ctx.Args = append([]*V{fnv}, args...)
	}
	if e.AnyCall != nil {
		if outs, ok := e.AnyCall(ctx, st); ok {
			return outs, false
		}
	}
	if h := e.Hooks[ctx.Name]; h != nil {
		if outs, ok := h(ctx, st); ok {
			return outs, false
		}
	}
	if h := defaultHooks[ctx.Name]; h != nil {
		if outs, ok := h(ctx, st); ok {
			return outs, false
		}
	}
	if ctx.Name == "(*sync.Once).Do" && len(args) == 2 && (args[1].Op == "func" || args[1].Op == "closure") {
		k := "once:" + args[0].String()
		if st.Ghost[k] != nil {
			return []Out{{st, Nil}}, false
		}
		st.Ghost[k] = True
		return e.callValue(st, args[1], nil, call, instr, nil)
	}
	if ctx.Fn != nil && e.inlinable(ctx.Fn) {
		n := 0
		for _, f := range st.Frames {
			if f.Fn == ctx.Fn {
				n++
			}
		}
		if n <= e.MaxRec {
			var free []*V
			if fnv.Op == "closure" {
				free = fnv.Args
			}
			if call != nil {
				if c, ok := call.(*ssa.Call); ok {
					e.push(st, ctx.Fn, args, free, c, nil)
					return nil, true
				}
			}
			e.push(st, ctx.Fn, args, free, nil, nil)
			return nil, true
		}
		if e.NoWiden {
			var free []*V
			if fnv.Op == "closure" {
				free = fnv.Args
			}
			now := e.recSnap(st, args, free)
			for _, f := range st.Frames {
				if f.Fn == ctx.Fn && f.rec != nil && f.rec.sameAs(now) {
					e.fin(&Final{St: st, Panic: true, Instr: instr, What: "endless recursion: " + ctx.Fn.Name() + " calls itself again with nothing changed"})
					return nil, false
				}
			}
		}
		e.Undec("recursive call of %s is not summarised", ctx.Name)
		if e.NoWiden {
			return nil, false // what lies beyond is not judged
		}
	}
	return e.external(ctx, st, instr), false
}

func (e *Engine) doCall(st *State, i *ssa.Call) (*State, bool) {
	fnv, args, _ := e.callee(st, &i.Call)
	if c, ok := fnv, true; ok && c.Op != "func" && c.Op != "closure" && c.Op != "builtin" && c.Op != "invoke" && c.Op != "nil" {
		if !e.nonNil(st, fnv, i) {
			return nil, true
		}
	}
	outs, pushed := e.callValue(st, fnv, args, i, i, i.Call.Signature())
	if pushed {
		return st, false
	}
	var live []*State
	for _, o := range outs {
		if o.St == nil || o.St.dead {
			continue
		}
		o.St.top().Env[i] = o.Ret
		o.St.top().IP++
		live = append(live, o.St)
	}
	if len(live) == 0 {
		return nil, true
	}
	if len(live) > 1 {
		e.markCallFork(live[0], i)
	}
	e.work = append(e.work, live[1:]...)
	return live[0], false
}

// a call with several outcomes is not a loop exit by itself; nothing to mark.
func (e *Engine) markCallFork(st *State, i *ssa.Call) {}

func (e *Engine) builtin(st *State, name string, args []*V, call ssa.CallInstruction, instr ssa.Instruction) ([]Out, bool) {
	ret := func(v *V) ([]Out, bool) { return []Out{{st, v}}, false }
	var cc *ssa.CallCommon
	if call != nil {
		cc = call.Common()
	}
	switch name {
	case "len":
		return ret(e.LenOf(st, args[0], cc.Args[0].Type()))
	case "cap":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			_, _, n, c := SliceParts(args[0])
			st.Facts.Assume(le0(Sub(n, c)), true)
			return ret(c)
		}
		return ret(e.LenOf(st, args[0], cc.Args[0].Type()))
	case "append":
		return ret(e.doAppend(st, args, cc, instr))
	case "copy":
		return ret(e.doCopy(st, args, cc))
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := mapKey(args[0])
		c := e.MapContent(st, args[0])
		na := []*V{c.Args[0]}
		for i := 1; i+1 < len(c.Args); i += 2 {
			q := e.mapEq(st, c.Args[i], args[1], mt.Key())
			if q > 0 {
				continue
			}
			if q == 0 {
				e.Undec("delete of an undecided map key at %s", e.Pos(InstrPos(instr)))
			}
			na = append(na, c.Args[i], c.Args[i+1])
		}
		if !c.Args[0].IsNil() {
			na[0] = T("mapdel", "", nil, c.Args[0], args[1])
		}
		st.Heap[k] = T("mapv", "", nil, na...)
		return ret(Tuple())
	case "recover":
		return ret(Nil)
	case "print", "println":
		return ret(Tuple())
	case "min", "max":
		t := cc.Args[0].Type()
		cur := args[0]
		for _, a := range args[1:] {
			op := token.LEQ
			if name == "max" {
				op = token.GEQ
			}
			switch st.Facts.Eval(Cmp(op, cur, a, t)) {
			case 1:
			case -1:
				cur = a
			default:
				r := T("call", name, t, cur, a)
				if IsIntT(t) {
					if name == "min" {
						st.Facts.Assume(le0(Sub(r, cur)), true)
						st.Facts.Assume(le0(Sub(r, a)), true)
					} else {
						st.Facts.Assume(le0(Sub(cur, r)), true)
						st.Facts.Assume(le0(Sub(a, r)), true)
					}
				}
				cur = r
			}
		}
		return ret(cur)
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	e.Undec("builtin %s at %s", name, e.Pos(InstrPos(instr)))
	return ret(Sym("builtin:"+name, nil))
}

func (e *Engine) doAppend(st *State, args []*V, cc *ssa.CallCommon, instr ssa.Instruction) *V {
	fr := st.top()
	stt := cc.Args[0].Type()
	sl := stt.Underlying().(*types.Slice)
	a := args[0]
	_, aoff, an, _ := SliceParts(a)
	ac := e.SliceContent(st, a)
	var bc, boff, bn *V
	if len(args) < 2 {
		return a
	}
	if isStrT(cc.Args[1].Type()) {
		b := e.StrToBytes(st, args[1], "appendstr:"+fr.Ctx+fr.Fn.Name(), types.NewSlice(types.Typ[types.Uint8]))
		_, boff, bn, _ = SliceParts(b)
		bc = e.SliceContent(st, b)
	} else {
		_, boff, bn, _ = SliceParts(args[1])
		bc = e.SliceContent(st, args[1])
	}
	if bn == Zero {
		return a
	}
	name := "append"
	if v, ok := instr.(ssa.Value); ok {
		name = v.Name()
	}
	nn := Add(an, bn)
	if r := e.appendInPlace(st, a, bn, nn, bc, boff, sl.Elem()); r != nil {
		return r
	}
	k := e.newAlloc(st, fr.Ctx+"/"+fr.Fn.Name()+":"+name, stt)
	if st.dead {
		return Nil
	}
	// all-constant shape: a literal
	if n1, ok := an.Int(); ok {
		if n2, ok := bn.Int(); ok && n1+n2 <= maxLit {
			idx := make([]int64, 0, n1+n2)
			vals := make([]*V, 0, n1+n2)
			for i := int64(0); i < n1; i++ {
				idx, vals = append(idx, i), append(vals, e.ArrRead(st.Facts, ac, AddI(aoff, i), sl.Elem()))
			}
			for i := int64(0); i < n2; i++ {
				idx, vals = append(idx, n1+i), append(vals, e.ArrRead(st.Facts, bc, AddI(boff, i), sl.Elem()))
			}
			st.Heap[k] = ArrLit(stt, T("zeroarr", "", stt), idx, vals)
			return T("slice", "", nil, T("ptr", "", nil, k), Zero, nn, nn)
		}
	}
	var c *V
	if aoff == Zero && ac.Op != "zeroarr" {
		c = ac // same indexing; contents beyond len are never read
	} else {
		c = T("copyrange", "", stt, T("zeroarr", "", stt), Zero, an, ac, aoff)
	}
	if n2, ok := bn.Int(); ok && n2 <= 16 {
		for i := int64(0); i < n2; i++ {
			c = e.ArrWrite(st.Facts, c, AddI(an, i), e.ArrRead(st.Facts, bc, AddI(boff, i), sl.Elem()))
		}
	} else {
		c = T("copyrange", "", stt, c, an, bn, bc, boff)
	}
	st.Heap[k] = c
	return T("slice", "", nil, T("ptr", "", nil, k), Zero, nn, nn)
}

// appendInPlace is append where the capacity is known to suffice: the elements
// go into the array shared with every other slice of it.
func (e *Engine) appendInPlace(st *State, a, bn, nn, bc, boff *V, et types.Type) *V {
	p, off, an, c := SliceParts(a)
	n, ok := bn.Int()
	if !ok || n > 16 || p.Op != "ptr" || p.Args[0].Op != "alloc" {
		return nil
	}
	if _, ok := an.Int(); !ok {
		return nil
	}
	if _, ok := c.Int(); !ok || st.Facts.Eval(le0(Sub(nn, c))) <= 0 {
		return nil
	}
	var vs []*V
	for i := int64(0); i < n; i++ {
		vs = append(vs, e.ArrRead(st.Facts, bc, AddI(boff, i), et))
	}
	cc := e.SliceContent(st, a)
	for i, v := range vs {
		cc = e.ArrWrite(st.Facts, cc, AddI(Add(off, an), int64(i)), v)
	}
	if e.OnStore != nil {
		e.OnStore(e, st, extendPtr(p, PI(off, et)), cc, nil)
	}
	st.Heap[p.Args[0]] = e.update(st, e.Content(st, p.Args[0]), p.Args[1:], cc)
	return T("slice", "", nil, p, off, nn, c)
}

func (e *Engine) doCopy(st *State, args []*V, cc *ssa.CallCommon) *V {
	dp, doff, dn, _ := SliceParts(args[0])
	var sc, soff, sn *V
	if isStrT(cc.Args[1].Type()) {
		sn, soff = StrLen(args[1]), Zero
		sc = T("fromstr", "", nil, args[1])
		if args[1].Op == "b2s" {
			sc, soff = args[1].Args[0], args[1].Args[1]
		}
	} else {
		_, soff, sn, _ = SliceParts(args[1])
		sc = e.SliceContent(st, args[1])
	}
	n := dn
	switch st.Facts.Eval(le0(Sub(sn, dn))) {
	case 1:
		n = sn
	case 0:
		n = T("call", "min", types.Typ[types.Int], dn, sn)
		st.Facts.Restrict(n, Range(NI(0), PosInf))
		st.Facts.Assume(le0(Sub(n, dn)), true)
		st.Facts.Assume(le0(Sub(n, sn)), true)
	}
	if dp.IsNil() || n == Zero {
		return n
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	old := e.SliceContent(st, args[0])
	var c *V
	if k, ok := n.Int(); ok && k <= 64 {
		c = old
		var vs []*V
		for i := int64(0); i < k; i++ {
			vs = append(vs, e.ArrRead(st.Facts, sc, AddI(soff, i), et))
		}
		for i := int64(0); i < k; i++ {
			c = e.ArrWrite(st.Facts, c, AddI(doff, i), vs[i])
		}
	} else {
		c = T("copyrange", "", old.Typ, old, doff, n, sc, soff)
	}
	if e.OnStore != nil {
		e.OnStore(e, st, extendPtr(dp, PI(doff, et)), c, nil)
	}
	st.Heap[dp.Args[0]] = e.update(st, e.Content(st, dp.Args[0]), dp.Args[1:], c)
	return n
}

// Snap captures the contents a call argument refers to.
func (e *Engine) Snap(st *State, v *V) *V { return e.snap(st, v, 0) }

func (e *Engine) snap(st *State, v *V, d int) *V {
	if d > 6 {
		return v
	}
	switch v.Op {
	case "slice":
		_, off, n, _ := SliceParts(v)
		c := e.SliceContent(st, v)
		if c.Op == "arrlit" {
			vals := make([]*V, len(c.Args)-1)
			for i := range vals {
				vals[i] = e.snap(st, c.Args[i+1], d+1)
			}
			c = ArrLit(c.Typ, c.Args[0], c.Idx, vals)
		}
		return T("sl", "", nil, c, off, n)
	case "ptr":
		if v.Args[0].Op == "alloc" {
			return T("obj", "", nil, e.snap(st, e.Load(st, v, nil), d+1))
		}
	case "map":
		return T("mapsnap", "", nil, e.MapContent(st, v))
	case "iface":
		a := e.snap(st, v.Args[0], d+1)
		if a != v.Args[0] {
			return T("iface", "", v.Typ, a)
		}
	case "struct":
		args := make([]*V, len(v.Args))
		for i, a := range v.Args {
			args[i] = e.snap(st, a, d+1)
		}
		return T("struct", "", v.Typ, args...)
	default:
		if v.Typ != nil {
			if _, ok := v.Typ.Underlying().(*types.Slice); ok {
				c := e.SliceContent(st, v)
				if c.Op != "arr" {
					_, off, n, _ := SliceParts(v)
					return T("sl", "", nil, c, off, n)
				}
			}
		}
	}
	return v
}

func resultOf(name string, sig *types.Signature, args []*V) *V {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return Tuple()
	case 1:
		return T("call", name, rs.At(0).Type(), args...)
	}
	c := T("call", name, nil, args...)
	out := make([]*V, rs.Len())
	for i := range out {
		out[i] = T("ret", strconv.Itoa(i), rs.At(i).Type(), c)
	}
	return Tuple(out...)
}

var purePkgs = map[string]bool{
	"errors": true, "fmt": true, "strings": true, "strconv": true, "math": true, "bytes": true,
	"unicode/utf8": true, "unicode": true, "time": true, "regexp": true, "reflect": true, "math/bits": true,
	"encoding/json": true, "sort": true, "os": true, "math/rand": true, "path": true,
	"encoding/binary": true,
}

// external models a call of a function outside the package.
func (e *Engine) external(c *CallCtx, st *State, instr ssa.Instruction) []Out {
	st.fresh++
	snapped := make([]*V, len(c.Args))
	for i, a := range c.Args {
		snapped[i] = e.Snap(st, a)
	}
	name := c.Name
	if c.Fn != nil {
		name = c.Fn.String()
	}
	known := false
	if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && purePkgs[c.Fn.Object().Pkg().Path()] {
		known = true
	}
	if c.Fn != nil && c.Fn.Name() == "init" {
		return []Out{{st, Tuple()}}
	}
	if !known && (e.PureCall == nil || !e.PureCall(name)) {
		e.Undec("call of %s at %s is not modelled", name, e.Pos(InstrPos(instr)))
	}
	// pointer receivers and pointer arguments to local objects may be mutated
	for i, a := range c.Args {
		if a.Op == "iface" {
			a = a.Args[0]
		}
		if a.Op == "ptr" && !readOnlyRecv(name) {
			et := types.Type(nil)
			if c.Fn != nil && i < len(c.Fn.Params) {
				if pt, ok := c.Fn.Params[i].Type().Underlying().(*types.Pointer); ok {
					et = pt.Elem()
				}
			}
			if et == nil {
				if old := e.Load(st, a, nil); old.Typ != nil {
					et = old.Typ
				}
			}
			e.Store(st, a, et, T("mut", name, et, snapped...))
		}
		if a.Op == "slice" && mutatesSlice[name] {
			p, _, _, _ := SliceParts(a)
			st.Heap[p.Args[0]] = T("mutarr", name, nil, append([]*V{e.Content(st, p.Args[0])}, snapped...)...)
		}
	}
	r := resultOf(name, c.Sig, snapped)
	if e.opaque == nil {
		e.opaque = map[*V]bool{}
	}
	seen := map[*V]bool{}
	r.Walk(seen)
	for x := range seen {
		if x.Op == "call" && x.Aux == name {
			e.opaque[x] = true
		}
	}
	return []Out{{st, r}}
}

var mutatesSlice = map[string]bool{
	"unicode/utf8.EncodeRune": true, "sort.Strings": true, "sort.Slice": true, "sort.Sort": true, "sort.Stable": true,
	"sort.Ints": true, "math/rand.Read": true, "io.ReadFull": true,
}

func readOnlyRecv(name string) bool {
	return strings.HasPrefix(name, "(*regexp.Regexp)") || strings.HasPrefix(name, "fmt.") ||
		strings.HasPrefix(name, "(*time.Location)") || strings.HasPrefix(name, "errors.") ||
		strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(time.Time)") ||
		strings.HasPrefix(name, "(*strings.Builder).Len") || strings.HasPrefix(name, "(*strings.Builder).String")
}

// defaultHooks are precise models of a few library functions.
var defaultHooks = map[string]Hook{
	"bytes.IndexByte": func(c *CallCtx, st *State) ([]Out, bool) {
		_, off, n, _ := SliceParts(c.Args[0])
		ct := c.E.SliceContent(st, c.Args[0])
		r := T("call", "bytes.IndexByte", types.Typ[types.Int], ct, off, n, c.Args[1])
		st.Facts.Restrict(r, Range(NI(-1), PosInf))
		st.Facts.Assume(le0(AddI(Sub(r, n), 1)), true)
		s2 := st.Clone()
		var outs []Out
		if st.Facts.Restrict(r, SetOf(-1)) {
			outs = append(outs, Out{st, CInt(-1)})
		}
		if s2.Facts.Restrict(r, Range(NI(0), PosInf)) {
			el := c.E.ArrRead(s2.Facts, ct, Add(off, r), types.Typ[types.Uint8])
			if s2.Facts.Assume(Cmp(token.EQL, el, c.Args[1], types.Typ[types.Uint8]), true) {
				outs = append(outs, Out{s2, r})
			}
		}
		return outs, true
	},
	"unicode/utf8.EncodeRune": func(c *CallCtx, st *State) ([]Out, bool) {
		p, off, n, _ := SliceParts(c.Args[0])
		r := T("call", "utf8.EncodeRune.n", types.Typ[types.Int], c.Args[1])
		st.Facts.Restrict(r, RangeI(1, 4))
		d := st.Facts.Dom(c.Args[1])
		switch {
		case d.Subset(RangeI(0, 0x7f)):
			st.Facts.Restrict(r, SetOf(1))
		case d.Subset(RangeI(0, 0x7ff)):
			st.Facts.Restrict(r, RangeI(1, 2))
		case d.Subset(RangeI(0, 0xffff)):
			st.Facts.Restrict(r, RangeI(1, 3))
		}
		if !c.E.require(st, le0(Sub(r, n)), "index out of range", c.Instr, "utf8.EncodeRune into a short buffer") {
			return nil, true
		}
		if !p.IsNil() {
			old := c.E.SliceContent(st, c.Args[0])
			nc := T("copyrange", "", old.Typ, old, off, r, T("encrune", "", nil, c.Args[1]), Zero)
			st.Heap[p.Args[0]] = c.E.update(st, c.E.Content(st, p.Args[0]), p.Args[1:], nc)
		}
		return []Out{{st, r}}, true
	},
	"bytes.Compare": func(c *CallCtx, st *State) ([]Out, bool) {
		s := func(x *V) *V {
			_, off, n, _ := SliceParts(x)
			if x.IsNil() {
				return CStr("")
			}
			return c.E.BytesToStr(st.Facts, c.E.SliceContent(st, x), off, Add(off, n))
		}
		return []Out{{st, T("strcmp", "", nil, s(c.Args[0]), s(c.Args[1]))}}, true
	},
	"bytes.Equal": func(c *CallCtx, st *State) ([]Out, bool) {
		s := func(x *V) *V {
			_, off, n, _ := SliceParts(x)
			if x.IsNil() {
				return CStr("")
			}
			return c.E.BytesToStr(st.Facts, c.E.SliceContent(st, x), off, Add(off, n))
		}
		return []Out{{st, ordCond("sord", token.EQL, s(c.Args[0]), s(c.Args[1]))}}, true
	},
	"strconv.Itoa": func(c *CallCtx, st *State) ([]Out, bool) {
		return []Out{{st, decimal(c.Args[0])}}, true
	},
	"strconv.FormatInt": func(c *CallCtx, st *State) ([]Out, bool) {
		if b, ok := c.Args[1].Int(); !ok || b != 10 {
			return nil, false
		}
		return []Out{{st, decimal(c.Args[0])}}, true
	},
	"strconv.FormatUint": func(c *CallCtx, st *State) ([]Out, bool) {
		if b, ok := c.Args[1].Int(); !ok || b != 10 {
			return nil, false
		}
		return []Out{{st, decimal(c.Args[0])}}, true
	},
	"fmt.Sprintf": func(c *CallCtx, st *State) ([]Out, bool) {
		f, ok := c.Args[0].Str()
		if !ok {
			return nil, false
		}
		var args []*V
		if !c.Args[1].IsNil() {
			p, off, n, _ := SliceParts(c.Args[1])
			k, ok := n.Int()
			if !ok {
				return nil, false
			}
			anyT := types.NewInterfaceType(nil, nil)
			for i := int64(0); i < k; i++ {
				args = append(args, c.E.Load(st, ExtendPtr(p, PI(AddI(off, i), anyT)), anyT))
			}
		}
		out := CStr("")
		lit := ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				lit += f[i : i+1]
				continue
			}
			i++
			if i >= len(f) || len(args) == 0 || args[0].Op != "iface" || args[0].Typ == nil {
				return nil, false
			}
			t, v := args[0].Typ, args[0].Args[0]
			args = args[1:]
			b, isB := types.Unalias(t).(*types.Basic)
			switch {
			case isB && b.Info()&types.IsString != 0 && (f[i] == 's' || f[i] == 'v'):
			case isB && b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v'):
				v = decimal(v)
			default:
				return nil, false
			}
			out = Concat(Concat(out, CStr(lit)), v)
			lit = ""
		}
		if len(args) > 0 {
			return nil, false
		}
		return []Out{{st, Concat(out, CStr(lit))}}, true
	},
	"strings.Compare": func(c *CallCtx, st *State) ([]Out, bool) {
		return []Out{{st, T("strcmp", "", nil, c.Args[0], c.Args[1])}}, true
	},
}

// decimal is the decimal form of an integer.
func decimal(v *V) *V {
	if n, ok := v.BigInt(); ok {
		return CStr(n.String())
	}
	return T("call", "strconv.FormatInt", types.Typ[types.String], v, CInt(10))
}

var _ = constant.MakeBool
