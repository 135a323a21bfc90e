package absint

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callDep reports whether a loop's exit condition is computed from the result
// of a call made inside the loop (so that exact unrolling need not end).
func (e *Engine) callDep(fn *ssa.Function, body map[*ssa.BasicBlock]bool, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !body[in.Block()] {
			return false
		}
		switch x := in.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return true
			}
		case *ssa.Next:
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func (e *Engine) noteExit(st *State, fr *Frame, i *ssa.If) {
	if e.NoWiden {
		return
	}
	for h, body := range e.loopHeads(fr.Fn) {
		if !body[fr.Blk] {
			continue
		}
		r := fr.Loops[h]
		if r == nil || r.forked {
			continue
		}
		for _, s := range fr.Blk.Succs {
			if !body[s] && e.callDep(fr.Fn, body, i.Cond) {
				r.forked = true
			}
		}
	}
}

// Debug prints widening steps.
var Debug bool

type widener struct {
	e       *Engine
	old     *Facts
	nw      *Facts
	sub     map[*V]*V // substitution applied to new terms
	memo    map[*V]*V
	stale   map[*V]bool
	leaders []*V
	oval    map[*V]*V // leader -> value in the old state
	nval    map[*V]*V // leader -> value in the new state
	mention map[*V]bool
	changed bool
	force   bool
}

func (w *widener) s(v *V) *V { return Subst(v, w.sub, w.memo) }

func (w *widener) hasStale(v *V) bool {
	for s := range w.stale {
		if v.Mentions(s) {
			return true
		}
	}
	return false
}

func isWide(v *V) bool { return v.Op == "sym" && strings.HasPrefix(v.Aux, "w:") }

func (w *widener) fresh(name string, t types.Type) *V {
	for n := 0; ; n++ {
		s := Sym("w:"+name+strings.Repeat("'", n), t)
		if !w.mention[s] {
			w.mention[s] = true
			return s
		}
	}
}

// integer location
func (w *widener) genInt(name string, t types.Type, o, n *V) *V {
	for _, l := range w.leaders {
		if _, isNew := w.oval[l]; !isNew {
			continue
		}
		d1, d2 := Sub(o, w.oval[l]), Sub(n, w.nval[l])
		if d1 == d2 && !w.hasStale(d1) {
			return Add(l, d1)
		}
		s1, s2 := Add(o, w.oval[l]), Add(n, w.nval[l])
		if s1 == s2 && !w.hasStale(s1) {
			return Sub(s1, l)
		}
	}
	l := w.fresh(name, t)
	w.leaders = append(w.leaders, l)
	w.oval[l], w.nval[l] = o, n
	w.changed = true
	return l
}

func enumType(t types.Type) bool {
	_, named := t.(*types.Named)
	return named
}

// gen generalises old value o and (substituted) new value n at a location.
func (w *widener) gen(name string, t types.Type, o, n *V) *V {
	if o == n {
		return n
	}
	if t != nil && IsIntT(t) {
		if n.IsConst() && (enumType(t) || !isPlainInt(t)) && !w.force {
			return n
		}
		if !n.IsConst() && !o.IsConst() && !w.force && !isPlainInt(t) && !w.hasStale(n) && n.Op != "lin" && n.Op != "bin" {
			return n
		}
		return w.genInt(name, t, o, n)
	}
	if n.IsConst() && !w.force {
		return n
	}
	if o.Op == n.Op && !w.force {
		switch n.Op {
		case "struct":
			if TypeKey(o.Typ) == TypeKey(n.Typ) {
				st := n.Typ.Underlying().(*types.Struct)
				args := make([]*V, len(n.Args))
				for i := range args {
					args[i] = w.gen(name+"."+strconv.Itoa(i), st.Field(i).Type(), o.Args[i], n.Args[i])
				}
				return T("struct", "", n.Typ, args...)
			}
		case "slice":
			if o.Args[0] == n.Args[0] {
				return MkSlice(o.Args[0],
					w.gen(name+".off", types.Typ[types.Int], o.Args[1], n.Args[1]),
					w.gen(name+".len", types.Typ[types.Int], o.Args[2], n.Args[2]),
					w.gen(name+".cap", types.Typ[types.Int], o.Args[3], n.Args[3]))
			}
		case "iface":
			if TypeKey(o.Typ) == TypeKey(n.Typ) {
				return Iface(n.Typ, w.gen(name+".i", n.Typ, o.Args[0], n.Args[0]))
			}
		case "iter":
			if o.Args[0] == n.Args[0] {
				return T("iter", n.Aux, n.Typ, n.Args[0], w.gen(name+".it", types.Typ[types.Int], o.Args[1], n.Args[1]))
			}
		case "tuple":
			if len(o.Args) == len(n.Args) {
				args := make([]*V, len(n.Args))
				for i := range args {
					args[i] = w.gen(name+"."+strconv.Itoa(i), nil, o.Args[i], n.Args[i])
				}
				return T("tuple", "", nil, args...)
			}
		case "fill":
			if TypeKey(o.Typ) == TypeKey(n.Typ) && o.Args[0] == n.Args[0] && o.Args[3] == n.Args[3] {
				return T("fill", "", n.Typ, n.Args[0],
					w.gen(name+".lo", types.Typ[types.Int], o.Args[1], n.Args[1]),
					w.gen(name+".hi", types.Typ[types.Int], o.Args[2], n.Args[2]), n.Args[3])
			}
		case "arrlit":
			if n.Aux == o.Aux && o.Args[0] == n.Args[0] {
				var et types.Type
				switch u := under(n.Typ).(type) {
				case *types.Array:
					et = u.Elem()
				case *types.Slice:
					et = u.Elem()
				}
				vals := make([]*V, len(n.Args)-1)
				for i := range vals {
					vals[i] = w.gen(name+"["+strconv.FormatInt(n.Idx[i], 10)+"]", et, o.Args[i+1], n.Args[i+1])
				}
				return ArrLit(n.Typ, n.Args[0], n.Idx, vals)
			}
		case "copyrange":
			if o.Args[0] == n.Args[0] && o.Args[3] == n.Args[3] {
				it := types.Typ[types.Int]
				return T("copyrange", "", n.Typ, n.Args[0],
					w.gen(name+".dlo", it, o.Args[1], n.Args[1]),
					w.gen(name+".n", it, o.Args[2], n.Args[2]), n.Args[3],
					w.gen(name+".slo", it, o.Args[4], n.Args[4]))
			}
		case "substr", "b2s":
			if o.Args[0] == n.Args[0] {
				it := types.Typ[types.Int]
				return T(n.Op, "", n.Typ, n.Args[0],
					w.gen(name+".lo", it, o.Args[1], n.Args[1]),
					w.gen(name+".hi", it, o.Args[2], n.Args[2]))
			}
		}
	}
	// first fill of a zero array generalises to a fill range
	if n.Op == "fill" && n.Args[0] == o && !w.force {
		it := types.Typ[types.Int]
		// represent the old state as an empty fill at the new lower bound
		lo, hi := n.Args[1], n.Args[2]
		if !w.hasStale(lo) {
			return T("fill", "", n.Typ, o, lo, w.gen(name+".hi", it, lo, hi), n.Args[3])
		}
	}
	if !w.force && !w.hasStale(n) && !n.Mentions(o) && size(n) <= size(o)+8 {
		return n
	}
	if !w.force && !w.hasStale(n) && (o.IsNil() || o.IsConst()) {
		return n
	}
	w.changed = true
	if t == nil {
		t = n.Typ
	}
	return w.fresh(name+":v", t)
}

func size(v *V) int { return len(v.sub()) }

func regName(fr *Frame, v ssa.Value) string {
	return fr.Ctx + "/" + fr.Fn.Name() + "." + v.Name()
}

// widen generalises the state at a loop head.
func (e *Engine) widen(st *State, fr *Frame, b *ssa.BasicBlock) {
	rec := fr.Loops[b]
	if rec == nil {
		rec = &loopRec{}
		fr.Loops[b] = rec
	}
	rec.count++
	defer func() {
		rec.env = map[ssa.Value]*V{}
		for k, v := range fr.Env {
			rec.env[k] = v
		}
		rec.ghost = map[string]*V{}
		for k, v := range st.Ghost {
			rec.ghost[k] = v
		}
		rec.heap = map[*V]*V{}
		for k, v := range st.Heap {
			rec.heap[k] = v
		}
		rec.facts = st.Facts.Clone()
	}()
	if rec.env == nil {
		return
	}
	if !rec.forked || e.NoWiden && rec.count <= e.MaxUnroll {
		if rec.count <= e.MaxUnroll {
			return
		}
		rec.forked = true
	}
	if rec.count < 2+e.Delay {
		return
	}
	w := &widener{e: e, old: rec.facts, nw: st.Facts, sub: map[*V]*V{}, memo: map[*V]*V{}, stale: map[*V]bool{},
		oval: map[*V]*V{}, nval: map[*V]*V{}, mention: map[*V]bool{}}
	rec.wcount++
	if rec.wcount > 60 {
		w.force = true
	}
	if rec.wcount > 120 {
		e.Undec("loop at %s in %s does not stabilise", e.Pos(InstrPos(b.Instrs[0])), fr.Fn)
		st.dead = true
		return
	}
	// 1. existing leaders: widening symbols owned by this head's locations
	var envKeys []ssa.Value
	for k := range fr.Env {
		envKeys = append(envKeys, k)
	}
	sort.Slice(envKeys, func(i, j int) bool { return envKeys[i].Name() < envKeys[j].Name() })
	type repl struct{ sym, val *V }
	var reps []repl
	owned := map[*V]bool{}
	var scan func(name string, o, n *V)
	scan = func(name string, o, n *V) {
		if o == nil || n == nil {
			return
		}
		if isWide(o) && ownName(o, name) && !owned[o] {
			owned[o] = true
			if n != o {
				reps = append(reps, repl{o, n})
			}
			return
		}
		if o.Op != n.Op || len(o.Args) != len(n.Args) {
			return
		}
		switch n.Op {
		case "struct", "tuple":
			for i := range n.Args {
				scan(name+"."+strconv.Itoa(i), o.Args[i], n.Args[i])
			}
		case "slice":
			scan(name+".off", o.Args[1], n.Args[1])
			scan(name+".len", o.Args[2], n.Args[2])
			scan(name+".cap", o.Args[3], n.Args[3])
		case "iface":
			scan(name+".i", o.Args[0], n.Args[0])
		case "iter":
			scan(name+".it", o.Args[1], n.Args[1])
		case "fill":
			scan(name+".lo", o.Args[1], n.Args[1])
			scan(name+".hi", o.Args[2], n.Args[2])
		case "copyrange":
			scan(name+".dlo", o.Args[1], n.Args[1])
			scan(name+".n", o.Args[2], n.Args[2])
			scan(name+".slo", o.Args[4], n.Args[4])
		case "substr", "b2s":
			scan(name+".lo", o.Args[1], n.Args[1])
			scan(name+".hi", o.Args[2], n.Args[2])
		case "arrlit":
			if n.Aux == o.Aux {
				for i := range n.Idx {
					scan(name+"["+strconv.FormatInt(n.Idx[i], 10)+"]", o.Args[i+1], n.Args[i+1])
				}
			}
		}
	}
	for _, k := range envKeys {
		scan(regName(fr, k), rec.env[k], fr.Env[k])
	}
	var gk []string
	for k := range st.Ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		scan("ghost:"+k, rec.ghost[k], st.Ghost[k])
	}
	var hk []*V
	for k := range st.Heap {
		if e.InitHeap[k] != st.Heap[k] {
			hk = append(hk, k)
		}
	}
	sort.Slice(hk, func(i, j int) bool { return hk[i].ID < hk[j].ID })
	for _, k := range hk {
		scan("heap:"+keyName(k), rec.heap[k], st.Heap[k])
	}
	changedSyms := map[*V]bool{}
	for _, r := range reps {
		changedSyms[r.sym] = true
	}
	for _, r := range reps {
		inv := false
		if r.sym.Typ != nil && IsIntT(r.sym.Typ) {
			term := Sub(r.val, r.sym)
			ok := true
			for s := range changedSyms {
				if term.Mentions(s) {
					ok = false
				}
			}
			if ok {
				w.sub[r.sym] = Sub(r.sym, term)
				inv = true
			}
		}
		if !inv {
			s := Sym("stale:"+r.sym.Aux, r.sym.Typ)
			w.stale[s] = true
			w.sub[r.sym] = s
		}
	}
	// substituted facts
	w.nw = st.Facts.substF(w.sub)
	for _, r := range reps {
		w.leaders = append(w.leaders, r.sym)
		if w.stale[w.sub[r.sym]] {
			w.nval[r.sym] = w.s(r.val)
		} else {
			w.nval[r.sym] = r.sym
		}
	}
	// symbols already in use
	use := map[*V]bool{}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			v.Walk(use)
		}
	}
	for _, v := range st.Ghost {
		v.Walk(use)
	}
	for _, k := range hk {
		k.Walk(use)
		st.Heap[k].Walk(use)
	}
	for v := range use {
		if isWide(v) {
			w.mention[v] = true
		}
	}
	// 2. all locations
	loc := func(name string, t types.Type, o, n *V) *V {
		if isWide(n) && owned[n] && o == n && w.sub[n] == nil {
			return n
		}
		for _, r := range reps {
			if r.sym == o && ownName(o, name) {
				return r.sym
			}
		}
		return w.genOwn(name, t, o, w.s(n), reps0(func(s *V) bool { return changedSyms[s] }))
	}
	for _, k := range envKeys {
		o := rec.env[k]
		n := fr.Env[k]
		if o == nil {
			fr.Env[k] = w.unstale(regName(fr, k), k.Type(), w.s(n))
			continue
		}
		fr.Env[k] = w.unstale(regName(fr, k), k.Type(), loc(regName(fr, k), k.Type(), o, n))
	}
	for _, k := range gk {
		o, n := rec.ghost[k], st.Ghost[k]
		sn := w.s(n)
		t := n.Typ
		if _, isInt := n.Int(); n.Op == "lin" || isInt {
			t = types.Typ[types.Int]
		}
		if o != nil && !n.IsConst() {
			sn = loc("ghost:"+k, t, o, n)
		}
		st.Ghost[k] = w.unstale("ghost:"+k, t, sn)
	}
	for _, k := range hk {
		o, n := rec.heap[k], st.Heap[k]
		if o == nil {
			st.Heap[k] = w.unstale("heap:"+keyName(k), n.Typ, w.s(n))
			continue
		}
		t := n.Typ
		if t == nil {
			t = k.Typ
			if k.Op == "global" {
				t = k.Typ.(*types.Pointer).Elem()
			}
		}
		if k.Typ != nil && k.Op == "alloc" && IsIntT(k.Typ) {
			t = k.Typ
		}
		st.Heap[k] = w.unstale("heap:"+keyName(k), t, loc("heap:"+keyName(k), t, o, n))
	}
	// heap keys that mention changed symbols
	for _, k := range hk {
		nk := w.s(k)
		if nk != k {
			v := st.Heap[k]
			delete(st.Heap, k)
			if !w.hasStale(nk) {
				st.Heap[nk] = v
			}
		}
	}
	for _, f := range st.Frames[:len(st.Frames)-1] {
		for k, v := range f.Env {
			f.Env[k] = w.unstale(regName(f, k), k.Type(), w.s(v))
		}
	}
	// 3. facts
	st.Facts = w.facts()
	if Debug {
		println("---- widen", fr.Fn.Name(), b.Index, rec.wcount, "reps", len(reps))
		for _, k := range envKeys {
			if rec.env[k] != nil {
				println(k.Name(), rec.env[k].String(), "=>", fr.Env[k].String())
			} else {
				println(k.Name(), "nil =>", fr.Env[k].String())
			}
		}
		for _, k := range gk {
			println(k, rec.ghost[k].String(), "=>", st.Ghost[k].String())
		}
		for _, l := range w.leaders {
			print("leader ", l.String())
			if w.oval[l] != nil {
				print(" o ", w.oval[l].String())
			}
			println(" n ", w.nval[l].String())
		}
		for _, l := range st.Facts.Dump() {
			println("   ", l)
		}
	}
}

func reps0(f func(*V) bool) func(*V) bool { return f }

// genOwn is gen, except that a location already carrying its own changed
// widening symbol keeps it.
func (w *widener) genOwn(name string, t types.Type, o, n *V, changed func(*V) bool) *V {
	if isWide(o) && changed(o) && ownName(o, name) {
		return o
	}
	if o.Op == n.Op && len(o.Args) == len(n.Args) && o != n {
		// descend where gen would, so nested owned symbols are kept
		switch n.Op {
		case "struct", "slice", "fill", "copyrange", "substr", "b2s", "iface", "iter", "arrlit", "tuple":
			return w.genDeep(name, t, o, n, changed)
		}
	}
	return w.gen(name, t, o, n)
}

func (w *widener) genDeep(name string, t types.Type, o, n *V, changed func(*V) bool) *V {
	it := types.Type(types.Typ[types.Int])
	switch n.Op {
	case "struct":
		if TypeKey(o.Typ) == TypeKey(n.Typ) {
			st := n.Typ.Underlying().(*types.Struct)
			args := make([]*V, len(n.Args))
			for i := range args {
				args[i] = w.genOwn(name+"."+strconv.Itoa(i), st.Field(i).Type(), o.Args[i], n.Args[i], changed)
			}
			return T("struct", "", n.Typ, args...)
		}
	case "slice":
		if o.Args[0] == n.Args[0] {
			return MkSlice(o.Args[0], w.genOwn(name+".off", it, o.Args[1], n.Args[1], changed),
				w.genOwn(name+".len", it, o.Args[2], n.Args[2], changed), w.genOwn(name+".cap", it, o.Args[3], n.Args[3], changed))
		}
	case "fill":
		if o.Args[0] == n.Args[0] && o.Args[3] == n.Args[3] {
			return T("fill", "", n.Typ, n.Args[0], w.genOwn(name+".lo", it, o.Args[1], n.Args[1], changed),
				w.genOwn(name+".hi", it, o.Args[2], n.Args[2], changed), n.Args[3])
		}
	case "copyrange":
		if o.Args[0] == n.Args[0] && o.Args[3] == n.Args[3] {
			return T("copyrange", "", n.Typ, n.Args[0], w.genOwn(name+".dlo", it, o.Args[1], n.Args[1], changed),
				w.genOwn(name+".n", it, o.Args[2], n.Args[2], changed), n.Args[3], w.genOwn(name+".slo", it, o.Args[4], n.Args[4], changed))
		}
	case "substr", "b2s":
		if o.Args[0] == n.Args[0] {
			return T(n.Op, "", n.Typ, n.Args[0], w.genOwn(name+".lo", it, o.Args[1], n.Args[1], changed),
				w.genOwn(name+".hi", it, o.Args[2], n.Args[2], changed))
		}
	}
	return w.gen(name, t, o, n)
}

func ownName(s *V, name string) bool {
	a := strings.TrimRight(strings.TrimPrefix(s.Aux, "w:"), "'")
	return a == name || a == name+":v"
}

func keyName(k *V) string { return k.Op + k.Aux + "." + strconv.Itoa(k.ID) }

// unstale replaces a value that still depends on forgotten symbols.
func (w *widener) unstale(name string, t types.Type, v *V) *V {
	if len(w.stale) == 0 || !w.hasStale(v) {
		return v
	}
	w.changed = true
	switch v.Op {
	case "struct":
		st := v.Typ.Underlying().(*types.Struct)
		args := make([]*V, len(v.Args))
		for i := range args {
			args[i] = w.unstale(name+"."+strconv.Itoa(i), st.Field(i).Type(), v.Args[i])
		}
		return T("struct", "", v.Typ, args...)
	case "tuple":
		args := make([]*V, len(v.Args))
		for i := range args {
			args[i] = w.unstale(name+"."+strconv.Itoa(i), v.Args[i].Typ, v.Args[i])
		}
		return T("tuple", "", nil, args...)
	case "iface":
		return Iface(v.Typ, w.unstale(name+".i", v.Typ, v.Args[0]))
	}
	if t != nil && IsIntT(t) {
		l := w.fresh(name, t)
		w.leaders = append(w.leaders, l)
		w.nval[l] = v
		w.oval[l] = nil
		return l
	}
	if t == nil {
		t = v.Typ
	}
	return w.fresh(name+":v", t)
}

// substF rewrites every fact with a substitution.
func (f *Facts) substF(m map[*V]*V) *Facts {
	if len(m) == 0 {
		return f
	}
	memo := map[*V]*V{}
	g := NewFacts()
	for k, d := range f.dom {
		nk := Subst(k, m, memo)
		if nk == k {
			if o, ok := g.dom[k]; ok {
				d = d.Intersect(o)
			}
			g.dom[k] = d
			continue
		}
		g.Restrict(nk, d)
	}
	for k, t := range f.truth {
		g.truth[Subst(k, m, memo)] = t
	}
	for k, o := range f.ord {
		a, b := Subst(k[0], m, memo), Subst(k[1], m, memo)
		if a.ID > b.ID {
			a, b, o = b, a, flipMask(o)
		}
		if p, ok := g.ord[[2]*V{a, b}]; ok {
			o &= p
		}
		g.ord[[2]*V{a, b}] = o
	}
	for k, t := range f.typ {
		g.typ[Subst(k, m, memo)] = t
	}
	return g
}

// facts computes the widened fact set.
func (w *widener) facts() *Facts {
	R := NewFacts()
	isL := map[*V]bool{}
	for _, l := range w.leaders {
		isL[l] = true
	}
	mentionsL := func(v *V) bool {
		for l := range isL {
			if v.Mentions(l) {
				return true
			}
		}
		return false
	}
	osub, nsub := map[*V]*V{}, map[*V]*V{}
	dead := map[*V]bool{}
	for _, l := range w.leaders {
		if o, ok := w.oval[l]; ok {
			if o == nil {
				dead[l] = true
				continue
			}
			osub[l] = o
		}
		nsub[l] = w.nval[l]
	}
	om, nm := map[*V]*V{}, map[*V]*V{}
	oldv := func(v *V) *V { return Subst(v, osub, om) }
	newv := func(v *V) *V { return Subst(v, nsub, nm) }
	var base = w.nw
	add := func(k *V) {
		for d := range dead {
			if k.Mentions(d) {
				return
			}
		}
		od := w.old.Dom(oldv(k))
		nd := base.Dom(newv(k))
		var d ISet
		if nd.Subset(od) {
			d = od
		} else {
			lo, hi := NegInf, PosInf
			if len(od) > 0 && len(nd) > 0 {
				if nd.Lo().Cmp(od.Lo()) >= 0 {
					lo = od.Lo()
				} else {
					for _, th := range []int64{-1, 0, 1} {
						if nd.Lo().Cmp(NI(th)) >= 0 {
							lo = NI(th)
						}
					}
				}
				if nd.Hi().Cmp(od.Hi()) <= 0 {
					hi = od.Hi()
				} else {
					for _, th := range []int64{1, 0, -1} {
						if nd.Hi().Cmp(NI(th)) <= 0 {
							hi = NI(th)
						}
					}
				}
			}
			d = Range(lo, hi)
		}
		l := toLin(k)
		if len(l.t) == 1 && l.t[0].C == 1 {
			d = d.Intersect(atomDefault(k))
		}
		if d.IsFull() {
			return
		}
		R.Restrict(k, d)
	}
	atoms := map[*V]bool{}
	for k, d := range base.dom {
		if w.hasStale(k) {
			continue
		}
		if !mentionsL(k) {
			R.dom[k] = d
			for _, t := range toLin(k).t {
				atoms[t.A] = true
			}
			continue
		}
		add(k)
		for _, t := range toLin(k).t {
			atoms[t.A] = true
		}
	}
	collect := func(v *V) {
		if v == nil {
			return
		}
		for _, t := range toLin(v).t {
			if !w.hasStale(t.A) {
				atoms[t.A] = true
			}
		}
	}
	for k := range w.old.dom {
		collect(k)
	}
	for _, l := range w.leaders {
		collect(w.oval[l])
		collect(w.nval[l])
		if !dead[l] {
			atoms[l] = true
		}
	}
	for _, l := range w.leaders {
		if dead[l] {
			continue
		}
		add(l)
		for a := range atoms {
			if a == l || w.hasStale(a) || a.Typ != nil && !IsIntT(a.Typ) {
				continue
			}
			if isL[a] && a.ID < l.ID {
				continue
			}
			add(Sub(l, a))
		}
	}
	for k, t := range base.truth {
		if w.hasStale(k) {
			continue
		}
		if mentionsL(k) {
			if o, ok := w.old.truth[oldv(k)]; !ok || o != t {
				continue
			}
		}
		R.truth[k] = t
	}
	for k, o := range base.ord {
		if w.hasStale(k[0]) || w.hasStale(k[1]) {
			continue
		}
		if mentionsL(k[0]) || mentionsL(k[1]) {
			q := w.old.Ord("sord", oldv(k[0]), oldv(k[1])) | o
			if p, ok := w.old.ord[[2]*V{k[0], k[1]}]; !ok || p&^o != 0 {
				continue
			}
			o = q & 15
		}
		R.ord[k] = o
	}
	for k, t := range base.typ {
		if w.hasStale(k) {
			continue
		}
		if mentionsL(k) {
			if o, ok := w.old.typ[oldv(k)]; !ok || TypeKey(o) != TypeKey(t) {
				continue
			}
		}
		R.typ[k] = t
	}
	return R
}
