package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation record.
type Frame struct {
	Fn     *ssa.Function
	Blk    *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	IP     int
	Env    map[ssa.Value]*V
	Call   ssa.CallInstruction // call in the caller that created this frame
	Loops  map[*ssa.BasicBlock]*loopRec
	Defers []deferred
	Ctx    string
	onRet  func(*State, *V) // optional continuation instead of binding Call
	rec    *recSnap         // the state this activation of a recursive call began in
}

// recSnap is what the behaviour of a call depends on.
type recSnap struct {
	args  []*V
	heap  map[*V]*V
	ghost map[string]*V
	fresh int
}

// sameAs: a call that begins like an unfinished earlier one never ends.
func (r *recSnap) sameAs(o *recSnap) bool {
	if r == nil || o == nil || r.fresh != o.fresh || len(r.args) != len(o.args) || len(r.ghost) != len(o.ghost) {
		return false
	}
	for i, a := range r.args {
		if a != o.args[i] {
			return false
		}
	}
	for k, v := range r.ghost {
		if o.ghost[k] != v {
			return false
		}
	}
	for k, v := range r.heap {
		if o.heap[k] != v {
			return false
		}
	}
	return true
}

type deferred struct {
	fn   *V
	args []*V
}

type loopRec struct {
	count  int
	wcount int
	forked bool
	env    map[ssa.Value]*V
	ghost  map[string]*V
	heap   map[*V]*V
	facts  *Facts
}

// Trace is the (unshared) history of a state, for reports only.
type Trace struct {
	prev *Trace
	Msg  string
	Pos  token.Pos
}

// State is one abstract state.
type State struct {
	Frames []*Frame
	Heap   map[*V]*V
	Facts  *Facts
	Ghost  map[string]*V

	SinceFork int // merge points since the last fork
	fresh     int // answers that are not determined by the state
	Trace     *Trace
	dead      bool
}

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

func (f *Frame) clone() *Frame {
	g := *f
	g.Env = make(map[ssa.Value]*V, len(f.Env)+4)
	for k, v := range f.Env {
		g.Env[k] = v
	}
	g.Loops = make(map[*ssa.BasicBlock]*loopRec, len(f.Loops))
	for k, v := range f.Loops {
		c := *v
		g.Loops[k] = &c
	}
	g.Defers = append([]deferred{}, f.Defers...)
	return &g
}

// Clone copies a state.
func (st *State) Clone() *State {
	n := &State{Facts: st.Facts.Clone(), Trace: st.Trace, fresh: st.fresh}
	for _, f := range st.Frames {
		n.Frames = append(n.Frames, f.clone())
	}
	n.Heap = make(map[*V]*V, len(st.Heap)+4)
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.SinceFork, st.SinceFork = 0, 0
	n.Ghost = make(map[string]*V, len(st.Ghost))
	for k, v := range st.Ghost {
		n.Ghost[k] = v
	}
	return n
}

// Log appends to the report trace.
func (st *State) Log(pos token.Pos, f string, a ...interface{}) {
	st.Trace = &Trace{st.Trace, fmt.Sprintf(f, a...), pos}
}

// Out is one outcome of a modelled call.
type Out struct {
	St  *State
	Ret *V
}

// CallCtx describes a modelled call.
type CallCtx struct {
	E     *Engine
	Fn    *ssa.Function // resolved callee, may be nil
	Name  string        // canonical callee name
	Args  []*V
	Instr ssa.CallInstruction
	Sig   *types.Signature
}

// Hook models a call; returning handled=false falls through to inlining.
type Hook func(c *CallCtx, st *State) (outs []Out, handled bool)

// Final is a terminated abstract path.
type Final struct {
	St    *State
	Panic bool
	Ret   *V
	Instr ssa.Instruction
	What  string
}

// Fault is a possible run-time panic the analysis could not exclude.
type Fault struct {
	Kind  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	St    *State
	Must  bool
	What  string
	Cond  *V // the condition that may not hold
}

// Engine runs the analysis.
type Engine struct {
	Prog  *ssa.Program
	Pkg   *ssa.Package
	Fset  *token.FileSet
	Hooks map[string]Hook // by ssa function String(), or "invoke:Name", or "dyn"
	// AnyCall, when set, is consulted before Hooks.
	AnyCall Hook
	// OnFault receives possible run-time faults of the given kinds.
	OnFault func(f Fault)
	// OnLoad/OnStore observe element reads of slices (for input monitors).
	OnElem  func(e *Engine, st *State, arr, idx *V, instr ssa.Instruction) []*State
	OnStore func(e *Engine, st *State, loc *V, val *V, instr ssa.Instruction)
	OnInstr func(e *Engine, st *State, instr ssa.Instruction)
	// OnPanic observes explicit panics.
	OnPanic func(st *State, p *ssa.Panic, v *V)

	MaxStates   int
	MaxUnroll   int
	Delay       int  // iterations explored before a loop is generalised
	NoWiden     bool // unroll loops (up to MaxUnroll) whatever their exits depend on
	NonNilParam bool
	GCFacts     bool
	MaxSteps    int // steps without a fork after which a run is taken not to end
	fnIDs       map[*ssa.Function]int
	Pin         func(*V) bool

	// NilFaults says for which pointer terms a possible nil is reported.
	NilFaults func(*V) bool
	// OnOverflow observes integer operations whose result may not fit.
	OnOverflow func(st *State, i *ssa.BinOp, r *V)
	// InlineExt selects functions of other packages to interpret.
	InlineExt func(*ssa.Function) bool
	// PureCall names further external functions that are pure.
	PureCall func(string) bool
	MaxRec   int
	opaque   map[*V]bool

	Undecided []string
	undecSeen map[string]bool

	// measured coverage
	NStates   int
	NBlocks   map[*ssa.BasicBlock]bool
	Funcs     map[*ssa.Function]bool
	Sites     map[ssa.Instruction]bool
	InitHeap  map[*V]*V
	DirtyGlob map[*ssa.Global]bool

	seen  map[string]bool
	work  []*State
	fins  []*Final
	live  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

// NewEngine prepares an engine for a package.
func NewEngine(pkg *ssa.Package) *Engine {
	return &Engine{
		Prog: pkg.Prog, Pkg: pkg, Fset: pkg.Prog.Fset,
		Hooks: map[string]Hook{}, MaxStates: 60000, MaxUnroll: 300, NonNilParam: true,
		undecSeen: map[string]bool{}, NBlocks: map[*ssa.BasicBlock]bool{},
		Funcs: map[*ssa.Function]bool{}, Sites: map[ssa.Instruction]bool{},
		live:  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		heads: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
	}
}

// Undec records that the analysis could not decide something.
func (e *Engine) Undec(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if !e.undecSeen[s] {
		e.undecSeen[s] = true
		e.Undecided = append(e.Undecided, s)
	}
}

// Pos renders an instruction position.
func (e *Engine) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f + ":" + strconv.Itoa(q.Line)
}

// InstrPos finds the best source position of an instruction.
func InstrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if i.Pos().IsValid() {
		return i.Pos()
	}
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	// nearest preceding instruction with a position
	best := token.NoPos
	for _, j := range b.Instrs {
		if j.Pos().IsValid() {
			best = j.Pos()
		}
		if j == i {
			break
		}
	}
	if best.IsValid() {
		return best
	}
	for _, j := range b.Instrs {
		if j.Pos().IsValid() {
			return j.Pos()
		}
	}
	return i.Parent().Pos()
}

// TraceLines renders the state's history.
func (e *Engine) TraceLines(st *State, max int) []string {
	var out []string
	for t := st.Trace; t != nil; t = t.prev {
		out = append(out, e.Pos(t.Pos)+": "+t.Msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > max {
		out = append([]string{"…"}, out[len(out)-max:]...)
	}
	return out
}

// NewState makes an empty state with the package's initialised globals.
func (e *Engine) NewState() *State {
	st := &State{Heap: map[*V]*V{}, Facts: NewFacts(), Ghost: map[string]*V{}}
	for k, v := range e.InitHeap {
		st.Heap[k] = v
	}
	return st
}

// Run analyses fn from st with the given arguments, to a fixpoint.
// Deadline bounds the whole analysis; OutOfTime is the panic when it passes.
var Deadline time.Time

type OutOfTime string

func (e *Engine) Run(fn *ssa.Function, st *State, args []*V, free ...*V) []*Final {
	e.seen = map[string]bool{}
	e.work = nil
	e.fins = nil
	e.push(st, fn, args, free, nil, nil)
	e.work = []*State{st}
	n := 0
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		n++
		if n > e.MaxStates {
			e.Undec("state budget exhausted in %s", fn.String())
			break
		}
		e.NStates++
		if n&63 == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
			panic(OutOfTime("time budget exhausted in " + fn.String()))
		}
		e.exec(s)
	}
	return e.fins
}

func (e *Engine) push(st *State, fn *ssa.Function, args []*V, free []*V, call ssa.CallInstruction, onRet func(*State, *V)) {
	if len(fn.Blocks) == 0 {
		panic("push of bodyless function " + fn.String())
	}
	e.Funcs[fn] = true
	ctx := ""
	if len(st.Frames) > 0 {
		t := st.top()
		ctx = t.Ctx + "/" + t.Fn.Name() + ":" + strconv.Itoa(t.Blk.Index) + "." + strconv.Itoa(t.IP)
	}
	f := &Frame{Fn: fn, Blk: fn.Blocks[0], Env: map[ssa.Value]*V{}, Call: call, Loops: map[*ssa.BasicBlock]*loopRec{}, Ctx: ctx, onRet: onRet}
	for i, p := range fn.Params {
		f.Env[p] = args[i]
	}
	if e.NoWiden {
		for _, o := range st.Frames {
			if o.Fn == fn {
				f.rec = e.recSnap(st, args, free)
				break
			}
		}
	}
	for i, p := range fn.FreeVars {
		f.Env[p] = free[i]
	}
	st.Frames = append(st.Frames, f)
	e.NBlocks[f.Blk] = true
}

func (e *Engine) recSnap(st *State, args, free []*V) *recSnap {
	r := &recSnap{args: append(append([]*V{}, args...), free...), heap: map[*V]*V{}, ghost: map[string]*V{}, fresh: st.fresh}
	for k, v := range st.Heap {
		r.heap[k] = v
	}
	for k, v := range st.Ghost {
		r.ghost[k] = v
	}
	return r
}

func (e *Engine) fin(f *Final) { e.fins = append(e.fins, f) }

// exec runs a state until it forks or terminates.
func (e *Engine) exec(st *State) {
	for steps := 0; ; steps++ {
		if st.dead {
			return
		}
		if e.MaxSteps > 0 && steps > e.MaxSteps {
			fr := st.top()
			var in ssa.Instruction
			if fr.IP < len(fr.Blk.Instrs) {
				in = fr.Blk.Instrs[fr.IP]
			}
			e.fin(&Final{St: st, Panic: true, Instr: in, Ret: Nil, What: fmt.Sprintf("no end after %d steps without a choice", steps)})
			return
		}
		fr := st.top()
		if fr.IP >= len(fr.Blk.Instrs) {
			e.Undec("fell off block in %s", fr.Fn)
			return
		}
		instr := fr.Blk.Instrs[fr.IP]
		if e.OnInstr != nil {
			e.OnInstr(e, st, instr)
		}
		switch i := instr.(type) {
		case *ssa.Jump:
			if !e.enter(st, fr.Blk.Succs[0]) {
				return
			}
			continue
		case *ssa.If:
			c := e.val(st, i.Cond)
			e.noteExit(st, fr, i)
			switch st.Facts.Eval(c) {
			case 1:
				if !e.enter(st, fr.Blk.Succs[0]) {
					return
				}
				continue
			case -1:
				if !e.enter(st, fr.Blk.Succs[1]) {
					return
				}
				continue
			}
			e.markFork(st, fr)
			s2 := st.Clone()
			pos := InstrPos(i)
			if s2.Facts.Assume(c, false) {
				s2.Log(pos, "assume ¬%s", c)
				if e.enter(s2, s2.top().Blk.Succs[1]) {
					e.work = append(e.work, s2)
				}
			}
			if !st.Facts.Assume(c, true) {
				return
			}
			st.Log(pos, "assume %s", c)
			if !e.enter(st, fr.Blk.Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			var ret *V
			switch len(i.Results) {
			case 0:
				ret = Tuple()
			case 1:
				ret = e.val(st, i.Results[0])
			default:
				rs := make([]*V, len(i.Results))
				for k, r := range i.Results {
					rs[k] = e.val(st, r)
				}
				ret = Tuple(rs...)
			}
			if !e.doReturn(st, ret, i) {
				return
			}
			continue
		case *ssa.Panic:
			v := e.val(st, i.X)
			if e.OnPanic != nil {
				e.OnPanic(st, i, v)
			}
			e.fin(&Final{St: st, Panic: true, Ret: v, Instr: i, What: "explicit panic " + v.String()})
			return
		case *ssa.RunDefers:
			if n := len(fr.Defers); n > 0 {
				d := fr.Defers[n-1]
				fr.Defers = fr.Defers[:n-1]
				outs, pushed := e.callValue(st, d.fn, d.args, nil, i, nil)
				if pushed {
					continue
				}
				if len(outs) == 0 {
					return
				}
				for _, o := range outs[1:] {
					e.work = append(e.work, o.St)
				}
				st = outs[0].St
				continue
			}
			fr.IP++
			continue
		case *ssa.Defer:
			fnv, args, ok := e.callee(st, &i.Call)
			if ok {
				fr.Defers = append(fr.Defers, deferred{fnv, args})
			} else {
				e.Undec("defer of unresolved call at %s", e.Pos(i.Pos()))
			}
			fr.IP++
			continue
		case *ssa.Call:
			e.Sites[i] = true
			next, done := e.doCall(st, i)
			if done {
				return
			}
			st = next
			continue
		case *ssa.Go:
			e.Undec("go statement at %s is not modelled", e.Pos(i.Pos()))
			fr.IP++
			continue
		}
		outs := e.simple(st, instr)
		if outs == nil {
			return
		}
		for _, o := range outs[1:] {
			o.top().IP++
			e.work = append(e.work, o)
		}
		st = outs[0]
		st.top().IP++
	}
}

func (e *Engine) markFork(st *State, fr *Frame) {
	hs := e.loopHeads(fr.Fn)
	for h, body := range hs {
		if !body[fr.Blk] {
			continue
		}
		exits := false
		for _, s := range fr.Blk.Succs {
			if !body[s] {
				exits = true
			}
		}
		if exits {
			if r := fr.Loops[h]; r != nil {
				r.forked = true
			}
		}
	}
}

func (e *Engine) doReturn(st *State, ret *V, i ssa.Instruction) bool {
	fr := st.top()
	st.Frames = st.Frames[:len(st.Frames)-1]
	if len(st.Frames) == 0 {
		if fr.onRet != nil {
			fr.onRet(st, ret)
		}
		e.fin(&Final{St: st, Ret: ret, Instr: i})
		return false
	}
	caller := st.top()
	if fr.onRet != nil {
		fr.onRet(st, ret)
	}
	if c, ok := fr.Call.(*ssa.Call); ok && fr.Call != nil {
		caller.Env[c] = ret
		caller.IP++
	}
	return !st.dead
}

// enter moves the state to block b (phis, dedup, widening); false if pruned.
func (e *Engine) enter(st *State, b *ssa.BasicBlock) bool {
	fr := st.top()
	e.NBlocks[b] = true
	prev := fr.Blk
	var pi int = -1
	for k, p := range b.Preds {
		if p == prev {
			pi = k
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*V
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[pi]))
		n++
	}
	for k, ph := range phis {
		fr.Env[ph] = vals[k]
	}
	fr.Prev, fr.Blk, fr.IP = prev, b, n
	// prune dead registers
	lv := e.liveIn(fr.Fn, b)
	for k := range fr.Env {
		if _, isphi := k.(*ssa.Phi); isphi && k.(*ssa.Phi).Block() == b {
			continue
		}
		if !lv[k] {
			delete(fr.Env, k)
		}
	}
	// leaving loops: forget their records
	hs := e.loopHeads(fr.Fn)
	for h := range fr.Loops {
		if !hs[h][b] {
			delete(fr.Loops, h)
		}
	}
	if body, ok := hs[b]; ok {
		if !body[prev] {
			delete(fr.Loops, b)
		}
		e.gc(st)
		e.widen(st, fr, b)
		if st.dead {
			return false
		}
	}
	if _, loop := hs[b]; len(b.Preds) > 1 && (loop || !e.NoWiden || st.SinceFork < 40) {
		st.SinceFork++
		if !loop {
			e.gc(st)
		}
		k := e.key(st)
		if e.seen[k] {
			return false
		}
		e.seen[k] = true
	}
	return true
}

// gc drops unreachable allocation objects and, if configured, stale facts.
func (e *Engine) gc(st *State) {
	reach := map[*V]bool{}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			v.Walk(reach)
		}
		for _, d := range f.Defers {
			d.fn.Walk(reach)
			for _, a := range d.args {
				a.Walk(reach)
			}
		}
	}
	for _, g := range st.Ghost {
		g.Walk(reach)
	}
	done := map[*V]bool{}
	for {
		ch := false
		for k, c := range st.Heap {
			if done[k] {
				continue
			}
			if k.Op != "alloc" || reach[k] {
				done[k] = true
				c.Walk(reach)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for k := range st.Heap {
		if k.Op == "alloc" && !reach[k] {
			delete(st.Heap, k)
		}
	}
	if e.GCFacts {
		st.Facts.Filter(func(v *V) bool {
			if e.Pin != nil && e.Pin(v) {
				return true
			}
			if reach[v] {
				return true
			}
			// conditions and linear forms: keep if all leaves are reachable
			switch v.Op {
			case "lin", "istype", "isnil", "peq", "beq", "len", "cap", "elem", "selem":
				for _, a := range v.Args {
					if a.Op == "arr" {
						a = a.Args[0]
					}
					if !reach[a] && !a.IsConst() && !(e.Pin != nil && e.Pin(a)) && !(a.Op == "len" && len(a.Args) == 1 && reach[a.Args[0]]) {
						return false
					}
				}
				return true
			}
			return false
		})
	}
}

func (e *Engine) fnID(fn *ssa.Function) int {
	if e.fnIDs == nil {
		e.fnIDs = map[*ssa.Function]int{}
	}
	n, ok := e.fnIDs[fn]
	if !ok {
		n = len(e.fnIDs)
		e.fnIDs[fn] = n
	}
	return n
}

func (e *Engine) key(st *State) string {
	var b strings.Builder
	for _, f := range st.Frames {
		b.WriteString(strconv.Itoa(e.fnID(f.Fn)))
		b.WriteString(":" + strconv.Itoa(f.Blk.Index) + "." + strconv.Itoa(f.IP) + "{")
		var ks []string
		for k, v := range f.Env {
			ks = append(ks, k.Name()+"="+strconv.Itoa(v.ID))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteByte('}')
		var ls []string
		for h, r := range f.Loops {
			// whether a loop has been generalised yet matters for the future
			ls = append(ls, strconv.Itoa(h.Index)+fmt.Sprint(r.forked))
		}
		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ","))
	}
	var hs []string
	for k, v := range st.Heap {
		if e.InitHeap[k] == v {
			continue
		}
		hs = append(hs, strconv.Itoa(k.ID)+">"+strconv.Itoa(v.ID))
	}
	sort.Strings(hs)
	b.WriteString(strings.Join(hs, ","))
	b.WriteByte('#')
	b.WriteString(st.Facts.Key())
	b.WriteByte('#')
	var gs []string
	for k, v := range st.Ghost {
		gs = append(gs, k+"="+strconv.Itoa(v.ID))
	}
	sort.Strings(gs)
	b.WriteString(strings.Join(gs, ","))
	return b.String()
}

// ---- loops and liveness ----

func (e *Engine) loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := e.heads[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := m[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					m[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.heads[fn] = m
	return m
}

func (e *Engine) liveIn(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	if m, ok := e.live[fn]; ok {
		return m[b]
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		in[x] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range in[s] {
					out[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, ph)
				}
			}
			for _, s := range x.Succs {
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == x && isReg(ph.Edges[k]) {
							out[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(x.Instrs) - 1; k >= 0; k-- {
				ins := x.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						out[*op] = true
					}
				}
			}
			if len(out) != len(in[x]) {
				in[x] = out
				ch = true
			}
		}
	}
	e.live[fn] = in
	return in[b]
}

// ---- operand values ----

func (e *Engine) val(st *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return constV(x)
	case *ssa.Global:
		return T("ptr", "", nil, T("global", x.String(), x.Type()))
	case *ssa.Function:
		return FuncV(x)
	case *ssa.Builtin:
		return T("builtin", x.Name(), nil)
	}
	fr := st.top()
	if r, ok := fr.Env[v]; ok {
		return r
	}
	e.Undec("no value for %s in %s", v.Name(), fr.Fn)
	return Sym("undef:"+v.Name(), v.Type())
}

func constV(x *ssa.Const) *V {
	if x.Value == nil {
		return ZeroVal(x.Type())
	}
	if isFloatV(x.Type()) {
		return CFloatC(x.Value)
	}
	if IsIntT(x.Type()) {
		return Const(constant.ToInt(x.Value))
	}
	return Const(x.Value)
}

// Val exposes operand evaluation to hooks.
func (e *Engine) Val(st *State, v ssa.Value) *V { return e.val(st, v) }

// FreshSym returns a symbol not mentioned by the live state.
func (e *Engine) FreshSym(st *State, name string, typ types.Type) *V {
	st.fresh++
	used := map[*V]bool{}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			v.Walk(used)
		}
	}
	for _, v := range st.Ghost {
		v.Walk(used)
	}
	for k, v := range st.Heap {
		if e.InitHeap[k] == v {
			continue
		}
		k.Walk(used)
		v.Walk(used)
	}
	for n := 0; ; n++ {
		s := Sym(name+"#"+strconv.Itoa(n), typ)
		if used[s] {
			continue
		}
		st.Facts.Filter(func(v *V) bool { return !v.Mentions(s) })
		return s
	}
}

func (e *Engine) newAlloc(st *State, site string, typ types.Type) *V {
	for n := 0; ; n++ {
		k := T("alloc", site+"#"+strconv.Itoa(n), typ)
		if _, ok := st.Heap[k]; !ok {
			if n > 64 {
				e.Undec("unbounded allocation at %s", site)
				st.dead = true
			}
			return k
		}
	}
}

// NewObj allocates an object holding content and returns a pointer to it.
func (e *Engine) NewObj(st *State, site string, typ types.Type, content *V) *V {
	k := e.newAlloc(st, site, typ)
	st.Heap[k] = content
	return T("ptr", "", nil, k)
}

// NewSlice builds a slice over a fresh backing store with the given elements.
func (e *Engine) NewSlice(st *State, site string, elem types.Type, vals []*V) *V {
	k := e.newAlloc(st, site, types.NewSlice(elem))
	idx := make([]int64, len(vals))
	for i := range idx {
		idx[i] = int64(i)
	}
	at := types.NewArray(elem, int64(len(vals)))
	st.Heap[k] = ArrLit(at, T("zeroarr", "", at), idx, vals)
	n := CInt(int64(len(vals)))
	return T("slice", "", nil, T("ptr", "", nil, k), Zero, n, n)
}

var bigOne = big.NewInt(1)
