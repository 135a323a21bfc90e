package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	. "verifcheck/absint"
)

// C20: compilation.
//
// The transformer is interpreted on rules of every kind in every position.
// The definition it produces is read back: the evaluation tree with its leaf
// conditions and loops is translated into the rule it stands for, which must
// be the rule that was compiled.

func init() { checks["C20"] = c20 }

type cOp struct {
	bucket   int64
	op       string
	lhs, rhs *V
	node     *cNode
	after    bool
}

type cLoop struct {
	bucket int64
	mode   string
	target *V
	body   *cNode
	node   *cNode
	after  bool
}

type cNode struct {
	ptr   *V
	loop  *cLoop // the loop whose body it belongs to; nil: the document
	path  []string
	store int64
}

type compiled struct {
	m      *exprs
	st     *State
	kind   []string
	parent []int64
	left   []int64
	right  []int64
	maps   []int64
	root   *cNode
	nodes  []*cNode
	ops    []*cOp
	loops  []*cLoop
	nslots int64
	nbkt   int64
	names  []string
	vars   map[int64]*cLoop // while comparing
	err    string           // why the definition does not mean the rule
	unk    string           // why it could not be read
}

func (d *compiled) fail(f string, a ...interface{}) bool {
	if d.err == "" {
		d.err = fmt.Sprintf(f, a...)
	}
	return false
}

func (d *compiled) unknown(f string, a ...interface{}) bool {
	if d.unk == "" {
		d.unk = fmt.Sprintf(f, a...)
	}
	return false
}

func (d *compiled) int(v *V) int64 {
	n, ok := v.Int()
	if !ok {
		d.unknown("%s is not a known number", v)
	}
	return n
}

// name is the canonical name of a text under the facts of the path.
func (d *compiled) name(s string) string {
	if !strings.HasPrefix(s, "?") {
		for _, o := range d.names {
			if d.eqs(o, s) {
				return o
			}
		}
		return s
	}
	for _, o := range d.names {
		if o == s {
			return s
		}
		if d.eqs(o, s) {
			return o
		}
	}
	return s
}

func (d *compiled) eqs(a, b string) bool {
	t := func(s string) *V {
		if strings.HasPrefix(s, "?") {
			return Sym(s, types.Typ[types.String])
		}
		return CStr(s)
	}
	return d.st.Facts.Eval(Cmp(tEQL, t(a), t(b), types.Typ[types.String])) > 0
}

func (d *compiled) cpath(p []string) string {
	var o []string
	for _, s := range p {
		o = append(o, d.name(s))
	}
	return strings.Join(o, ".")
}

// enum names a constant of an enumeration by value.
func (c *Check) enum(v *V, names ...string) string {
	n, ok := v.Int()
	if !ok {
		return ""
	}
	for _, s := range names {
		if k, ok := c.konst(s).Int(); ok && k == n {
			return s
		}
	}
	return ""
}

var opNames = []string{"OpTypeEquals", "OpTypeLessThan", "OpTypeLessEquals", "OpTypeGreaterThan", "OpTypeGreaterEquals", "OpTypeExists", "OpTypeIn", "OpTypeMatches"}
var treeKinds = []string{"nodeTypeLeaf", "nodeTypeOr", "nodeTypeAnd", "nodeTypeNot", "nodeTypeNeor", "nodeTypeLoop"}
var modeNames = []string{"LoopTypeAny", "LoopTypeEvery", "LoopTypeAnyEvery"}

// readDef reads a compiled definition from the heap.
func (m *exprs) readDef(st *State, p *V, names []string) *compiled {
	d := &compiled{m: m, st: st, names: names}
	c := m.c
	dt := c.lookupType("MatchDef")
	nt := c.lookupType("binTreeNode")
	d.nslots, d.nbkt = d.int(m.get(st, p, dt, "NumSlots")), d.int(m.get(st, p, dt, "NumBuckets"))
	ns, ok := m.list(st, m.get(st, p, dt, "MatchTree.data"), nt)
	if !ok {
		d.unknown("the tree's size is not known")
		return d
	}
	for _, n := range ns {
		d.kind = append(d.kind, c.enum(c.fieldOf(n, nt, "NodeType"), treeKinds...))
		d.parent = append(d.parent, d.int(c.fieldOf(n, nt, "ParentIdx")))
		d.left = append(d.left, d.int(c.fieldOf(n, nt, "Left")))
		d.right = append(d.right, d.int(c.fieldOf(n, nt, "Right")))
	}
	ms, ok := m.list(st, m.get(st, p, dt, "MatchBuckets"), intT())
	if !ok {
		d.unknown("the rule mapping's size is not known")
		return d
	}
	for _, v := range ms {
		d.maps = append(d.maps, d.int(v))
	}
	if root := m.get(st, p, dt, "ParseNode"); !root.IsNil() {
		d.root = d.node(root, nil, nil, 0)
	}
	return d
}

func (d *compiled) node(p *V, loop *cLoop, path []string, depth int) *cNode {
	n := &cNode{ptr: p, loop: loop, path: path}
	if depth > 12 {
		d.unknown("a cyclic node structure")
		return n
	}
	d.nodes = append(d.nodes, n)
	m, st, c := d.m, d.st, d.m.c
	et := c.lookupType("ExecNode")
	n.store = d.int(m.get(st, p, et, "StoreId"))
	d.readOps(n, m.get(st, p, et, "Ops"), false, depth)
	d.readLoops(n, m.get(st, p, et, "Loops"), false, depth)
	if a := m.get(st, p, et, "After"); !a.IsNil() {
		at := c.lookupType("AfterNode")
		d.readOps(n, m.get(st, a, at, "Ops"), true, depth)
		d.readLoops(n, m.get(st, a, at, "Loops"), true, depth)
	}
	ks, vs, ok := m.mapEntries(st, m.get(st, p, et, "Elems"))
	if !ok {
		d.unknown("the fields of a node are not known")
	}
	for i, k := range ks {
		d.node(vs[i], loop, append(append([]string{}, path...), k), depth+1)
	}
	return n
}

func (d *compiled) readOps(n *cNode, s *V, after bool, depth int) {
	t := d.m.c.lookupType("OpNode")
	l, ok := d.m.list(d.st, s, t)
	if !ok {
		d.unknown("the conditions of a node are not known")
	}
	for _, v := range l {
		f := func(n string) *V { return d.m.c.fieldOf(v, t, n) }
		d.ops = append(d.ops, &cOp{bucket: d.int(f("BucketIdx")), op: d.m.c.enum(f("Op"), opNames...), lhs: f("Lhs"), rhs: f("Rhs"), node: n, after: after})
	}
}

func (d *compiled) readLoops(n *cNode, s *V, after bool, depth int) {
	t := d.m.c.lookupType("LoopNode")
	l, ok := d.m.list(d.st, s, t)
	if !ok {
		d.unknown("the loops of a node are not known")
	}
	for _, v := range l {
		f := func(n string) *V { return d.m.c.fieldOf(v, t, n) }
		lp := &cLoop{bucket: d.int(f("BucketIdx")), mode: d.m.c.enum(f("Mode"), modeNames...), target: f("Target"), node: n, after: after}
		d.loops = append(d.loops, lp)
		lp.body = d.node(f("Node"), lp, nil, depth+1)
	}
}

// flat lists the operands of nested conjunctions or disjunctions.
func (d *compiled) flat(kind string, i int64, out []int64, depth int) []int64 {
	if depth < 40 && i >= 0 && int(i) < len(d.kind) && d.kind[i] == kind {
		return d.flat(kind, d.right[i], d.flat(kind, d.left[i], out, depth+1), depth+1)
	}
	return append(out, i)
}

func flatX(kind string, x *X, out []*X) []*X {
	if x.Kind == kind {
		for _, k := range x.Kids {
			out = flatX(kind, k, out)
		}
		return out
	}
	return append(out, x)
}

// shape checks the links of the tree.
func (d *compiled) shape() bool {
	n := int64(len(d.kind))
	if n != d.nbkt {
		return d.fail("%d nodes are announced, the tree has %d", d.nbkt, n)
	}
	if n == 0 {
		return true
	}
	seen := make([]bool, n)
	var rec func(i, parent int64) bool
	rec = func(i, parent int64) bool {
		if i < 0 || i >= n {
			return d.fail("node %d links to %d, outside of the tree", parent, i)
		}
		if seen[i] {
			return d.fail("node %d has two parents", i)
		}
		seen[i] = true
		if d.parent[i] != parent {
			return d.fail("node %d has parent %d but names %d", i, parent, d.parent[i])
		}
		if i != 0 && i <= parent {
			return d.fail("node %d is numbered before its parent %d", i, parent)
		}
		switch d.kind[i] {
		case "nodeTypeLeaf":
			return true
		case "nodeTypeNot", "nodeTypeLoop":
			return rec(d.left[i], i)
		case "nodeTypeAnd", "nodeTypeOr", "nodeTypeNeor":
			return rec(d.left[i], i) && rec(d.right[i], i)
		}
		return d.fail("node %d has no valid kind", i)
	}
	if !rec(0, 0) {
		return false
	}
	for i := range seen {
		if !seen[i] {
			return d.fail("node %d is not part of the tree", i)
		}
	}
	used := map[int64]string{}
	for _, o := range d.ops {
		if o.bucket < 0 || o.bucket >= n || d.kind[o.bucket] != "nodeTypeLeaf" {
			return d.fail("a condition is attached to node %d, which is no leaf", o.bucket)
		}
		if used[o.bucket] != "" {
			return d.fail("leaf %d has two conditions", o.bucket)
		}
		used[o.bucket] = "op"
	}
	lused := map[int64]bool{}
	for _, l := range d.loops {
		if l.bucket <= 0 || l.bucket >= n || d.kind[d.parent[l.bucket]] != "nodeTypeLoop" {
			return d.fail("a loop is attached to node %d, which is not below a loop node", l.bucket)
		}
		if lused[l.bucket] {
			return d.fail("node %d has two loops", l.bucket)
		}
		lused[l.bucket] = true
	}
	slots := map[int64]bool{}
	for _, nd := range d.nodes {
		if nd.store != 0 {
			if nd.store < 0 || nd.store > d.nslots {
				return d.fail("slot %d does not exist (there are %d)", nd.store, d.nslots)
			}
			if slots[nd.store] {
				return d.fail("slot %d is stored for two fields", nd.store)
			}
			slots[nd.store] = true
		}
	}
	return true
}

func (d *compiled) op(b int64) *cOp {
	for _, o := range d.ops {
		if o.bucket == b {
			return o
		}
	}
	return nil
}

// same compares node i of the tree with the rule x; cur is the innermost loop.
func (d *compiled) same(x *X, i int64, cur *cLoop) bool {
	if i < 0 || int(i) >= len(d.kind) {
		return d.fail("%s is mapped outside of the tree", x)
	}
	k := d.kind[i]
	switch x.Kind {
	case "NotEquals":
		return d.same(x1("Not", x2("Equals", x.Kids[0], x.Kids[1])), i, cur)
	case "NotExists":
		return d.same(x1("Not", x1("Exists", x.Kids[0])), i, cur)
	case "And", "Or":
		want := flatX(x.Kind, x, nil)
		if len(want) == 1 {
			return d.same(want[0], i, cur)
		}
		got := d.flat("nodeType"+x.Kind, i, nil, 0)
		if len(got) != len(want) {
			return d.fail("%s: the tree has %d operands of %s, the rule %d", x, len(got), x.Kind, len(want))
		}
		for j := range want {
			if !d.same(want[j], got[j], cur) {
				return false
			}
		}
		return true
	case "Not":
		if k != "nodeTypeNot" {
			return d.fail("%s is compiled to a %s node", x, k)
		}
		return d.same(x.Kids[0], d.left[i], cur)
	case "AnyIn", "EveryIn", "AnyEveryIn":
		if k != "nodeTypeLoop" {
			return d.fail("%s is compiled to a %s node", x, k)
		}
		var l *cLoop
		for _, o := range d.loops {
			if o.bucket == d.left[i] {
				l = o
			}
		}
		if l == nil {
			return d.fail("%s: no loop is attached to node %d", x, d.left[i])
		}
		if want := "LoopType" + strings.TrimSuffix(x.Kind, "In"); l.mode != want {
			return d.fail("%s is compiled to a loop of mode %s", x, l.mode)
		}
		tgt := &cOp{node: l.node, after: l.after}
		if !d.ref(x.Kids[0], l.target, tgt, cur, true) || !d.placed(x, l.node, l.after, cur) {
			return false
		}
		old := d.vars[x.Root]
		d.vars[x.Root] = l
		defer func() { d.vars[x.Root] = old }()
		return d.same(x.Kids[1], l.bucket, l)
	case "True":
		o := d.op(i)
		if k != "nodeTypeLeaf" || o == nil {
			return d.fail("%s has no condition that makes it true", x)
		}
		if o.op != "OpTypeExists" || !o.lhs.IsNil() || o.after || o.node.loop != cur || len(o.node.path) != 0 {
			return d.unknown("%s is compiled to %s", x, o.op)
		}
		return true
	case "False":
		if k != "nodeTypeLeaf" || d.op(i) != nil {
			return d.unknown("%s is compiled to something else than an undecided leaf", x)
		}
		return true
	}
	if k != "nodeTypeLeaf" {
		return d.fail("%s is compiled to a %s node", x, k)
	}
	o := d.op(i)
	if o == nil {
		return d.fail("%s has no condition", x)
	}
	want := "OpType" + x.Kind
	if x.Kind == "Like" {
		want = "OpTypeMatches"
	}
	if o.op != want {
		return d.fail("%s is compiled to operator %s", x, o.op)
	}
	if !d.ref(x.Kids[0], o.lhs, o, cur, true) {
		return false
	}
	if len(x.Kids) > 1 && !d.ref(x.Kids[1], o.rhs, o, cur, true) {
		return false
	}
	return d.placed(x, o.node, o.after, cur)
}

// loopOf is the loop a variable belongs to.
func (d *compiled) loopOf(root int64) (*cLoop, bool) {
	if root == 0 {
		return nil, true
	}
	l := d.vars[root]
	return l, l != nil
}

// ref compares an operand with the reference it was compiled to.
func (d *compiled) ref(x *X, v *V, o *cOp, cur *cLoop, top bool) bool {
	c := d.m.c
	tn := ""
	if v.Op == "iface" {
		tn = types.TypeString(v.Typ, func(*types.Package) string { return "" })
	} else if !v.IsNil() {
		return d.unknown("the reference for %s is not known", x)
	}
	switch x.Kind {
	case "Field":
		l, ok := d.loopOf(x.Root)
		if !ok {
			return d.unknown("variable of %s", x)
		}
		switch {
		case v.IsNil() && top, tn == "activeLitRef":
			if o.after {
				return d.fail("%s is read as the value at hand where there is none", x)
			}
			if o.node.loop != l || d.cpath(o.node.path) != d.cpath(x.Path) {
				return d.fail("%s is read as the value at %q", x, strings.Join(o.node.path, "."))
			}
			return true
		case tn == "SlotRef":
			s := d.int(c.fieldOf(v.Args[0], v.Typ, "Slot"))
			for _, n := range d.nodes {
				if n.store == s && s != 0 {
					if n.loop != l || d.cpath(n.path) != d.cpath(x.Path) {
						return d.fail("%s is read from the slot of %q", x, strings.Join(n.path, "."))
					}
					return true
				}
			}
			return d.fail("%s is read from slot %d, which nothing fills", x, s)
		}
		return d.fail("%s is compiled to %s", x, v)
	case "Func":
		if tn != "FuncRef" {
			return d.fail("%s is compiled to %s", x, v)
		}
		if n := strOf(d.st, c.fieldOf(v.Args[0], v.Typ, "FuncName")); n != x.Name {
			return d.fail("%s is compiled to function %s", x, n)
		}
		ps, ok := d.m.list(d.st, c.fieldOf(v.Args[0], v.Typ, "Params"), c.lookupType("DataRef"))
		if !ok {
			return d.unknown("the arguments of %s", x)
		}
		if len(ps) != len(x.Kids) {
			return d.fail("%s is compiled to a call with %d arguments", x, len(ps))
		}
		for i, k := range x.Kids {
			if !d.ref(k, ps[i], o, cur, false) {
				return false
			}
		}
		return true
	}
	if tn != "FastVal" {
		return d.fail("%s is compiled to %s", x, v)
	}
	seen := map[*V]bool{}
	v.Walk(seen)
	var syms []string
	for t := range seen {
		if t.Op == "sym" && (strings.HasPrefix(t.Aux, "value ") || strings.HasPrefix(t.Aux, "text ")) {
			syms = append(syms, t.Aux[strings.Index(t.Aux, " ")+1:])
		}
	}
	sort.Strings(syms)
	if len(syms) != 1 || syms[0] != x.Name {
		if len(syms) == 0 {
			return d.unknown("literal %s", x)
		}
		return d.fail("%s is compiled to the literal %v", x, syms)
	}
	if b, ok := c.fieldOf(v.Args[0], v.Typ, "userDefined").Bool(); !ok || !b {
		return d.fail("%s is not marked as a literal of the rule", x)
	}
	return true
}

// placed checks that what x refers to is known when it is judged: the values
// of its own level have all been met, those of outer levels before its loop.
func (d *compiled) placed(x *X, n *cNode, after bool, cur *cLoop) bool {
	if n.loop != cur {
		return d.fail("%s is judged outside of its loop", x)
	}
	ok := true
	var rec func(f *X, bound map[int64]bool)
	rec = func(f *X, bound map[int64]bool) {
		if f.Kind == "Field" {
			if bound[f.Root] {
				return
			}
			l, known := d.loopOf(f.Root)
			if !known {
				return
			}
			path := d.cpath(f.Path)
			// the place where the loop leading to x hangs at the field's level
			at, aft := n, after
			for p := cur; p != l; p = p.node.loop {
				if p == nil {
					ok = d.unknown("%s refers to a loop it is not in", x)
					return
				}
				at, aft = p.node, p.after
			}
			here := d.cpath(at.path)
			below := here == "" || path == here || strings.HasPrefix(path, here+".")
			if aft && !below {
				ok = d.fail("%s is judged after %q although %s may come later", x, here, f)
			}
			if !aft && path != here {
				ok = d.fail("%s is judged at %q although %s may come later", x, here, f)
			}
			return
		}
		if f.Kind == "AnyIn" || f.Kind == "EveryIn" || f.Kind == "AnyEveryIn" {
			rec(f.Kids[0], bound)
			nb := map[int64]bool{f.Root: true}
			for k := range bound {
				nb[k] = true
			}
			rec(f.Kids[1], nb)
			return
		}
		for _, k := range f.Kids {
			rec(k, bound)
		}
	}
	rec(x, map[int64]bool{})
	return ok
}

// means compares the definition with the rule set.
func (d *compiled) means(rules []*X) bool {
	if d.unk != "" {
		return false
	}
	if len(d.maps) != len(rules) {
		return d.fail("%d verdicts for %d rules", len(d.maps), len(rules))
	}
	if !d.shape() {
		return false
	}
	var nodes []int64
	for i, r := range rules {
		switch r.Kind {
		case "True", "False":
			if want := map[string]int64{"True": -1, "False": -2}[r.Kind]; d.maps[i] != want {
				return d.unknown("constant rule mapped to %d", d.maps[i])
			}
			continue
		}
		nodes = append(nodes, d.maps[i])
		d.vars = map[int64]*cLoop{}
		if !d.same(r, d.maps[i], nil) {
			return false
		}
	}
	// the rules are merged, independently of each other
	if len(nodes) > 0 {
		got := d.flat("nodeTypeNeor", 0, nil, 0)
		if fmt.Sprint(got) != fmt.Sprint(nodes) {
			return d.fail("the merged rules are nodes %v, the verdicts are read from %v", got, nodes)
		}
	} else if d.root != nil {
		return d.unknown("constant rules have a parse tree")
	}
	return true
}

func newCompile(c *Check) *exprs {
	e := c.Engine()
	m := newExprs(c, e)
	e.NoWiden = true
	e.MaxRec = 60
	fvT := c.lookupType("FastVal")
	e.Hooks["regexp.Compile"] = func(x *CallCtx, st *State) ([]Out, bool) {
		p := T("compiled", "", nil, x.Args[0])
		st.Facts.Assume(IsNilCond(p), false)
		return []Out{{st, Tuple(p, Nil)}}, true
	}
	own := func(name string) {
		if c.P.Func(name) == nil {
			return
		}
		e.Hooks[e.ShortName(c.P.Func(name))] = func(x *CallCtx, st *State) ([]Out, bool) {
			r := T("made", name, fvT, x.Args[0])
			if name == "MakePcreWrapper" {
				r = Iface(types.Typ[types.Int], r)
				st.Facts.Assume(IsNilCond(r), false)
			}
			return []Out{{st, Tuple(r, Nil)}}, true
		}
	}
	own("GetNewTimeFastVal")
	own("MakePcreWrapper")
	e.Pin = func(v *V) bool { return v.Op == "sym" && strings.HasPrefix(v.Aux, "?") }
	return m
}

// compile interprets the transformer on a rule set.
func (m *exprs) compile(rules []*X) []*Final {
	st := m.e.NewState()
	m.n = 0
	var vs []*V
	for _, r := range rules {
		vs = append(vs, m.build(st, r))
	}
	tt := m.c.lookupType("Transformer")
	t := m.e.NewObj(st, "transformer", tt, ZeroVal(tt))
	return m.e.Call(m.c.fn("Transformer.Transform"), st, []*V{t, m.slice(st, m.exprT, vs)})
}

func symNames(rules []*X) []string {
	set := map[string]bool{}
	var rec func(x *X)
	rec = func(x *X) {
		for _, p := range x.Path {
			set[p] = true
		}
		for _, k := range x.Kids {
			rec(k)
		}
	}
	for _, r := range rules {
		rec(r)
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// judgeCompile compiles a rule set and compares the result with it.
func (m *exprs) judgeCompile(key string, rules []*X) {
	c, e := m.c, m.e
	what := fmt.Sprint(rules)
	for _, f := range m.compile(rules) {
		w := e.Pos(InstrPos(f.Instr))
		if f.Panic {
			c.Bad(key, w, "every rule can be compiled", what+": "+f.What, e.TraceLines(f.St, 15))
			continue
		}
		d := m.readDef(f.St, f.Ret, symNames(rules))
		if d.means(rules) {
			c.Ok("%s", key)
		} else if d.err != "" {
			c.Bad(key, w, "the compiled definition means the rule", what+": "+d.err, e.TraceLines(f.St, 15))
		} else {
			c.Undec("%s: %s: %s", key, what, d.unk)
		}
	}
	c.takeUndec(e)
}

// judgeReuse compiles two rule sets with one transformer; both definitions have to be right.
func (m *exprs) judgeReuse(a, b []*X) {
	c, e := m.c, m.e
	const key = "reuse"
	st := e.NewState()
	m.n = 0
	var as, bs []*V
	for _, r := range a {
		as = append(as, m.build(st, r))
	}
	for _, r := range b {
		bs = append(bs, m.build(st, r))
	}
	tt := c.lookupType("Transformer")
	t := e.NewObj(st, "transformer", tt, ZeroVal(tt))
	fn := c.fn("Transformer.Transform")
	st.Ghost["second"], st.Ghost["transformer"] = m.slice(st, m.exprT, bs), t
	judge := func(f *Final, def *V, rules []*X, which string) {
		d := m.readDef(f.St, def, symNames(rules))
		w := e.Pos(InstrPos(f.Instr))
		what := fmt.Sprintf("%v then %v: the %s definition", a, b, which)
		if d.means(rules) {
			c.Ok("%s", key)
		} else if d.err != "" {
			c.Bad(key, w, "definitions compiled by one transformer are independent", what+": "+d.err, e.TraceLines(f.St, 15))
		} else {
			c.Undec("%s: %s: %s", key, what, d.unk)
		}
	}
	for _, f := range e.Call(fn, st, []*V{t, m.slice(st, m.exprT, as)}) {
		if f.Panic {
			continue // judged by itself
		}
		s := f.St
		s.Ghost["first"] = f.Ret
		for _, q := range e.Call(fn, s, []*V{t, s.Ghost["second"]}) {
			if q.Panic {
				c.Bad(key, e.Pos(InstrPos(q.Instr)), "every rule can be compiled", fmt.Sprintf("%v after %v: %s", b, a, q.What), e.TraceLines(q.St, 15))
				continue
			}
			judge(q, f.Ret, a, "first")
			judge(q, q.Ret, b, "second")
		}
	}
	c.takeUndec(e)
}

// leafShapes are conditions over the fields reachable through variable v.
func leafShapes(v int64, tag string) []*X {
	f := func(p ...string) *X { return xF(v, p...) }
	var out []*X
	for i, k := range cmpKinds {
		if k == "Like" {
			out = append(out, x2(k, f("a"), &X{Kind: "Regex", Name: tag + "re"}))
			continue
		}
		t := fmt.Sprint(tag, i)
		out = append(out, x2(k, f("a"), xV(t)), x2(k, xV(t), f("a")), x2(k, f("a"), f("b")), x2(k, f("a", "b"), f("a", "c", "d")))
	}
	out = append(out, x1("Exists", f("a")), x1("NotExists", f("a", "b")), x2("Like", f("p", "q"), &X{Kind: "Pcre", Name: tag + "pc"}),
		x2("LessThan", f("a"), &X{Kind: "Time", Name: tag + "tm"}),
		x2("Equals", xFn("mathPow", f("a"), xV(tag+"p")), f("a")), x2("Equals", xFn("mathAtan2", f("a"), f("b")), xFn("mathSqrt", f("b"))),
		x2("GreaterThan", f("a", "b"), f("a", "b")), x2("LessThan", f("a"), f("a", "b")), x2("LessThan", f("a", "b"), f("a")), x2("Equals", f(), xV(tag+"v")), x2("LessThan", f("a", "b", "c"), f("a", "d")))
	return out
}

func c20(c *Check) {
	c.Cov["rule"] = "the definition compiled from a rule, read back as a rule, is that rule; its tree is linked both ways with children after parents; every operand is known by the time it is read"
	m := newCompile(c)
	n := 0
	do := func(key string, rules ...*X) {
		n++
		m.judgeCompile(key, rules)
	}
	eq := func(f, v string) *X { return x2("Equals", xF(0, strings.Split(f, ".")...), xV(v)) }
	// 1. every condition alone, and with equal or different unknown names
	for i, l := range leafShapes(0, "v") {
		do(fmt.Sprintf("leaf/%s", l.Kind), l)
		if i%3 == 0 {
			do("not/"+l.Kind, x1("Not", l))
		}
	}
	for _, k := range []string{"LessThan", "Equals"} {
		do("names", x2(k, xF(0, "?a", "?b"), xF(0, "?c", "?d")))
		do("names", x2(k, xF(0, "?a"), xF(0, "?b", "?c")), x2(k, xF(0, "?b"), xV("1")))
		do("names", x2(k, xF(0, "?a", "?b", "?c"), xF(0, "?a", "?d", "?e")))
	}
	do("constants", x2("LessThan", xV("c"), xV("d")))
	do("constants", xN("Or", x2("LessThan", xV("c"), xV("d")), eq("a", "1")))
	// a transformer is used again
	sets := [][]*X{{eq("a", "1")}, {x2("LessThan", xF(0, "a"), xF(0, "b", "c"))}, {xN("True")}, {eq("a", "1"), x1("Not", eq("b", "2"))},
		{xL("AnyIn", 1, xF(0, "arr"), x2("LessThan", xF(1, "x"), xF(0, "y")))}, {xN("And", eq("a", "1"), xN("Or", eq("b", "2"), x1("Exists", xF(0, "c"))))}}
	for _, a := range sets {
		for _, b := range sets {
			n++
			m.judgeReuse(a, b)
		}
	}
	// 2. every kind below every kind
	inner := func(v int64, t string) []*X {
		out := []*X{x2("LessEquals", xF(v, "k"), xV(t+"1")), x2("NotEquals", xF(v, "l"), xV(t+"2")), x1("NotExists", xF(v, "m")), x1("Not", x1("Exists", xF(v, "n"))),
			xN("And", x1("Exists", xF(v, "a")), x2("GreaterThan", xF(v, "b"), xV(t+"3"))), xN("Or", x1("Exists", xF(v, "a")), x2("GreaterThan", xF(v, "b"), xV(t+"4"))), xN("True"), xN("False")}
		for i, lk := range loopKinds {
			w := v*10 + int64(i) + 2
			out = append(out, xL(lk, w, xF(v, "arr"), x2("LessThan", xF(w, "z"), xV(t+"5"))))
		}
		return out
	}
	for _, x := range inner(0, "x") {
		do("not", x1("Not", x))
		for _, y := range inner(1, "y") {
			_ = y
		}
		for i, y := range inner(0, "y") {
			yy := renameVars(y, 100)
			do("and", xN("And", x, yy))
			do("or", xN("Or", x, yy))
			if i%2 == 0 {
				do("rules", x, yy)
			}
		}
	}
	for _, lk := range loopKinds {
		for _, x := range inner(1, "x") {
			do("loop/"+lk, xL(lk, 1, xF(0, "arr"), x))
			do("loop/"+lk, xL(lk, 1, xF(0, "o", "arr"), xN("And", x, x2("Equals", xF(1), xV("e")))))
		}
		for i, l := range leafShapes(1, "b") {
			if i%2 == 0 || l.Kind == "Equals" {
				do("loop-leaf/"+lk, xL(lk, 1, xF(0, "arr"), l))
			}
		}
		// operands from outer levels
		do("outer/"+lk, xL(lk, 1, xF(0, "arr"), x2("LessThan", xF(1, "x"), xF(0, "lim"))))
		do("outer/"+lk, xL(lk, 1, xF(0, "o", "arr"), x2("LessThan", xF(1), xF(0, "o", "lim", "z"))))
		do("outer/"+lk, xL(lk, 1, xF(0, "arr"), xN("Or", x2("LessThan", xF(0, "p"), xF(0, "q")), x2("LessThan", xF(1, "a"), xF(1, "b")))))
		for _, lk2 := range loopKinds {
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1, "in"), x2("LessThan", xF(2, "x"), xV("n")))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1, "in"), x2("LessThan", xF(2, "x"), xF(1, "lim")))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1), x2("LessThan", xF(2), xF(0, "lim")))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(0, "arr2"), x2("LessThan", xF(2, "x"), xF(1, "y")))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(0, "arr2"), x2("LessThan", xF(2, "x"), xF(1)))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1), x2("LessThan", xF(2, "x"), xF(1)))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(0, "arr2", "b"), x1("Not", x2("LessThan", xF(2, "x"), xV("n"))))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1, "in"), xL(lk, 3, xF(2, "in"), x2("LessThan", xF(3, "x"), xF(1, "y"))))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xL(lk2, 2, xF(1, "in"), xL(lk, 3, xF(1, "two"), x2("LessThan", xF(3, "x"), xF(2, "y"))))))
			do("nested/"+lk, xL(lk, 1, xF(0, "arr"), xN("And", xL(lk2, 2, xF(1, "in"), x1("Exists", xF(2, "x"))), x2("Equals", xF(1, "t"), xV("n")))), eq("arr", "w"))
		}
	}
	// 3. chains of every length, and nested chains
	for _, k := range []string{"And", "Or"} {
		for n := 1; n <= 6; n++ {
			var l []*X
			for i := 0; i < n; i++ {
				l = append(l, eq(fmt.Sprint("f", i), fmt.Sprint("c", i)))
			}
			do("chain", xN(k, l...))
			do("chain", x1("Not", xN(k, l...)))
			if n > 1 {
				o := map[string]string{"And": "Or", "Or": "And"}[k]
				do("chain", xN(o, append([]*X{xN(k, l[:n-1]...)}, l[n-1])...), eq("z", "z"))
				do("chain", xN(k, append([]*X{xN(k, l[:n-1]...)}, l[n-1])...))
			}
			do("rules", l...)
			if n > 2 {
				l[n/2] = xN("True")
				do("rules", l...)
				l[0] = xN("False")
				do("rules", l...)
			}
		}
	}
	do("rules", xN("True"), xN("False"))
	do("rules", xN("True"), xN("And", eq("a", "1"), eq("b", "2")), xN("False"), xN("Or", eq("c", "3"), x1("Not", eq("d", "4"))))
	do("rules", xL("AnyIn", 1, xF(0, "a"), eq("b", "1")), xL("EveryIn", 1, xF(0, "a"), x2("Equals", xF(1, "b"), xV("2"))), xL("AnyEveryIn", 1, xF(0, "a"), x2("Equals", xF(1, "b"), xV("3"))))
	do("shared", xN("And", x2("LessThan", xF(0, "a"), xF(0, "b")), x2("LessThan", xF(0, "a"), xF(0, "c")), x2("LessThan", xF(0, "b"), xF(0, "c")), x2("Equals", xF(0, "a", "b"), xF(0, "b", "a"))))
	c.Cov["rule sets compiled"] = n
	c.Assume = append(c.Assume, "field names that are written out are pairwise different; rules beyond the enumerated shapes are built by the same per-kind functions")
}

// renameVars shifts loop variables so that two rules do not share any.
func renameVars(x *X, by int64) *X {
	n := *x
	n.Kids = nil
	if n.Root != 0 {
		n.Root += by
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, renameVars(k, by))
	}
	return &n
}
