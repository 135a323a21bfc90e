package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Order mask bits for float and string comparisons.
const (
	OLT = 1
	OEQ = 2
	OGT = 4
	OUN = 8
)

// Facts is what an abstract state knows about its terms.
type Facts struct {
	dom   map[*V]ISet // integer atoms and normalised linear forms
	truth map[*V]bool // opaque boolean terms
	ord   map[[2]*V]uint8
	typ   map[*V]types.Type // dynamic type of interface terms
}

func NewFacts() *Facts {
	return &Facts{map[*V]ISet{}, map[*V]bool{}, map[[2]*V]uint8{}, map[*V]types.Type{}}
}

func (f *Facts) Clone() *Facts {
	g := &Facts{make(map[*V]ISet, len(f.dom)+1), make(map[*V]bool, len(f.truth)+1), make(map[[2]*V]uint8, len(f.ord)+1), make(map[*V]types.Type, len(f.typ)+1)}
	for k, v := range f.dom {
		g.dom[k] = v
	}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.ord {
		g.ord[k] = v
	}
	for k, v := range f.typ {
		g.typ[k] = v
	}
	return g
}

func (f *Facts) Key() string {
	var ks []string
	for k, v := range f.dom {
		ks = append(ks, "d"+strconv.Itoa(k.ID)+v.String())
	}
	for k, v := range f.truth {
		ks = append(ks, "t"+strconv.Itoa(k.ID)+strconv.FormatBool(v))
	}
	for k, v := range f.ord {
		ks = append(ks, "o"+strconv.Itoa(k[0].ID)+"/"+strconv.Itoa(k[1].ID)+":"+strconv.Itoa(int(v)))
	}
	for k, v := range f.typ {
		ks = append(ks, "y"+strconv.Itoa(k.ID)+TypeKey(v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// Filter drops facts about terms for which keep is false.
func (f *Facts) Filter(keep func(*V) bool) {
	for k := range f.dom {
		if !keep(k) {
			delete(f.dom, k)
		}
	}
	for k := range f.truth {
		if !keep(k) {
			delete(f.truth, k)
		}
	}
	for k := range f.ord {
		if !keep(k[0]) || !keep(k[1]) {
			delete(f.ord, k)
		}
	}
	for k := range f.typ {
		if !keep(k) {
			delete(f.typ, k)
		}
	}
}

var (
	i64lo = NBig(big.NewInt(math.MinInt64))
	i64hi = NBig(big.NewInt(math.MaxInt64))
	u64hi = NBig(new(big.Int).SetUint64(math.MaxUint64))
)

// TypeRange is the range of an integer type.
func TypeRange(t types.Type) ISet {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return Full
	}
	switch b.Kind() {
	case types.Int8:
		return RangeI(-128, 127)
	case types.Int16:
		return RangeI(-32768, 32767)
	case types.Int32, types.UntypedRune:
		return RangeI(math.MinInt32, math.MaxInt32)
	case types.Int, types.Int64:
		return Range(i64lo, i64hi)
	case types.Uint8:
		return RangeI(0, 255)
	case types.Uint16:
		return RangeI(0, 65535)
	case types.Uint32:
		return RangeI(0, math.MaxUint32)
	case types.Uint, types.Uint64, types.Uintptr:
		return Range(NI(0), u64hi)
	}
	return Full
}

func atomDefault(a *V) ISet {
	switch a.Op {
	case "len", "cap":
		return Range(NI(0), NBig(new(big.Int).Lsh(big.NewInt(1), 62)))
	case "strcmp":
		return RangeI(-1, 1)
	}
	if a.Typ != nil {
		return TypeRange(a.Typ)
	}
	return Full
}

// normalise a linear expression: l = s*P + k with P's leading coefficient > 0.
func normLin(l lin) (p *V, s int64, k *big.Int) {
	if len(l.t) == 0 {
		return nil, 1, l.k
	}
	s = 1
	if l.t[0].C < 0 {
		s = -1
	}
	v := lin{l.t, big.NewInt(0)}
	if s < 0 {
		v = v.scale(-1)
	}
	return fromLin(v), s, l.k
}

func scaleSet(s ISet, k int64) ISet {
	switch {
	case k == 1:
		return s
	case k == -1:
		return s.Neg()
	case k == 0:
		return SetOf(0)
	}
	var out ISet
	for _, iv := range s {
		a, b := iv.Lo.MulInt(k), iv.Hi.MulInt(k)
		if k < 0 {
			a, b = b, a
		}
		out = append(out, Iv{a, b})
	}
	if k < 0 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// Dom returns the set of values v may take.
func (f *Facts) Dom(v *V) ISet { return f.rangeLin(toLin(v), 2) }

func (f *Facts) atomDom(a *V) ISet {
	if d, ok := f.dom[a]; ok {
		return d.Intersect(atomDefault(a))
	}
	return atomDefault(a)
}

func (f *Facts) rangeLin(l lin, depth int) ISet {
	if len(l.t) == 0 {
		return Single(NBig(l.k))
	}
	p, s, k := normLin(l)
	var r ISet
	pl := toLin(p)
	if len(pl.t) == 1 {
		if pl.t[0].C == 1 {
			r = f.atomDom(pl.t[0].A)
			if depth > 0 {
				lo, hi := f.zone(pl.t[0].A, nil)
				r = r.Intersect(Range(lo, hi))
			}
		} else {
			r = scaleSet(f.rangeLin(lin{[]LT{{1, pl.t[0].A}}, big.NewInt(0)}, depth), pl.t[0].C)
		}
	} else {
		lo, hi := NI(0), NI(0)
		for _, t := range pl.t {
			ar := f.atomDom(t.A)
			if len(ar) == 0 {
				return nil
			}
			a, b := ar.Lo().MulInt(t.C), ar.Hi().MulInt(t.C)
			if t.C < 0 {
				a, b = b, a
			}
			lo, hi = addInf(lo, a, -1), addInf(hi, b, 1)
		}
		r = Range(lo, hi)
		if d, ok := f.dom[p]; ok {
			r = r.Intersect(d)
		}
		if len(pl.t) == 2 && pl.t[0].C == 1 && pl.t[1].C == -1 {
			zlo, zhi := f.zone(pl.t[0].A, pl.t[1].A)
			r = r.Intersect(Range(zlo, zhi))
		}
		if depth > 0 && len(pl.t) >= 2 {
			for q, d := range f.dom {
				ql := toLin(q)
				if len(ql.t) < 2 || q == p {
					continue
				}
				for _, sg := range []int64{1, -1} {
					rest := pl.add(ql, -sg)
					if len(rest.t) >= len(pl.t) || len(rest.t) > 2 {
						continue
					}
					rr := f.rangeLin(rest, depth-1)
					dd := d
					if sg < 0 {
						dd = d.Neg()
					}
					if len(rr) == 0 || len(dd) == 0 {
						return nil
					}
					r = r.Intersect(Range(addInf(dd.Lo(), rr.Lo(), -1), addInf(dd.Hi(), rr.Hi(), 1)))
				}
			}
		}
	}
	if s < 0 {
		r = r.Neg()
	}
	return r.Shift(NBig(k))
}

func addInf(a, b Num, dir int8) Num {
	if a.inf != 0 || b.inf != 0 {
		if a.inf == -dir || b.inf == -dir {
			// opposite infinities cannot occur in well-formed bounds
			return Num{inf: dir}
		}
		return Num{inf: dir}
	}
	return a.Add(b)
}

// zone returns bounds of x-y (y==nil: of x) by shortest paths over difference facts.
func (f *Facts) zone(x, y *V) (Num, Num) {
	type edge struct {
		from, to *V // to - from <= c   (nil is the zero node)
		c        Num
	}
	var es []edge
	addIv := func(a, b *V, d ISet) { // a-b in d
		if len(d) == 0 {
			return
		}
		if !d.Hi().IsInf() {
			es = append(es, edge{b, a, d.Hi()})
		}
		if !d.Lo().IsInf() {
			es = append(es, edge{a, b, d.Lo().Neg()})
		}
	}
	atoms := map[*V]bool{x: true}
	if y != nil {
		atoms[y] = true
	}
	n2 := 0
	for q, d := range f.dom {
		ql := toLin(q)
		if len(ql.t) == 2 && ql.t[0].C == 1 && ql.t[1].C == -1 {
			addIv(ql.t[0].A, ql.t[1].A, d)
			atoms[ql.t[0].A], atoms[ql.t[1].A] = true, true
			n2++
		}
	}
	if n2 == 0 {
		lo, hi := NegInf, PosInf
		if y == nil {
			d := f.atomDom(x)
			return d.Lo(), d.Hi()
		}
		return lo, hi
	}
	for a := range atoms {
		addIv(a, nil, f.atomDom(a))
	}
	bound := func(from, to *V) Num {
		dist := map[*V]Num{from: NI(0)}
		for i := 0; i <= len(atoms)+1; i++ {
			ch := false
			for _, e := range es {
				if d, ok := dist[e.from]; ok {
					nd := d.Add(e.c)
					if o, ok := dist[e.to]; !ok || nd.Cmp(o) < 0 {
						dist[e.to] = nd
						ch = true
					}
				}
			}
			if !ch {
				break
			}
		}
		if d, ok := dist[to]; ok {
			return d
		}
		return PosInf
	}
	hi := bound(y, x)
	lo := bound(x, y).Neg()
	return lo, hi
}

// Restrict intersects v's domain with s; false when empty.
func (f *Facts) Restrict(v *V, s ISet) bool {
	l := toLin(v)
	if len(l.t) == 0 {
		return !Single(NBig(l.k)).Intersect(s).Empty()
	}
	cur := f.rangeLin(l, 2)
	nw := cur.Intersect(s)
	if nw.Empty() {
		return false
	}
	if nw.Equal(cur) {
		return true
	}
	p, sg, k := normLin(l)
	d := nw.Shift(NBig(new(big.Int).Neg(k)))
	if sg < 0 {
		d = d.Neg()
	}
	pl := toLin(p)
	if len(pl.t) == 1 && pl.t[0].C != 1 {
		// c*a in d  =>  a in d/c (only exact for singletons and bounds)
		c := pl.t[0].C
		a := pl.t[0].A
		lo, hi := d.Lo(), d.Hi()
		if !lo.IsInf() {
			lo = NBig(divCeil(lo.v, c))
		}
		if !hi.IsInf() {
			hi = NBig(divFloor(hi.v, c))
		}
		f.dom[a] = f.atomDom(a).Intersect(Range(lo, hi))
		return !f.dom[a].Empty()
	}
	if old, ok := f.dom[p]; ok {
		d = d.Intersect(old)
	}
	if d.Empty() {
		return false
	}
	f.dom[p] = d
	return f.propagate(pl, d)
}

// propagate narrows the atoms of a linear fact, when all of them are bounded.
func (f *Facts) propagate(pl lin, d ISet) bool {
	for _, t := range pl.t {
		ad := f.atomDom(t.A)
		if ad.Empty() {
			return false
		}
		if ad.Lo().IsInf() || ad.Hi().IsInf() {
			return true
		}
	}
	if len(pl.t) < 2 {
		return true
	}
	for ch, n := true, 0; ch && n < 4; n++ {
		ch = false
		for i, t := range pl.t {
			lo, hi := d.Lo(), d.Hi()
			for j, u := range pl.t {
				if j == i {
					continue
				}
				ar := f.atomDom(u.A)
				a, b := ar.Lo().MulInt(u.C), ar.Hi().MulInt(u.C)
				if u.C < 0 {
					a, b = b, a
				}
				lo, hi = addInf(lo, b.Neg(), -1), addInf(hi, a.Neg(), 1)
			}
			c := t.C
			if c < 0 {
				lo, hi, c = hi.Neg(), lo.Neg(), -c
			}
			if !lo.IsInf() {
				lo = NBig(divCeil(lo.v, c))
			}
			if !hi.IsInf() {
				hi = NBig(divFloor(hi.v, c))
			}
			ad := f.atomDom(t.A)
			if lo.Cmp(hi) > 0 {
				return false
			}
			nd := ad.Intersect(Range(lo, hi))
			if nd.Empty() {
				return false
			}
			if !nd.Equal(ad) {
				f.dom[t.A] = nd
				ch = true
			}
		}
	}
	return true
}

func divFloor(a *big.Int, c int64) *big.Int {
	q, m := new(big.Int).DivMod(a, big.NewInt(c), new(big.Int))
	_ = m
	return q
}
func divCeil(a *big.Int, c int64) *big.Int {
	n := new(big.Int).Neg(a)
	return new(big.Int).Neg(divFloor(n, c))
}

// ---- conditions ----

func isFloatV(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func IsIntT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Cmp builds the normalised condition "a op b" for operands of type t.
func Cmp(op token.Token, a, b *V, t types.Type) *V {
	switch {
	case IsIntT(t):
		switch op {
		case token.LSS:
			return le0(AddI(Sub(a, b), 1))
		case token.LEQ:
			return le0(Sub(a, b))
		case token.GTR:
			return le0(AddI(Sub(b, a), 1))
		case token.GEQ:
			return le0(Sub(b, a))
		case token.EQL:
			return eq0(Sub(a, b))
		case token.NEQ:
			return Not(eq0(Sub(a, b)))
		}
	case isFloatV(t):
		return ordCond("ford", op, a, b)
	case isStrT(t):
		return ordCond("sord", op, a, b)
	case isBoolT(t):
		var r *V
		if bv, ok := b.Bool(); ok {
			r = a
			if !bv {
				r = Not(a)
			}
		} else if av, ok := a.Bool(); ok {
			r = b
			if !av {
				r = Not(b)
			}
		} else if a == b {
			r = True
		} else if a == Not(b) {
			r = False
		} else {
			if a.ID > b.ID {
				a, b = b, a
			}
			r = T("beq", "", nil, a, b)
		}
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	var r *V
	switch {
	case b.IsNil():
		r = IsNilCond(a)
	case a.IsNil():
		r = IsNilCond(b)
	case a == b:
		r = True
	case newError(a) && newError(b) && a.Args[0].IsConst() && b.Args[0].IsConst():
		r = False // different texts: different errors
	case newError(a) && basicIface(b) || newError(b) && basicIface(a):
		r = False
	case a.Op == "struct" && b.Op == "struct" && len(a.Args) == 0:
		r = True
	case (a.Op == "struct" || b.Op == "struct") && isStruct(t):
		u := t.Underlying().(*types.Struct)
		var parts []*V
		r = True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch p := Cmp(token.EQL, StructField(a, i, ft), StructField(b, i, ft), ft); p {
			case True:
			case False:
				r = False
			default:
				parts = append(parts, p)
			}
		}
		if r == True && len(parts) > 0 {
			r = T("and", "", nil, parts...)
		}
	case a.Op == "ptr" && b.Op == "ptr":
		// distinct locations (allocation sites or symbolic objects)
		r = T("peq", "", nil, a, b)
		if ptrDistinct(a, b) {
			r = False
		}
	case a.Op == "iface" && b.Op == "iface":
		if TypeKey(a.Typ) != TypeKey(b.Typ) {
			r = False
		} else {
			return Cmp(op, a.Args[0], b.Args[0], a.Typ)
		}
	default:
		if a.ID > b.ID {
			a, b = b, a
		}
		r = T("peq", "", nil, a, b)
	}
	if op == token.NEQ {
		r = Not(r)
	}
	return r
}

func isStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func ptrDistinct(a, b *V) bool {
	x, y := a.Args[0], b.Args[0]
	if x != y && (x.Op == "alloc" || y.Op == "alloc" || x.Op == "global" || y.Op == "global") {
		return true
	}
	return false
}

func le0(x *V) *V {
	l := toLin(x)
	if len(l.t) == 0 {
		return CBool(l.k.Sign() <= 0)
	}
	return T("le0", "", nil, x)
}
func eq0(x *V) *V {
	l := toLin(x)
	if len(l.t) == 0 {
		return CBool(l.k.Sign() == 0)
	}
	if l.t[0].C < 0 {
		x = Scale(x, -1)
	}
	return T("eq0", "", nil, x)
}

func basicIface(v *V) bool {
	if v.Op != "iface" {
		return false
	}
	_, ok := v.Typ.Underlying().(*types.Basic)
	return ok
}

func newError(v *V) bool {
	return v.Op == "call" && (v.Aux == "errors.New" || v.Aux == "fmt.Errorf") && len(v.Args) > 0
}

// IsNilCond is the condition v == nil.
func IsNilCond(v *V) *V {
	switch v.Op {
	case "nil":
		return True
	case "ptr", "iface", "func", "closure", "map":
		return False
	case "call":
		switch v.Aux {
		case "errors.New", "fmt.Errorf":
			return False
		}
	case "slice":
		// a slice of an allocated backing store is non-nil; one of a symbolic
		// slice is nil iff that slice is
		b := v.Args[0]
		if b.Op == "ptr" && len(b.Args) == 1 && b.Args[0].Op == "backing" {
			return IsNilCond(b.Args[0].Args[0])
		}
		return False
	}
	return T("isnil", "", nil, v)
}

var ordMask = map[token.Token]uint8{
	token.LSS: OLT, token.LEQ: OLT | OEQ, token.GTR: OGT, token.GEQ: OGT | OEQ, token.EQL: OEQ,
}

func flipMask(m uint8) uint8 {
	r := m & (OEQ | OUN)
	if m&OLT != 0 {
		r |= OGT
	}
	if m&OGT != 0 {
		r |= OLT
	}
	return r
}

func fullMask(kind string, a, b *V) uint8 {
	if kind == "sord" {
		if as, ok := a.Str(); ok {
			if bs, ok := b.Str(); ok {
				switch {
				case as < bs:
					return OLT
				case as > bs:
					return OGT
				}
				return OEQ
			}
		}
		if a == b {
			return OEQ
		}
		return OLT | OEQ | OGT
	}
	if af, ok := floatConst(a); ok {
		if bf, ok := floatConst(b); ok {
			switch {
			case af < bf:
				return OLT
			case af > bf:
				return OGT
			}
			return OEQ
		}
	}
	if a == b {
		return OEQ | OUN
	}
	return OLT | OEQ | OGT | OUN
}

func floatConst(v *V) (float64, bool) {
	if v.Op == "fconst" {
		f, err := strconv.ParseFloat(v.Aux, 64)
		return f, err == nil
	}
	if v.Op == "const" && (v.C.Kind() == constant.Int || v.C.Kind() == constant.Float) {
		f, _ := constant.Float64Val(v.C)
		return f, true
	}
	return 0, false
}

// DistinctText says that a text term differs from a constant.
var DistinctText func(v, k *V) bool

func ordCond(kind string, op token.Token, a, b *V) *V {
	if op == token.NEQ {
		return Not(ordCond(kind, token.EQL, a, b))
	}
	m := ordMask[op]
	if a.ID > b.ID {
		a, b = b, a
		m = flipMask(m)
	}
	full := fullMask(kind, a, b)
	if kind == "sord" && DistinctText != nil && (a.Op == "const" && DistinctText(b, a) || b.Op == "const" && DistinctText(a, b)) {
		full &^= OEQ
	}
	if full&m == 0 {
		return False
	}
	if full&^m == 0 {
		return True
	}
	return T(kind, strconv.Itoa(int(m)), nil, a, b)
}

// Ord returns the possible order of a vs b (float or string terms).
func (f *Facts) Ord(kind string, a, b *V) uint8 {
	if a.ID > b.ID {
		return flipMask(f.Ord(kind, b, a))
	}
	m := fullMask(kind, a, b)
	if o, ok := f.ord[[2]*V{a, b}]; ok {
		m &= o
	}
	return m
}

// Eval evaluates a condition: +1 true, -1 false, 0 unknown.
func (f *Facts) Eval(c *V) int {
	if b, ok := c.Bool(); ok {
		if b {
			return 1
		}
		return -1
	}
	switch c.Op {
	case "not":
		return -f.Eval(c.Args[0])
	case "le0":
		r := f.Dom(c.Args[0])
		if r.Empty() {
			return -1
		}
		if r.Hi().Cmp(NI(0)) <= 0 {
			return 1
		}
		if r.Lo().Cmp(NI(0)) > 0 {
			return -1
		}
		return 0
	case "eq0":
		r := f.Dom(c.Args[0])
		if !r.Has(0) {
			return -1
		}
		if _, ok := r.IsSingle(); ok {
			return 1
		}
		return 0
	case "ford", "sord":
		m, _ := strconv.Atoi(c.Aux)
		cur := f.Ord(c.Op, c.Args[0], c.Args[1])
		if c.Op == "sord" {
			cur = f.strMask(c.Args[0], c.Args[1], cur)
		}
		if cur&uint8(m) == 0 {
			return -1
		}
		if cur&^uint8(m) == 0 {
			return 1
		}
		return 0
	case "and":
		r := 1
		for _, a := range c.Args {
			e := f.Eval(a)
			if e < 0 {
				return -1
			}
			if e == 0 {
				r = 0
			}
		}
		if r == 0 {
			if v, ok := f.truth[c]; ok {
				return b2i(v)
			}
		}
		return r
	case "beq":
		a, b := f.Eval(c.Args[0]), f.Eval(c.Args[1])
		if a != 0 && b != 0 {
			return a * b
		}
		return 0
	case "istype":
		x := c.Args[0]
		if x.Op == "iface" {
			return b2i(TypeKey(x.Typ) == TypeKey(c.Typ))
		}
		if x.IsNil() {
			return -1
		}
		if t, ok := f.typ[x]; ok {
			return b2i(TypeKey(t) == TypeKey(c.Typ))
		}
		if f.Eval(IsNilCond(x)) > 0 {
			return -1
		}
	case "isnil":
		if _, ok := f.typ[c.Args[0]]; ok {
			return -1
		}
		if n := sliceLen(c.Args[0]); n != nil && f.Dom(n).Lo().Cmp(NI(0)) > 0 {
			return -1
		}
	}
	if t, ok := f.truth[c]; ok {
		return b2i(t)
	}
	return 0
}

func sliceLen(v *V) *V {
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Slice); ok && v.Op != "slice" {
			return T("len", "", nil, v)
		}
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

// strMask refines a string order mask using facts against constants and lengths.
func (f *Facts) strMask(a, b *V, cur uint8) uint8 {
	if cur&OEQ == 0 {
		return cur
	}
	chk := func(x, c *V, m uint8) uint8 {
		cs, ok := c.Str()
		if !ok {
			return m
		}
		if eq, known := f.StrConst(x); known && eq != cs {
			if eq < cs {
				return m & OLT
			}
			return m & OGT
		}
		if !f.Dom(StrLen(x)).Has(int64(len(cs))) {
			m &^= OEQ
		}
		return m
	}
	if a.IsConst() {
		cur = flipMask(chk(b, a, flipMask(cur)))
	} else if b.IsConst() {
		cur = chk(a, b, cur)
	}
	return cur
}

// StrConst reports the constant a string term is known to equal.
func (f *Facts) StrConst(x *V) (string, bool) {
	if s, ok := x.Str(); ok {
		return s, true
	}
	for k, m := range f.ord {
		if m != OEQ {
			continue
		}
		if k[0] == x {
			if s, ok := k[1].Str(); ok {
				return s, true
			}
		}
		if k[1] == x {
			if s, ok := k[0].Str(); ok {
				return s, true
			}
		}
	}
	return "", false
}

// StrExcluded lists constants x is known to differ from.
func (f *Facts) StrExcluded(x *V) []string {
	var out []string
	for k, m := range f.ord {
		if m&OEQ != 0 {
			continue
		}
		for i := 0; i < 2; i++ {
			if k[i] == x {
				if s, ok := k[1-i].Str(); ok {
					out = append(out, s)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// StrLen is the length term of a string.
func StrLen(s *V) *V {
	if c, ok := s.Str(); ok {
		return CInt(int64(len(c)))
	}
	switch s.Op {
	case "b2s":
		return s.Args[2]
	case "substr":
		return Sub(s.Args[2], s.Args[1])
	case "concat":
		return Add(StrLen(s.Args[0]), StrLen(s.Args[1]))
	}
	return T("len", "", nil, s)
}

// Assume refines the facts with c == truth; false when contradictory.
func (f *Facts) Assume(c *V, truth bool) bool {
	e := f.Eval(c)
	if e != 0 {
		return (e > 0) == truth
	}
	switch c.Op {
	case "not":
		return f.Assume(c.Args[0], !truth)
	case "le0":
		if truth {
			return f.Restrict(c.Args[0], Range(NegInf, NI(0)))
		}
		return f.Restrict(c.Args[0], Range(NI(1), PosInf))
	case "eq0":
		if truth {
			return f.Restrict(c.Args[0], SetOf(0))
		}
		return f.Restrict(c.Args[0], SetOf(0).Complement())
	case "ford", "sord":
		mm, _ := strconv.Atoi(c.Aux)
		m := uint8(mm)
		cur := f.Ord(c.Op, c.Args[0], c.Args[1])
		if truth {
			cur &= m
		} else {
			cur &^= m
		}
		if cur == 0 {
			return false
		}
		f.ord[[2]*V{c.Args[0], c.Args[1]}] = cur
		if c.Op == "sord" && cur == OEQ {
			return f.Restrict(Sub(StrLen(c.Args[0]), StrLen(c.Args[1])), SetOf(0))
		}
		return true
	case "and":
		if truth {
			for _, a := range c.Args {
				if !f.Assume(a, true) {
					return false
				}
			}
			return true
		}
		// exactly one unknown conjunct: it must be false
		var unk []*V
		for _, a := range c.Args {
			if f.Eval(a) == 0 {
				unk = append(unk, a)
			}
		}
		if len(unk) == 1 {
			return f.Assume(unk[0], false)
		}
	case "beq":
		a, b := f.Eval(c.Args[0]), f.Eval(c.Args[1])
		if a != 0 {
			return f.Assume(c.Args[1], (a > 0) == truth)
		}
		if b != 0 {
			return f.Assume(c.Args[0], (b > 0) == truth)
		}
	case "istype":
		x := c.Args[0]
		if truth {
			f.typ[x] = c.Typ
		}
	case "isnil":
		if truth {
			if n := sliceLen(c.Args[0]); n != nil {
				f.Restrict(n, SetOf(0))
			}
		}
	}
	f.truth[c] = truth
	return true
}

// NotTypes lists concrete types x is known not to have.
func (f *Facts) NotTypes(x *V) map[string]bool {
	m := map[string]bool{}
	for c, t := range f.truth {
		if c.Op == "istype" && c.Args[0] == x && !t {
			m[TypeKey(c.Typ)] = true
		}
	}
	return m
}

// TypeOf returns the known dynamic type of an interface term.
func (f *Facts) TypeOf(x *V) types.Type {
	if x.Op == "iface" {
		return x.Typ
	}
	return f.typ[x]
}

// Dump renders all facts.
func (f *Facts) Dump() []string {
	var out []string
	for k, v := range f.dom {
		out = append(out, k.String()+" ∈ "+v.String())
	}
	for k, v := range f.truth {
		if v {
			out = append(out, k.String())
		} else {
			out = append(out, "¬"+k.String())
		}
	}
	for k, m := range f.ord {
		s := ""
		if m&OLT != 0 {
			s += "<"
		}
		if m&OEQ != 0 {
			s += "="
		}
		if m&OGT != 0 {
			s += ">"
		}
		if m&OUN != 0 {
			s += "?"
		}
		out = append(out, k[0].String()+" "+s+" "+k[1].String())
	}
	for k, t := range f.typ {
		out = append(out, k.String()+" : "+typStr(t))
	}
	sort.Strings(out)
	return out
}
