package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an interned abstract value (a term of the Herbrand domain).
// Values are compared by pointer identity.
type V struct {
	ID   int
	Op   string
	Aux  string
	Typ  types.Type
	Args []*V
	C    constant.Value // Op=="const"
	Lin  []LT           // Op=="lin": sum of Coef*Atom
	K    *big.Int       // Op=="lin": constant part
	Idx  []int64        // Op=="arrlit": constant indices of Args[1:]
	Fn   *ssa.Function  // Op=="func"/"closure"
	anch map[*V]bool    // atoms reachable (lazy)
}

// LT is one linear term.
type LT struct {
	C int64
	A *V
}

var interned = map[string]*V{}
var allVals []*V
var typeKeys = map[types.Type]string{}

var aliasRE = regexp.MustCompile(`\b(byte|rune)\b`)

// TypeKey is a canonical spelling of a type.
func TypeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	// byte and rune are aliases that print differently
	k := aliasRE.ReplaceAllStringFunc(types.TypeString(t, nil), func(m string) string {
		if m == "byte" {
			return "uint8"
		}
		return "int32"
	})
	typeKeys[t] = k
	return k
}

func mk(v *V, key string) *V {
	if o, ok := interned[key]; ok {
		return o
	}
	v.ID = len(allVals)
	allVals = append(allVals, v)
	interned[key] = v
	return v
}

func argsKey(args []*V) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte(',')
	}
	return b.String()
}

// T builds a generic term.
func T(op, aux string, typ types.Type, args ...*V) *V {
	return mk(&V{Op: op, Aux: aux, Typ: typ, Args: args}, op+"|"+aux+"|"+TypeKey(typ)+"|"+argsKey(args))
}

func Sym(name string, typ types.Type) *V { return T("sym", name, typ) }

func Const(c constant.Value) *V {
	k := "const|" + c.Kind().String() + "|" + c.ExactString()
	return mk(&V{Op: "const", C: c}, k)
}
func CInt(i int64) *V     { return Const(constant.MakeInt64(i)) }
func CBigV(b *big.Int) *V { return Const(constant.Make(new(big.Int).Set(b))) }
func CStr(s string) *V    { return Const(constant.MakeString(s)) }
func CBool(b bool) *V     { return Const(constant.MakeBool(b)) }
func CFloat(f float64) *V { return CFloatC(constant.MakeFloat64(f)) }
func CFloatC(c constant.Value) *V {
	f, _ := constant.Float64Val(c)
	return T("fconst", strconv.FormatFloat(f, 'g', -1, 64), nil)
}

var (
	True  = CBool(true)
	False = CBool(false)
	Nil   = T("nil", "", nil)
	Zero  = CInt(0)
)

func (v *V) IsConst() bool { return v.Op == "const" }
func (v *V) IsNil() bool   { return v.Op == "nil" }
func (v *V) Int() (int64, bool) {
	if v.Op == "const" && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func (v *V) BigInt() (*big.Int, bool) {
	if v.Op == "const" && v.C.Kind() == constant.Int {
		b, ok := new(big.Int).SetString(v.C.ExactString(), 10)
		return b, ok
	}
	return nil, false
}
func (v *V) Str() (string, bool) {
	if v.Op == "const" && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}
func (v *V) Bool() (val, ok bool) {
	if v.Op == "const" && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}

// ---- linear integer expressions ----

type lin struct {
	t []LT
	k *big.Int
}

func toLin(v *V) lin {
	if b, ok := v.BigInt(); ok {
		return lin{nil, b}
	}
	if v.Op == "lin" {
		return lin{v.Lin, v.K}
	}
	return lin{[]LT{{1, v}}, big.NewInt(0)}
}

func (l lin) add(m lin, f int64) lin {
	acc := map[*V]int64{}
	for _, t := range l.t {
		acc[t.A] += t.C
	}
	for _, t := range m.t {
		acc[t.A] += f * t.C
	}
	var out []LT
	for a, c := range acc {
		if c != 0 {
			out = append(out, LT{c, a})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].A.ID < out[j].A.ID })
	k := new(big.Int).Mul(m.k, big.NewInt(f))
	k.Add(k, l.k)
	return lin{out, k}
}

func (l lin) scale(f int64) lin { return lin{nil, big.NewInt(0)}.add(l, f) }

func fromLin(l lin) *V {
	if len(l.t) == 0 {
		return CBigV(l.k)
	}
	if len(l.t) == 1 && l.t[0].C == 1 && l.k.Sign() == 0 {
		return l.t[0].A
	}
	var b strings.Builder
	b.WriteString("lin|")
	b.WriteString(l.k.String())
	for _, t := range l.t {
		fmt.Fprintf(&b, "|%d*%d", t.C, t.A.ID)
	}
	args := make([]*V, len(l.t))
	for i, t := range l.t {
		args[i] = t.A
	}
	return mk(&V{Op: "lin", Lin: l.t, K: l.k, Args: args}, b.String())
}

func Add(a, b *V) *V         { return fromLin(toLin(a).add(toLin(b), 1)) }
func Sub(a, b *V) *V         { return fromLin(toLin(a).add(toLin(b), -1)) }
func AddI(a *V, k int64) *V  { return Add(a, CInt(k)) }
func Scale(a *V, k int64) *V { return fromLin(toLin(a).scale(k)) }
func linDiff(a, b *V) lin    { return toLin(a).add(toLin(b), -1) }
func DiffConst(a, b *V) (int64, bool) {
	d := linDiff(a, b)
	if len(d.t) == 0 && d.k.IsInt64() {
		return d.k.Int64(), true
	}
	return 0, false
}

// ---- printing ----

func (v *V) String() string { return v.str(0) }

func typStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func (v *V) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	var as []string
	for _, a := range v.Args {
		if len(as) > 12 {
			as = append(as, "…")
			break
		}
		as = append(as, a.str(d+1))
	}
	j := strings.Join(as, ", ")
	switch v.Op {
	case "const":
		return v.C.ExactString()
	case "fconst":
		return v.Aux
	case "nil":
		return "nil"
	case "sym":
		return v.Aux
	case "lin":
		var b []string
		for _, t := range v.Lin {
			switch t.C {
			case 1:
				b = append(b, t.A.str(d+1))
			case -1:
				b = append(b, "-"+t.A.str(d+1))
			default:
				b = append(b, fmt.Sprintf("%d*%s", t.C, t.A.str(d+1)))
			}
		}
		if v.K.Sign() != 0 {
			b = append(b, v.K.String())
		}
		return "(" + strings.Join(b, "+") + ")"
	case "field":
		if st, ok := under(v.Args[0].Typ).(*types.Struct); ok {
			i, _ := strconv.Atoi(v.Aux)
			if i < st.NumFields() {
				return v.Args[0].str(d+1) + "." + st.Field(i).Name()
			}
		}
		return v.Args[0].str(d+1) + ".#" + v.Aux
	case "elem", "selem":
		return v.Args[0].str(d+1) + "[" + v.Args[1].str(d+1) + "]"
	case "arr", "deref", "backing":
		return v.Op + "(" + j + ")"
	case "iface":
		return typStr(v.Typ) + "(" + j + ")"
	case "unbox":
		return j + ".(" + typStr(v.Typ) + ")"
	case "conv":
		return typStr(v.Typ) + "(" + j + ")"
	case "struct":
		return typStr(v.Typ) + "{" + j + "}"
	case "slice":
		return fmt.Sprintf("%s[%s:+%s]", as[0], as[1], as[2])
	case "func", "closure":
		return v.Aux
	}
	s := v.Op
	if v.Aux != "" {
		s += ":" + v.Aux
	}
	return s + "(" + j + ")"
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// ---- typed construction ----

// ZeroVal returns the zero value of a type.
func ZeroVal(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Zero
		case u.Info()&types.IsFloat != 0:
			return T("fconst", "0", nil)
		case u.Info()&types.IsString != 0:
			return CStr("")
		}
		return Nil
	case *types.Struct:
		args := make([]*V, u.NumFields())
		for i := range args {
			args[i] = ZeroVal(u.Field(i).Type())
		}
		return T("struct", "", t, args...)
	case *types.Array:
		return T("zeroarr", "", t)
	case *types.Tuple:
		args := make([]*V, u.Len())
		for i := range args {
			args[i] = ZeroVal(u.At(i).Type())
		}
		return T("tuple", "", nil, args...)
	}
	return Nil
}

// StructField projects a field from a struct value.
func StructField(v *V, i int, ft types.Type) *V {
	if v.Op == "struct" {
		return v.Args[i]
	}
	return T("field", strconv.Itoa(i), ft, v)
}

// StructWith returns v with field i replaced.
func StructWith(v *V, st *types.Struct, typ types.Type, i int, nv *V) *V {
	args := make([]*V, st.NumFields())
	for j := range args {
		if j == i {
			args[j] = nv
		} else {
			args[j] = StructField(v, j, st.Field(j).Type())
		}
	}
	// collapse struct{field(x,0),...,field(x,n)} back to x
	if len(args) > 0 && args[0].Op == "field" && TypeKey(args[0].Args[0].Typ) == TypeKey(typ) {
		base := args[0].Args[0]
		same := true
		for j, a := range args {
			if a.Op != "field" || a.Args[0] != base || a.Aux != strconv.Itoa(j) {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return T("struct", "", typ, args...)
}

func Iface(dyn types.Type, v *V) *V { return T("iface", "", dyn, v) }

func Tuple(vs ...*V) *V { return T("tuple", "", nil, vs...) }

func FuncV(fn *ssa.Function) *V {
	return mk(&V{Op: "func", Aux: fn.String(), Fn: fn}, "func|"+fn.String())
}
func ClosureV(fn *ssa.Function, binds []*V) *V {
	return mk(&V{Op: "closure", Aux: fn.String(), Fn: fn, Args: binds}, "closure|"+fn.String()+"|"+argsKey(binds))
}

// Not negates a boolean value.
func Not(v *V) *V {
	if b, ok := v.Bool(); ok {
		return CBool(!b)
	}
	if v.Op == "not" {
		return v.Args[0]
	}
	return T("not", "", nil, v)
}

// Atoms collects every term reachable from v (itself included).
func (v *V) Walk(seen map[*V]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, a := range v.Args {
		a.Walk(seen)
	}
}

// Mentions reports whether t occurs inside v.
func (v *V) Mentions(t *V) bool { return v.sub()[t] }

func (v *V) sub() map[*V]bool {
	if v.anch == nil {
		m := map[*V]bool{}
		v.Walk(m)
		v.anch = m
	}
	return v.anch
}

// Subst replaces terms bottom-up according to f (f returns nil to keep).
func Subst(v *V, m map[*V]*V, memo map[*V]*V) *V {
	if r, ok := m[v]; ok {
		return r
	}
	if len(v.Args) == 0 {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	var out *V
	if v.Op == "lin" {
		acc := lin{nil, v.K}
		for _, t := range v.Lin {
			acc = acc.add(toLin(Subst(t.A, m, memo)), t.C)
		}
		out = fromLin(acc)
	} else {
		args := make([]*V, len(v.Args))
		ch := false
		for i, a := range v.Args {
			args[i] = Subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			out = v
		} else {
			out = rebuild(v, args)
		}
	}
	memo[v] = out
	return out
}

func rebuild(v *V, args []*V) *V {
	switch v.Op {
	case "closure":
		return ClosureV(v.Fn, args)
	case "arrlit":
		return ArrLit(v.Typ, args[0], v.Idx, args[1:])
	case "not":
		return Not(args[0])
	case "field":
		i, _ := strconv.Atoi(v.Aux)
		return StructField(args[0], i, v.Typ)
	}
	return T(v.Op, v.Aux, v.Typ, args...)
}

// ---- arrays ----

// ArrLit is an array term: base with constant-index overrides.
func ArrLit(typ types.Type, base *V, idx []int64, vals []*V) *V {
	var b strings.Builder
	for _, i := range idx {
		b.WriteString(strconv.FormatInt(i, 10))
		b.WriteByte(',')
	}
	args := append([]*V{base}, vals...)
	return mk(&V{Op: "arrlit", Typ: typ, Args: args, Idx: idx, Aux: b.String()},
		"arrlit|"+b.String()+"|"+TypeKey(typ)+"|"+argsKey(args))
}

func isCmpOp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}
