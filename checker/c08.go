package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// C08: arithmetic never panics. C09: it computes the named operation.
//
// Every function from one or two dynamic values to a dynamic value is
// interpreted on symbolic operands of every kind; C08 looks at possible
// run-time faults, C09 at the term computed.

func init() {
	checks["C08"] = func(c *Check) { arith(c, false) }
	checks["C09"] = func(c *Check) { arith(c, true) }
}

// the operation each named function stands for
var arith1 = map[string]string{
	"FastValMathSqrt": "math.Sqrt", "FastValMathAcos": "math.Acos", "FastValMathAsin": "math.Asin", "FastValMathAtan": "math.Atan",
	"FastValMathCos": "math.Cos", "FastValMathSin": "math.Sin", "FastValMathTan": "math.Tan", "FastValMathExp": "math.Exp",
	"FastValMathLn": "math.Log", "FastValMathLog": "math.Log10", "FastValMathCeil": "math.Ceil", "FastValMathFloor": "math.Floor",
	"FastValMathDegrees": "deg", "FastValMathRadians": "rad", "FastValMathRound": "round", "FastValMathAbs": "abs", "FastValMathNeg": "neg",
}
var arith2 = map[string]string{
	"FastValMathPow": "math.Pow", "FastValMathAtan2": "math.Atan2",
	"FastValMathAdd": "+", "FastValMathSub": "-", "FastValMathMul": "*", "FastValMathDiv": "/", "FastValMathMod": "%",
}

func arith(c *Check, values bool) {
	fvT := c.lookupType("FastVal")
	if values {
		c.Cov["rule"] = "abstract interpretation of each arithmetic function on symbolic operands of every pair of kinds; the result term must be the named operation on the operands' exact values in a common kind"
	} else {
		c.Cov["rule"] = "abstract interpretation of each function over dynamic values on symbolic operands of every kind; no division by a possible zero, no failing assertion, index or explicit panic"
	}
	var fns []*ssa.Function
	for _, m := range c.P.SSA.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), fvT) {
			continue
		}
		n := f.Signature.Params().Len()
		all := n == 1 || n == 2
		for i := 0; i < n; i++ {
			all = all && types.Identical(f.Signature.Params().At(i).Type(), fvT)
		}
		if all {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	e := c.Engine()
	e.MaxStates = 4000
	m := newFV(c, e)
	seen := map[string]bool{}
	runs := 0
	for _, fn := range fns {
		want := arith1[fn.Name()]
		two := fn.Signature.Params().Len() == 2
		if two {
			want = arith2[fn.Name()]
		}
		seen[fn.Name()] = true
		if values && want == "" {
			continue
		}
		for _, k1 := range m.kinds {
			ks := []string{""}
			if two {
				ks = m.kinds
			}
			for _, k2 := range ks {
				if values && !numKind(k1) && two && !numKind(k2) && k1 != k2 {
					continue
				}
				runs++
				st := e.NewState()
				ops := []*fval{m.value(st, k1, "a")}
				st.Ghost["kind_a"] = CStr(k1)
				if two {
					ops = append(ops, m.value(st, k2, "b"))
					st.Ghost["kind_b"] = CStr(k2)
				}
				var args []*V
				what := fn.Name() + "(" + k1
				for _, o := range ops {
					args = append(args, o.v)
				}
				if two {
					what += ", " + k2
				}
				what += ")"
				e.OnFault = func(f Fault) {
					if values {
						return
					}
					c.Bad(fn.Name()+"/"+k1+"/"+k2, e.Pos(InstrPos(f.Instr)), "arithmetic never panics", what+" may fail: "+f.Kind+" ("+f.What+")", e.TraceLines(f.St, 12))
				}
				fins := e.Call(fn, st, args)
				for _, f := range fins {
					if f.Panic {
						if !values && !strings.Contains(f.What, "divide") {
							c.Bad(fn.Name()+"/"+k1+"/"+k2, e.Pos(InstrPos(f.Instr)), "arithmetic never panics", what+" panics: "+f.What, e.TraceLines(f.St, 12))
						}
						continue
					}
					if !values {
						c.Ok("%s returns %s", what, m.kindOf(f.St, f.Ret))
						continue
					}
					m.judge(fn.Name(), what, want, ops, f)
				}
				c.takeUndec(e)
			}
		}
	}
	for _, tab := range []map[string]string{arith1, arith2} {
		for n := range tab {
			if !seen[n] {
				c.Undec("function %s not found", n)
			}
		}
	}
	c.Cov["functions"] = len(seen)
	c.Cov["operand_configurations"] = runs
	c.Assume = append(c.Assume, "literal text of a document is an integer or non-integer JSON number as its kind says; strconv parses as documented")
}

// kindOf names the kind of a result.
func (m *fvModel) kindOf(st *State, v *V) string {
	d := m.c.fieldOf(v, m.t, "dataType")
	for _, k := range m.kinds {
		if st.Facts.Eval(eqI(d, m.c.konst(k))) > 0 {
			return k
		}
	}
	return "?" + d.String()
}

func (m *fvModel) raw(v *V, t types.Type) *V {
	r := m.c.fieldOf(v, m.t, "rawData")
	if r.Op == "rawof" && r.Aux == TypeKey(t) {
		return r.Args[0]
	}
	if r.Op == "zeroarr" || r.Op == "arrlit" {
		return Zero
	}
	return T("viewas", "", t, r)
}

// judge compares a result with the operation named.
func (m *fvModel) judge(key, what, op string, ops []*fval, f *Final) {
	c, st := m.c, f.St
	where := m.e.Pos(InstrPos(f.Instr))
	k := m.kindOf(st, f.Ret)
	bad := func(format string, a ...interface{}) {
		c.Bad(key, where, "the named operation on the operands' values", what+": "+fmt.Sprintf(format, a...), m.e.TraceLines(st, 14))
	}
	ok := func() { c.Ok("%s gives %s", what, k) }
	for _, o := range ops {
		if !numKind(o.kind) {
			if k != "InvalidValue" {
				if op == "abs" || op == "round" {
					// a value handed back unchanged is not a number either
					if f.Ret == o.v {
						bad("gives back a value that is not a number")
						return
					}
				}
				bad("a number from an operand that is not one (%s)", k)
				return
			}
			ok()
			return
		}
	}
	two := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	isFloat := false
	mayFit64, mayFitU := true, true
	for _, o := range ops {
		if o.F != nil {
			isFloat = true
			continue
		}
		d := st.Facts.Dom(o.X)
		i, u := TypeRange(m.i64), TypeRange(m.u64)
		mayFit64 = mayFit64 && !d.Intersect(i).Empty()
		mayFitU = mayFitU && !d.Intersect(u).Empty()
	}
	// joint: can all operands (and a difference) be of the kind at once?
	joint := func(t types.Type, diff bool) bool {
		fc := st.Facts.Clone()
		for _, o := range ops {
			if o.X == nil || !fc.Restrict(o.X, TypeRange(t)) {
				return false
			}
		}
		return !diff || fc.Restrict(Sub(ops[0].X, ops[1].X), TypeRange(t))
	}
	flt := func(o *fval) string {
		if o.F != nil {
			return fnorm(st, o.F)
		}
		return fnorm(st, T("conv", "exact", m.f64, o.X))
	}
	floatOp := func() []string {
		a := flt(ops[0])
		switch op {
		case "deg":
			return []string{fmt.Sprintf("%.12g*", 180/3.14159265358979323846) + a[2:]}
		case "rad":
			return []string{fmt.Sprintf("%.12g*", 3.14159265358979323846/180) + a[2:]}
		case "neg":
			return []string{"-1*" + a[2:]}
		case "abs":
			return []string{"1*math.Abs(" + a + ")"}
		case "round":
			p, n := a+" + 0.5", a+" + -0.5"
			return []string{"1*trunc(" + p + ")", "1*trunc(" + n + ")", "1*math.Round(" + a + ")", "1*math.Floor(" + p + ")", "1*math.Ceil(" + n + ")"}
		case "+", "-", "*", "/":
			x, y := opTerm(m, ops[0]), opTerm(m, ops[1])
			return []string{fnorm(st, T("fbin", op, nil, x, y))}
		}
		as := []string{a}
		if len(ops) == 2 {
			as = append(as, flt(ops[1]))
		}
		return []string{"1*" + op + "(" + strings.Join(as, ", ") + ")"}
	}
	onlyFloat := strings.HasPrefix(op, "math.") || op == "deg" || op == "rad"
	switch k {
	case "InvalidValue":
		if isFloat || onlyFloat {
			if op == "%" && isFloat {
				ok()
				return
			}
			// only a literal too large for its kind excuses this
			for _, o := range ops {
				if o.X != nil && !st.Facts.Dom(o.X).Subset(Range(NBig(new(big.Int).Neg(two(63))), NBig(new(big.Int).Sub(two(64), big.NewInt(1))))) {
					ok()
					return
				}
				if o.kind == "JsonIntValue" && !st.Facts.Dom(o.X).Subset(TypeRange(m.i64)) {
					ok()
					return
				}
			}
			bad("invalid, though the operands are numbers")
			return
		}
		if (op == "/" || op == "%") && st.Facts.Eval(eqI(ops[1].X, Zero)) > 0 {
			ok()
			return
		}
		if op == "neg" && !mayFit64 || op == "abs" && !mayFit64 && !mayFitU {
			ok()
			return
		}
		// excused when no integer kind holds both operands and the result
		x := ops[0].X
		var y *V
		if len(ops) > 1 {
			y = ops[1].X
		}
		in64, inU := mayFit64, mayFitU
		for _, o := range ops {
			if o.kind == "JsonIntValue" && !st.Facts.Dom(o.X).Subset(TypeRange(m.i64)) {
				in64, inU = false, false // the literal itself is out of range for its kind
			}
			if !st.Facts.Dom(o.X).Subset(TypeRange(m.i64)) && !st.Facts.Dom(o.X).Intersect(TypeRange(m.i64)).Empty() {
				// part of the values on this path are too large
				in64 = false
			}
		}
		if op == "-" && y != nil {
			if !st.Facts.Dom(Sub(x, y)).Subset(TypeRange(m.i64)) && st.Facts.Dom(Sub(x, y)).Intersect(TypeRange(m.i64)).Empty() {
				in64 = false
			}
			if st.Facts.Eval(Cmp(token.LSS, x, y, m.u64)) > 0 {
				inU = false
			}
		}
		if !in64 && !inU {
			ok()
			return
		}
		bad("invalid, though both operands fit one integer kind")
		return
	case "FloatValue":
		if !(isFloat || onlyFloat) {
			// allowed only when no integer kind can hold both operands
			if joint(m.i64, false) || joint(m.u64, op == "-") || op == "%" {
				bad("a float from integers that fit one integer kind")
				return
			}
			if op == "neg" || op == "abs" {
				bad("a float from an integer")
				return
			}
		}
		got := fnorm(st, reconv(st, m.raw(f.Ret, m.f64)))
		exp := floatOp()
		for _, x := range exp {
			if x == got {
				if op == "round" {
					pos := st.Facts.Eval(Cmp(token.GEQ, ops[0].F, CFloat(0), m.f64))
					neg := st.Facts.Eval(Cmp(token.LSS, ops[0].F, CFloat(0), m.f64))
					if x == exp[0] && neg > 0 || x == exp[1] && neg <= 0 && pos > 0 || x == exp[1] && neg < 0 {
						bad("rounds %s to %s", map[bool]string{true: "negative numbers", false: "positive numbers"}[neg > 0], got)
						return
					}
				}
				ok()
				return
			}
		}
		bad("gives %s, expected %s", got, exp[0])
		return
	case "IntValue", "UintValue", "JsonIntValue", "JsonUintValue":
		if isFloat {
			bad("an integer from a float operand")
			return
		}
		if onlyFloat {
			bad("an integer from a float function")
			return
		}
		if f.Ret == ops[0].v && len(ops) == 1 {
			if op == "round" || op == "abs" && st.Facts.Eval(Cmp(token.GEQ, ops[0].X, Zero, m.i64)) > 0 {
				ok()
				return
			}
			bad("gives back its operand")
			return
		}
		t := m.i64
		if k == "UintValue" {
			t = m.u64
		} else if k != "IntValue" {
			bad("a literal kind as result")
			return
		}
		got := reconv(st, m.raw(f.Ret, t))
		x := ops[0].X
		var cands []*V
		opq := func(o string, ty types.Type, a, b *V) {
			cands = append(cands, T("bin", o, ty, a, b))
			if o == "+" || o == "*" {
				cands = append(cands, T("bin", o, ty, b, a))
			}
		}
		if len(ops) == 1 {
			switch op {
			case "neg":
				cands = append(cands, Scale(x, -1))
				opq("*", m.i64, CInt(-1), x)
				opq("-", m.i64, Zero, x)
				cands = append(cands, T("un", "-", m.i64, x))
			case "abs":
				if st.Facts.Eval(Cmp(token.LEQ, x, Zero, m.i64)) > 0 {
					cands = append(cands, Scale(x, -1), T("un", "-", m.i64, x))
					opq("*", m.i64, CInt(-1), x)
					opq("-", m.i64, Zero, x)
				}
				if st.Facts.Eval(Cmp(token.GEQ, x, Zero, m.i64)) > 0 {
					cands = append(cands, x)
				}
			}
			for _, cd := range cands {
				if c.eqv(st, got, cd) {
					ok()
					return
				}
			}
			bad("gives %s", got)
			return
		}
		y := ops[1].X
		switch op {
		case "+":
			cands = append(cands, Add(x, y))
		case "-":
			cands = append(cands, Sub(x, y))
			opq("+", t, x, Scale(y, -1))
		}
		if op != "+" && op != "-" && op != "*" || true {
			for _, ty := range []types.Type{m.i64, m.u64} {
				opq(op, ty, x, y)
			}
		}
		if k == "UintValue" && op == "-" && st.Facts.Eval(Cmp(token.LSS, x, y, m.u64)) > 0 {
			bad("a difference below zero in the unsigned kind")
			return
		}
		for _, cd := range cands {
			if c.eqv(st, got, cd) {
				ok()
				return
			}
		}
		// operands may be known constants on this path
		if st.Facts.Eval(Cmp(token.EQL, got, cands[0], t)) > 0 {
			ok()
			return
		}
		bad("gives %s, expected %s", got, cands[0])
		return
	}
	bad("gives a %s", k)
}

func opTerm(m *fvModel, o *fval) *V {
	if o.F != nil {
		return o.F
	}
	return T("conv", "exact", m.f64, o.X)
}
