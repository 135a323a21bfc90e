package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// The evaluation side of C10: every function a rule may name has an evaluator,
// which computes that function of the parameters in their order.
//
// The functions from a function reference to a dynamic value are interpreted
// on a reference of every name, its parameters given as values and as the
// value being looked at; the result has to be the named operation.

// what the compiled names stand for
var nameOps = map[string]string{
	"mathAbs": "abs", "mathAcos": "math.Acos", "mathAsin": "math.Asin", "mathAtan": "math.Atan", "mathCeil": "math.Ceil", "mathCos": "math.Cos",
	"mathDegrees": "deg", "mathExp": "math.Exp", "mathFloor": "math.Floor", "mathLog": "math.Log10", "mathLn": "math.Log", "mathSin": "math.Sin", "mathTan": "math.Tan",
	"mathRadians": "rad", "mathRound": "round", "mathSqrt": "math.Sqrt", "mathNegate": "neg",
	"mathAtan2": "math.Atan2", "mathPow": "math.Pow",
}

func init() {
	ops := map[string]string{"+": "+", "-": "-", "*": "*", "/": "/", "%": "%"}
	for o, n := range refMath {
		nameOps[n] = ops[o]
	}
}

func (c *Check) dispatch() {
	e := c.Engine()
	e.MaxStates = 4000
	m := newFV(c, e)
	frT := c.lookupType("FuncRef")
	fvT := m.t
	var fns []*ssa.Function
	for _, f := range c.P.AllFuncs() {
		s := f.Signature
		if s.Results().Len() != 1 || !types.Identical(s.Results().At(0).Type(), fvT) {
			continue
		}
		for i := 0; i < s.Params().Len(); i++ {
			if types.Identical(s.Params().At(i).Type(), frT) {
				fns = append(fns, f)
				break
			}
		}
	}
	if len(fns) == 0 {
		c.Undec("no function evaluates a function reference")
		return
	}
	var names []string
	for n := range nameOps {
		names = append(names, n)
	}
	names = append(names, "date")
	sort.Strings(names)
	var pf *types.Var
	ft := frT.Underlying().(*types.Struct)
	for i := 0; i < ft.NumFields(); i++ {
		if ft.Field(i).Name() == "Params" {
			pf = ft.Field(i)
		}
	}
	if pf == nil {
		c.Undec("the parameters of a function reference are not known")
		return
	}
	el := pf.Type().Underlying().(*types.Slice).Elem()
	lit := c.P.SSA.Pkg.Scope().Lookup("activeLitRef")
	for _, fn := range fns {
		for _, n := range names {
			op := nameOps[n]
			two := refFuncTwo[n] || len(op) == 1
			kinds := [][2]string{{"FloatValue", "FloatValue"}, {"IntValue", "IntValue"}, {"JsonFloatValue", "IntValue"}}
			if n == "date" {
				kinds = [][2]string{{"TimeValue", ""}, {"BinStringValue", ""}, {"StringValue", ""}, {"IntValue", ""}}
			}
			for _, k := range kinds {
				for active := -1; active < 2; active++ {
					if active == 1 && !two || active >= 0 && lit == nil {
						continue
					}
					st := e.NewState()
					ops := []*fval{m.value(st, k[0], "a")}
					st.Ghost["kind_a"], st.Ghost["kind_b"] = CStr(k[0]), CStr(k[1])
					if two {
						ops = append(ops, m.value(st, k[1], "b"))
					}
					var ps []*V
					act := Nil
					for i, o := range ops {
						if i == active {
							ps = append(ps, Iface(lit.Type(), ZeroVal(lit.Type())))
							p, off, _, _ := SliceParts(e.NewSlice(st, "active", fvT, []*V{o.v}))
							act = ExtendPtr(p, PI(off, fvT))
							continue
						}
						ps = append(ps, Iface(fvT, o.v))
					}
					v := ZeroVal(frT)
					v = c.withField(v, frT, "FuncName", CStr(n))
					v = c.withField(v, frT, "Params", e.NewSlice(st, "params", el, ps))
					var args []*V
					for i, p := range fn.Params {
						t := p.Type()
						switch {
						case types.Identical(t, frT):
							args = append(args, v)
						case types.Identical(t, types.NewPointer(fvT)):
							args = append(args, act)
						default:
							a := Sym("argument "+p.Name(), t)
							if i == 0 && fn.Signature.Recv() != nil {
								st.Facts.Assume(IsNilCond(a), false)
							}
							args = append(args, a)
						}
					}
					what := "function " + n + " (" + strings.Join(k[:], ", ") + ")"
					e.OnFault = func(Fault) {}
					for _, f := range e.Call(fn, st, args) {
						w := e.Pos(InstrPos(f.Instr))
						if f.Panic {
							c.Bad(n, w, "every function of a rule has an evaluator", what+": "+f.What, e.TraceLines(f.St, 12))
							continue
						}
						if n == "date" {
							r := m.kindOf(f.St, f.Ret)
							if k[0] == "TimeValue" && f.Ret != ops[0].v || r != "TimeValue" && r != "InvalidValue" || k[0] == "IntValue" && r == "TimeValue" {
								c.Bad(n, w, "the named function of the parameters", what+" gives "+f.Ret.String(), e.TraceLines(f.St, 12))
							} else {
								c.Ok("%s gives the point in time", what)
							}
							continue
						}
						m.judge(n, what, op, ops, f)
					}
					c.takeUndec(e)
				}
			}
		}
	}
	c.Cov["functions evaluated"] = len(names)
}

var refFuncTwo = map[string]bool{"mathAtan2": true, "mathPow": true}
