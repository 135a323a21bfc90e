package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verifcheck/absint"
)

// matEnv is the environment the matcher's own functions are interpreted in:
// the tokenizer, the evaluation tree and the neighbouring functions of the
// matcher are replaced by models that record what is asked of them.
type matEnv struct {
	heap
	mT, tokT, fvT types.Type
	M             *V
	tok           map[string]*V
	values        []string // token classes that start a value
	errT          types.Type
}

var valueTokens = []string{"tknString", "tknEscString", "tknInteger", "tknNumber", "tknNull", "tknTrue", "tknFalse", "tknObjectStart", "tknArrayStart"}

func newMat(c *Check) *matEnv {
	m := &matEnv{heap: heap{c: c, e: c.Engine()}}
	m.mT, m.tokT, m.fvT = c.lookupType("FastMatcher"), c.lookupType("tokenType"), c.lookupType("FastVal")
	m.M = Sym("m", types.NewPointer(m.mT))
	m.tok = map[string]*V{}
	for _, n := range c.P.SSA.Pkg.Scope().Names() {
		if strings.HasPrefix(n, "tkn") {
			if v := constVal(c.P, n); v != nil {
				m.tok[n] = v
			}
		}
	}
	m.values = valueTokens
	for _, n := range m.values {
		if m.tok[n] == nil {
			panic(missing("constant " + n))
		}
	}
	m.errT = types.Universe.Lookup("error").Type()
	m.e.Pin = func(*V) bool { return true }
	return m
}

func (m *matEnv) hook(name string, h Hook) {
	if name == "jsonTokenizer.Step" {
		step := h
		h = func(x *CallCtx, st *State) ([]Out, bool) {
			if g(st, "err") == "Step" { // a tokenizer that has failed fails again
				s, ev := m.err(st, "Step")
				return []Out{{s, Tuple(m.tok["tknUnknown"], Nil, Zero, ev)}}, true
			}
			return step(x, st)
		}
	}
	m.e.Hooks[m.e.ShortName(m.c.fn(name))] = h
}

// opaque hooks a function of the standard library that builds an error or a text.
func (m *matEnv) tokSet(names ...string) ISet {
	var s ISet
	for _, n := range names {
		k, _ := m.tok[n].Int()
		s = s.Union(RangeI(k, k))
	}
	return s
}

func (m *matEnv) allTokens() []string {
	var out []string
	for n := range m.tok {
		out = append(out, n)
	}
	return out
}

// err makes a state in which the call failed.
func (m *matEnv) err(st *State, who string) (*State, *V) {
	s := st.Clone()
	ev := Sym("error from "+who, m.errT)
	s.Facts.Assume(IsNilCond(ev), false)
	s.Ghost["err"] = CStr(who)
	return s, ev
}

func (m *matEnv) state() *State {
	st := m.e.NewState()
	st.Facts.Assume(IsNilCond(m.M), false)
	return st
}

// pos of the instruction making a call.
func (m *matEnv) at(x *CallCtx) string { return m.e.Pos(InstrPos(x.Instr.(ssa.Instruction))) }

// errKind tells whether a returned error is nil (1), not nil (-1) or open (0).
func errKind(st *State, ev *V) int { return st.Facts.Eval(IsNilCond(ev)) }

// ghost strings
func g(st *State, k string) string {
	if v := st.Ghost[k]; v != nil {
		s, _ := v.Str()
		return s
	}
	return ""
}

func sg(st *State, k, v string) { st.Ghost[k] = CStr(v) }

// assumeEq forks a state on two terms being equal (integers).
func eqFork(st *State, a, b *V) (eq, ne *State) { return split(st, Cmp(token.EQL, a, b, intT())) }

const (
	tEQL = token.EQL
	tGTR = token.GTR
	tGEQ = token.GEQ
	tLSS = token.LSS
	tLEQ = token.LEQ
)

const errRule = "an error met on the way is returned"

// lost judges an outcome on whose path a call failed (C19); other rules do not
// apply to it.
func (m *matEnv) lost(f *Final, ret *V) bool {
	who := g(f.St, "err")
	if who == "" {
		return false
	}
	if m.c.only == errRule {
		m.c.Expect(errKind(f.St, ret) < 0, m.e.ShortName(f.Instr.Parent()), m.e.Pos(InstrPos(f.Instr)), errRule, fmt.Sprintf("the error of %s is dropped: %s is returned", who, ret), m.e.TraceLines(f.St, 20))
	}
	return true
}
