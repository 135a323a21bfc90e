// Package absint is a small abstract interpreter for Go SSA: a disjunctive
// (trace-partitioned) forward analysis over constants, finite integer sets,
// difference bounds and a Herbrand (value-numbering) term domain, run to a
// fixpoint with widening at loop heads.
package absint

import (
	"math"
	"math/big"
	"sort"
	"strings"
)

// Num is an integer with infinities, wide enough for differences of 64-bit values.
type Num struct {
	inf int8 // -1, 0, +1
	v   *big.Int
}

var (
	NegInf = Num{inf: -1}
	PosInf = Num{inf: 1}
)

func NI(i int64) Num { return Num{v: big.NewInt(i)} }
func NBig(b *big.Int) Num {
	return Num{v: b}
}

func (a Num) IsInf() bool { return a.inf != 0 }
func (a Num) Cmp(b Num) int {
	if a.inf != 0 || b.inf != 0 {
		switch {
		case a.inf < b.inf:
			return -1
		case a.inf > b.inf:
			return 1
		}
		return 0
	}
	return a.v.Cmp(b.v)
}
func (a Num) Add(b Num) Num {
	if a.inf != 0 {
		return a
	}
	if b.inf != 0 {
		return b
	}
	return Num{v: new(big.Int).Add(a.v, b.v)}
}
func (a Num) Neg() Num {
	if a.inf != 0 {
		return Num{inf: -a.inf}
	}
	return Num{v: new(big.Int).Neg(a.v)}
}
func (a Num) MulInt(k int64) Num {
	if k == 0 {
		return NI(0)
	}
	if a.inf != 0 {
		if k < 0 {
			return Num{inf: -a.inf}
		}
		return a
	}
	return Num{v: new(big.Int).Mul(a.v, big.NewInt(k))}
}
func (a Num) String() string {
	switch a.inf {
	case -1:
		return "-inf"
	case 1:
		return "+inf"
	}
	return a.v.String()
}
func (a Num) Int64() int64 {
	if a.inf != 0 {
		if a.inf < 0 {
			return math.MinInt64
		}
		return math.MaxInt64
	}
	return a.v.Int64()
}

// Iv is a closed interval.
type Iv struct{ Lo, Hi Num }

// ISet is a sorted set of disjoint, non-adjacent intervals. nil means empty.
type ISet []Iv

var Full = ISet{{NegInf, PosInf}}

func Range(lo, hi Num) ISet {
	if lo.Cmp(hi) > 0 {
		return nil
	}
	return ISet{{lo, hi}}
}
func RangeI(lo, hi int64) ISet { return Range(NI(lo), NI(hi)) }
func Single(n Num) ISet        { return ISet{{n, n}} }
func SetOf(vs ...int64) ISet {
	var s ISet
	for _, v := range vs {
		s = s.Union(RangeI(v, v))
	}
	return s
}

func (s ISet) Empty() bool { return len(s) == 0 }
func (s ISet) Lo() Num {
	if len(s) == 0 {
		return PosInf
	}
	return s[0].Lo
}
func (s ISet) Hi() Num {
	if len(s) == 0 {
		return NegInf
	}
	return s[len(s)-1].Hi
}
func (s ISet) IsSingle() (Num, bool) {
	if len(s) == 1 && !s[0].Lo.IsInf() && s[0].Lo.Cmp(s[0].Hi) == 0 {
		return s[0].Lo, true
	}
	return Num{}, false
}
func (s ISet) IsFull() bool {
	return len(s) == 1 && s[0].Lo.inf < 0 && s[0].Hi.inf > 0
}

func (s ISet) Intersect(t ISet) ISet {
	var out ISet
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		lo, hi := s[i].Lo, s[i].Hi
		if t[j].Lo.Cmp(lo) > 0 {
			lo = t[j].Lo
		}
		if t[j].Hi.Cmp(hi) < 0 {
			hi = t[j].Hi
		}
		if lo.Cmp(hi) <= 0 {
			out = append(out, Iv{lo, hi})
		}
		if s[i].Hi.Cmp(t[j].Hi) < 0 {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s ISet) Union(t ISet) ISet {
	all := append(append(ISet{}, s...), t...)
	sort.Slice(all, func(i, j int) bool { return all[i].Lo.Cmp(all[j].Lo) < 0 })
	var out ISet
	for _, iv := range all {
		if n := len(out); n > 0 && out[n-1].Hi.Add(NI(1)).Cmp(iv.Lo) >= 0 {
			if iv.Hi.Cmp(out[n-1].Hi) > 0 {
				out[n-1].Hi = iv.Hi
			}
			continue
		}
		out = append(out, iv)
	}
	return out
}

func (s ISet) Complement() ISet {
	var out ISet
	lo := NegInf
	open := true
	for _, iv := range s {
		if iv.Lo.inf < 0 {
			if iv.Hi.inf > 0 {
				return nil
			}
			lo = iv.Hi.Add(NI(1))
			continue
		}
		hi := iv.Lo.Add(NI(-1))
		if lo.Cmp(hi) <= 0 {
			out = append(out, Iv{lo, hi})
		}
		if iv.Hi.inf > 0 {
			open = false
			break
		}
		lo = iv.Hi.Add(NI(1))
	}
	if open {
		out = append(out, Iv{lo, PosInf})
	}
	return out
}

func (s ISet) Minus(t ISet) ISet  { return s.Intersect(t.Complement()) }
func (s ISet) Subset(t ISet) bool { return s.Minus(t).Empty() }
func (s ISet) Has(v int64) bool   { return !s.Intersect(RangeI(v, v)).Empty() }
func (s ISet) Equal(t ISet) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i].Lo.Cmp(t[i].Lo) != 0 || s[i].Hi.Cmp(t[i].Hi) != 0 {
			return false
		}
	}
	return true
}

// Shift returns s + k.
func (s ISet) Shift(k Num) ISet {
	out := make(ISet, len(s))
	for i, iv := range s {
		out[i] = Iv{iv.Lo.Add(k), iv.Hi.Add(k)}
	}
	return out
}

// Neg returns -s.
func (s ISet) Neg() ISet {
	out := make(ISet, len(s))
	for i, iv := range s {
		out[len(s)-1-i] = Iv{iv.Hi.Neg(), iv.Lo.Neg()}
	}
	return out
}

func (s ISet) String() string {
	var b []string
	for _, iv := range s {
		if iv.Lo.Cmp(iv.Hi) == 0 {
			b = append(b, iv.Lo.String())
		} else {
			b = append(b, iv.Lo.String()+".."+iv.Hi.String())
		}
	}
	return "{" + strings.Join(b, ",") + "}"
}

// Values enumerates a small finite set (nil,false when larger than max).
func (s ISet) Values(max int) ([]int64, bool) {
	var out []int64
	for _, iv := range s {
		if iv.Lo.IsInf() || iv.Hi.IsInf() {
			return nil, false
		}
		for v := iv.Lo.Int64(); v <= iv.Hi.Int64(); v++ {
			out = append(out, v)
			if len(out) > max {
				return nil, false
			}
		}
	}
	return out, true
}

// Big is the finite value as a big integer.
func (a Num) Big() *big.Int { return a.v }
