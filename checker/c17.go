package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"time"

	. "verifcheck/absint"
)

// C17: what is accepted early is accepted late.
//
// The functions that decide whether a text is a date, or a boolean, are
// interpreted one after the other on the same unknown text: what a regular
// expression or the date parser says of it is a symbol. Outcomes that
// disagree are examined for a text that produces them - by the languages of
// the patterns on the path - and confirmed by interpreting the functions on
// that very text.

func init() { checks["C17"] = c17 }

const (
	txS = "\x00" // the text, in a template
)

// lit is the analysis of functions of one text.
type lit struct {
	c     *Check
	e     *Engine
	s     *V
	preds map[*V]bool
	order []*V
}

func newLit(c *Check, e *Engine) *lit {
	l := &lit{c: c, e: e, s: Sym("?text", types.Typ[types.String]), preds: map[*V]bool{}}
	pin := e.Pin
	e.Pin = func(v *V) bool {
		return v == l.s || v.Op == "lpred" || v.Op == "lerr" || pin != nil && pin(v)
	}
	note := func(v *V) *V {
		if !l.preds[v] {
			l.preds[v] = true
			l.order = append(l.order, v)
		}
		return v
	}
	boolT := types.Typ[types.Bool]
	pat := func(v *V) (string, bool) {
		switch {
		case v.Op == "regexp":
			return v.Aux, true
		case v.Op == "call" && strings.HasPrefix(v.Aux, "regexp.") && len(v.Args) == 1:
			return v.Args[0].Str()
		}
		return "", false
	}
	match := func(p string, st *State, a *V) ([]Out, bool) {
		t, ok := l.tpl(st, a)
		if !ok {
			return nil, false
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return nil, false
		}
		if !strings.ContainsAny(t, "\x00\x01") {
			return []Out{{st, CBool(re.MatchString(t))}}, true
		}
		return []Out{{st, note(T("lpred", "match\x00"+p, boolT, CStr(t)))}}, true
	}
	for _, n := range []string{"MatchString", "Match"} {
		e.Hooks["(*regexp.Regexp)."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			p, ok := pat(x.Args[0])
			if !ok {
				return nil, false
			}
			return match(p, st, x.Args[1])
		}
		e.Hooks["regexp."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			p, ok := x.Args[0].Str()
			if !ok {
				return nil, false
			}
			o, ok := match(p, st, x.Args[1])
			for i := range o {
				o[i].Ret = Tuple(o[i].Ret, Nil)
			}
			return o, ok
		}
	}
	for _, n := range []string{"strings.EqualFold", "bytes.EqualFold"} {
		e.Hooks[n] = func(x *CallCtx, st *State) ([]Out, bool) {
			for i := 0; i < 2; i++ {
				if t, ok := l.tpl(st, x.Args[i]); ok && !strings.ContainsAny(t, "\x00\x01") {
					return match("^(?i:"+regexp.QuoteMeta(t)+")$", st, x.Args[1-i])
				}
			}
			return nil, false
		}
	}
	e.Hooks["bytes.Equal"] = func(x *CallCtx, st *State) ([]Out, bool) {
		for i := 0; i < 2; i++ {
			if t, ok := l.tpl(st, x.Args[i]); ok && !strings.ContainsAny(t, "\x00\x01") {
				return match("^(?:"+regexp.QuoteMeta(t)+")$", st, x.Args[1-i])
			}
		}
		return nil, false
	}
	sub := func(x *CallCtx, st *State) ([]Out, bool) {
		p, ok := pat(x.Args[0])
		if !ok {
			return nil, false
		}
		re, err := regexp.Compile(p)
		t, ok := l.tpl(st, x.Args[1])
		if err != nil || !ok {
			return nil, false
		}
		et := x.Sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		make := func(st *State, text func(i int) *V) *V {
			var vs []*V
			for i := 0; i <= re.NumSubexp(); i++ {
				v := text(i)
				if !IsStr(et) {
					v = e.StrToBytes(st, v, fmt.Sprint("group", i), et)
				}
				vs = append(vs, v)
			}
			return e.NewSlice(st, "groups", et, vs)
		}
		if !strings.ContainsAny(t, "\x00\x01") {
			m := re.FindStringSubmatch(t)
			if m == nil {
				return []Out{{st, Nil}}, true
			}
			return []Out{{st, make(st, func(i int) *V { return CStr(m[i]) })}}, true
		}
		if t != txS {
			return nil, false
		}
		q := note(T("lpred", "match\x00"+p, boolT, CStr(t)))
		var outs []Out
		a, b := st, st.Clone()
		if a.Facts.Assume(q, true) {
			outs = append(outs, Out{a, make(a, func(i int) *V {
				if i == 0 && regexpWhole(p) {
					return l.s
				}
				return T("lgroup", fmt.Sprintf("%d\x02%s\x03", i, p), types.Typ[types.String])
			})})
		}
		if b.Facts.Assume(q, false) {
			outs = append(outs, Out{b, Nil})
		}
		return outs, true
	}
	e.Hooks["(*regexp.Regexp).FindSubmatch"] = sub
	e.Hooks["(*regexp.Regexp).FindStringSubmatch"] = sub
	e.Hooks["fmt.Sprintf"] = func(x *CallCtx, st *State) ([]Out, bool) {
		f, ok := x.Args[0].Str()
		if !ok || x.Args[1].IsNil() {
			return nil, false
		}
		_, _, n, _ := SliceParts(x.Args[1])
		k, ok := n.Int()
		if !ok {
			return nil, false
		}
		p, off, _, _ := SliceParts(x.Args[1])
		anyT := types.NewInterfaceType(nil, nil)
		var out *V = CStr("")
		j := int64(0)
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out = Concat(out, CStr(f[i:i+1]))
				continue
			}
			if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || j >= k {
				return nil, false
			}
			i++
			a := e.Load(st, ExtendPtr(p, PI(AddI(off, j), anyT)), anyT)
			j++
			if a.Op != "iface" || f[i] == 'v' && !IsStr(a.Typ) {
				return nil, false
			}
			a = a.Args[0]
			t, ok := l.tpl(st, a)
			if !ok {
				return nil, false
			}
			if a.Op == "slice" {
				a = T("ltext", t, types.Typ[types.String])
				if !strings.ContainsAny(t, "\x00\x01") {
					a = CStr(t)
				}
			}
			out = Concat(out, a)
		}
		return []Out{{st, out}}, true
	}
	e.Hooks["time.Parse"] = func(x *CallCtx, st *State) ([]Out, bool) {
		layout, ok := x.Args[0].Str()
		t, ok2 := l.tpl(st, x.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		tt := x.Sig.Results().At(0).Type()
		et := x.Sig.Results().At(1).Type()
		good := func() *V { return Tuple(T("ltime", layout+"\x00"+t, tt), Nil) }
		bad := func(st *State) *V {
			er := T("lerr", t, et)
			st.Facts.Assume(IsNilCond(er), false)
			return Tuple(ZeroVal(tt), er)
		}
		if !strings.ContainsAny(t, "\x00\x01") {
			if _, err := time.Parse(layout, t); err != nil {
				return []Out{{st, bad(st)}}, true
			}
			return []Out{{st, good()}}, true
		}
		q := note(T("lpred", "parse\x00"+layout, boolT, CStr(t)))
		var outs []Out
		a, b := st, st.Clone()
		if a.Facts.Assume(q, true) {
			outs = append(outs, Out{a, good()})
		}
		if b.Facts.Assume(q, false) {
			outs = append(outs, Out{b, bad(b)})
		}
		return outs, true
	}
	for _, n := range []string{"UTC", "Local", "Truncate", "Round", "Add"} {
		n := n
		e.Hooks["(time.Time)."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			v := x.Args[0]
			if v.Op != "ltime" {
				return nil, false
			}
			if n == "UTC" || n == "Local" {
				return []Out{{st, v}}, true
			}
			d, ok := x.Args[1].Int()
			return []Out{{st, T("ltime", fmt.Sprintf("%s\x04%s:%d", v.Aux, n, d), v.Typ)}}, ok
		}
	}
	for n, f := range map[string]func(t time.Time) int64{"Year": func(t time.Time) int64 { return int64(t.Year()) }, "Month": func(t time.Time) int64 { return int64(t.Month()) }, "Day": func(t time.Time) int64 { return int64(t.Day()) },
		"Hour": func(t time.Time) int64 { return int64(t.Hour()) }, "Minute": func(t time.Time) int64 { return int64(t.Minute()) }, "Second": func(t time.Time) int64 { return int64(t.Second()) }, "Nanosecond": func(t time.Time) int64 { return int64(t.Nanosecond()) },
		"Unix": func(t time.Time) int64 { return t.Unix() }, "UnixNano": func(t time.Time) int64 { return t.UnixNano() }} {
		f := f
		e.Hooks["(time.Time)."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			v := x.Args[0]
			if v.Op != "ltime" || strings.Contains(v.Aux[strings.Index(v.Aux, "\x00")+1:], "\x00") {
				return nil, false
			}
			t, ok := instTime(v.Aux, "")
			return []Out{{st, CInt(f(t))}}, ok
		}
	}
	for n, f := range map[string]func(string) string{"TrimSpace": strings.TrimSpace, "ToLower": strings.ToLower, "ToUpper": strings.ToUpper} {
		f := f
		e.Hooks["strings."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			s, ok := x.Args[0].Str()
			return []Out{{st, CStr(f(s))}}, ok
		}
		e.Hooks["bytes."+n] = func(x *CallCtx, st *State) ([]Out, bool) {
			t, ok := l.tpl(st, x.Args[0])
			if !ok || strings.ContainsAny(t, "\x00\x01") {
				return nil, false
			}
			return []Out{{st, e.StrToBytes(st, CStr(f(t)), "converted", x.Sig.Results().At(0).Type())}}, true
		}
	}
	e.Hooks["regexp.Compile"] = func(x *CallCtx, st *State) ([]Out, bool) {
		t, ok := l.tpl(st, x.Args[0])
		if !ok {
			return nil, false
		}
		rt, et := x.Sig.Results().At(0).Type(), x.Sig.Results().At(1).Type()
		q := note(T("lpred", "compile\x00", boolT, CStr(t)))
		var outs []Out
		a, b := st, st.Clone()
		if a.Facts.Assume(q, true) {
			r := T("lregexp", t, rt)
			a.Facts.Assume(IsNilCond(r), false)
			outs = append(outs, Out{a, Tuple(r, Nil)})
		}
		if b.Facts.Assume(q, false) {
			er := T("lerr", t, et)
			b.Facts.Assume(IsNilCond(er), false)
			outs = append(outs, Out{b, Tuple(Nil, er)})
		}
		return outs, true
	}
	return l
}

// regexpWhole: a match of the pattern is the whole text.
func regexpWhole(p string) bool {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 2 {
		return false
	}
	return re.Sub[0].Op == syntax.OpBeginText && re.Sub[len(re.Sub)-1].Op == syntax.OpEndText
}

// IsStr: a string type.
func IsStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// tpl writes a text as a template: bytes, the unknown text, and groups of matches in it.
func (l *lit) tpl(st *State, v *V) (string, bool) {
	if s, ok := v.Str(); ok {
		return s, true
	}
	switch {
	case v == l.s:
		return txS, true
	case v.IsNil():
		return "", true
	case v.Op == "lgroup":
		return "\x01" + v.Aux, true
	case v.Op == "ltext":
		return v.Aux, true
	case v.Op == "concat":
		a, ok := l.tpl(st, v.Args[0])
		b, ok2 := l.tpl(st, v.Args[1])
		return a + b, ok && ok2
	case v.Op == "slice":
		_, off, n, _ := SliceParts(v)
		return l.tpl(st, l.e.BytesToStr(st.Facts, l.e.SliceContent(st, v), off, Add(off, n)))
	case v.Op == "b2s":
		// a copy of a whole text
		c := v.Args[0]
		if c.Op == "copyrange" && len(c.Args) == 5 && v.Args[1] == Zero && c.Args[1] == Zero && c.Args[4] == Zero && c.Args[2] == v.Args[2] && c.Args[3].Op == "fromstr" && StrLen(c.Args[3].Args[0]) == v.Args[2] {
			return l.tpl(st, c.Args[3].Args[0])
		}
	}
	return "", false
}

// expand is the text a template stands for.
func expand(t, s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case 0:
			b.WriteString(s)
		case 1:
			j := strings.IndexByte(t[i:], 3)
			p := strings.SplitN(t[i+1:i+j], "\x02", 2)
			re, err := cachedRegexp(p[1])
			if err != nil {
				return "", false
			}
			m := re.FindStringSubmatch(s)
			var k int
			fmt.Sscan(p[0], &k)
			if k >= len(m) {
				return "", false
			}
			b.WriteString(m[k])
			i += j
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String(), true
}

var reCache = map[string]*regexp.Regexp{}

func cachedRegexp(p string) (*regexp.Regexp, error) {
	if re := reCache[p]; re != nil {
		return re, nil
	}
	re, err := regexp.Compile(p)
	if err == nil {
		reCache[p] = re
	}
	return re, err
}

// holds evaluates a predicate on a text.
func holds(q *V, s string) (bool, bool) {
	t, _ := q.Args[0].Str()
	t, ok := expand(t, s)
	if !ok {
		return false, false
	}
	p := strings.SplitN(q.Aux, "\x00", 2)
	switch p[0] {
	case "match":
		re, err := cachedRegexp(p[1])
		return err == nil && re.MatchString(t), err == nil
	case "parse":
		_, err := time.Parse(p[1], t)
		return err == nil, true
	case "compile":
		_, err := regexp.Compile(t)
		return err == nil, true
	}
	return false, false
}

// witnesses are texts that may take the path; none: whether there is none at all.
func (l *lit) witnesses(st *State, pool []string, extra ...langReq) (out []string, none bool) {
	var reqs []langReq
	type fact struct {
		q    *V
		want bool
	}
	var fs []fact
	for _, q := range l.order {
		k := st.Facts.Eval(q)
		if k == 0 {
			continue
		}
		fs = append(fs, fact{q, k > 0})
		if t, _ := q.Args[0].Str(); t == txS && strings.HasPrefix(q.Aux, "match\x00") {
			reqs = append(reqs, langReq{q.Aux[6:], k > 0})
		}
		if t, _ := q.Args[0].Str(); t == txS && k > 0 && q.Aux == "parse\x00"+time.RFC3339 {
			// what the date parser accepts has this form
			reqs = append(reqs, langReq{"^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{1,2}:[0-9]{2}:[0-9]{2}([.,][0-9]+)?(Z|[-+][0-9]{2}:[0-9]{2})$", true})
		}
	}
	reqs = append(reqs, extra...)
	more, complete := langSat(reqs, foldRunes, 64)
	if len(more) == 0 && complete {
		return nil, true
	}
	for _, s := range append(append([]string{}, pool...), more...) {
		ok := true
		for _, f := range fs {
			b, known := holds(f.q, s)
			ok = ok && known && b == f.want
		}
		for _, x := range extra {
			re := regexp.MustCompile(x.pat)
			ok = ok && re.MatchString(s) == x.want
		}
		if ok {
			out = append(out, s)
		}
	}
	return out, false
}

// onPath are the texts that take the path, as far as is known.
func (l *lit) onPath(st *State, pool []string) (out []string) {
	for _, s := range pool {
		ok := true
		for _, q := range l.order {
			if k := st.Facts.Eval(q); k != 0 && ok {
				b, known := holds(q, s)
				ok = known && b == (k > 0)
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return
}

// foldRunes: letters outside ASCII that some take for s and k in another case.
const foldRunes = "\u017f\u212a"

// datePool are texts with parts of dates of every kind.
func datePool() []string {
	var out []string
	for _, y := range []string{"2019", "1999", "1899", "2100", "0000", "9999", "20", "20190", "abcd", " 2019", "٢٠١٩"} {
		for _, m := range []string{"", "-02", "/02", ".12", " 01", "-00", "-13", "-2", "02", "-1", "--02"} {
			for _, d := range []string{"", "-03", "/28", "-29", "-30", "-31", "-32", "-00", ".01", " 09", "-3", "03"} {
				for _, t := range []string{"", "T04:05:06Z", " 04:05:06", "  23:59:59", "T04:05:06", "T04:05:06.789Z", "T04:05:06+07:30", "T04:05:06-00:00", "T24:00:00Z", "T23:60:00Z", "T23:59:60Z", "T4:05:06Z", "t04:05:06z", "Z", "T", "T04:05Z", " 24:00:00", " 04:05:60", "T00:00:00Z", "\n"} {
					if m == "" && d != "" {
						continue
					}
					out = append(out, y+m+d+t)
				}
			}
		}
	}
	for y := 1850; y < 2150; y += 1 + y%3 {
		out = append(out, fmt.Sprintf("%04d", y))
	}
	for _, y := range []int{1900, 1999, 2000, 2019, 2020, 2099} {
		for m := 0; m <= 13; m++ {
			out = append(out, fmt.Sprintf("%04d-%02d", y, m))
			for d := 0; d <= 32; d++ {
				out = append(out, fmt.Sprintf("%04d-%02d-%02d", y, m, d))
			}
		}
	}
	for i := 0; i < 24; i++ {
		out = append(out, fmt.Sprintf("2020-10-20 %02d:%02d:%02d", i, i*5%60, 59-i))
		out = append(out, fmt.Sprintf("2001-12-31 %02d:%02d:%02d", i, 59-i*2, i*7%60))
	}
	return append(out, dateTexts...)
}

type litRun struct {
	st   *State
	rets []*V
	f    *Final
}

// scenario calls functions one after the other on the same text.
func (l *lit) scenario(s *V, names []string, mk func(st *State, i int, s *V) []*V) []litRun {
	e := l.e
	st := e.NewState()
	runs := []litRun{{st: st}}
	for i, n := range names {
		var next []litRun
		for _, r := range runs {
			if r.f != nil {
				next = append(next, r)
				continue
			}
			st := r.st
			for _, f := range e.Call(l.c.fn(n), st, mk(st, i, s)) {
				q := litRun{st: f.St, rets: append(append([]*V{}, r.rets...), f.Ret)}
				if f.Panic {
					q.f = f
				} else {
					k := fmt.Sprint("lit ret ", i)
					f.St.Ghost[k] = f.Ret
				}
				next = append(next, q)
			}
		}
		runs = next
	}
	return runs
}

func c17(c *Check) {
	c.Cov["rule"] = "for every text: a date accepted by the early check is read as that same instant by every later reading of it; a text is a boolean exactly when it is a letter-case variant of true or false; a pattern accepted when parsed compiles"
	c17dates(c)
	c17bools(c)
	c17calls(c)
}

// instant reads a dynamic value: the layout and template of the time it holds.
func (m *fvModel) instantOf(l *lit, st *State, v *V) (kind string, inst string, ok bool) {
	k, isInt := m.c.fieldOf(v, m.t, "dataType").Int()
	if !isInt {
		return "", "", false
	}
	for _, n := range m.kinds {
		if kk, _ := m.c.konst(n).Int(); kk == k {
			kind = n
		}
	}
	d := m.c.fieldOf(v, m.t, "data")
	if kind != "TimeValue" {
		return kind, "", true
	}
	if d.Op == "iface" {
		d = d.Args[0]
	}
	if d.Op == "ptr" {
		d = l.e.Load(st, d, nil)
	}
	if d.Op != "ltime" {
		return kind, "", false
	}
	return kind, d.Aux, true
}

func instTime(t, s string) (time.Time, bool) {
	ops := strings.Split(t, "\x04")
	p := strings.SplitN(ops[0], "\x00", 2)
	x, ok := expand(p[1], s)
	if !ok {
		return time.Time{}, false
	}
	r, err := time.Parse(p[0], x)
	for _, o := range ops[1:] {
		var d int64
		if i := strings.IndexByte(o, ':'); i > 0 {
			fmt.Sscan(o[i+1:], &d)
			o = o[:i]
		}
		switch o {
		case "UTC":
			r = r.UTC()
		case "Truncate":
			r = r.Truncate(time.Duration(d))
		case "Round":
			r = r.Round(time.Duration(d))
		case "Add":
			r = r.Add(time.Duration(d))
		}
	}
	return r, err == nil
}

var (
	refSample = regexp.MustCompile(`^((19|20)[0-9][0-9]-[0-9][0-9]-[0-9][0-9]) +([0-9][0-9]:[0-9][0-9]:[0-9][0-9])$`)
)

// docMeaning is what a text of a document stands for as a date.
func docMeaning(s string) (time.Time, bool) {
	if m := refSample.FindStringSubmatch(s); m != nil {
		t, err := time.Parse(time.RFC3339, m[1]+"T"+m[3]+"Z")
		return t, err == nil
	}
	return dateMeaning(s)
}

var (
	refYear  = regexp.MustCompile(`^(19|20)[0-9][0-9]$`)
	refMonth = regexp.MustCompile(`^(19|20)[0-9][0-9]-[0-9][0-9]$`)
	refDay   = regexp.MustCompile(`^(19|20)[0-9][0-9]-[0-9][0-9]-[0-9][0-9]$`)
)

// dateMeaning is what a date text stands for.
func dateMeaning(s string) (time.Time, bool) {
	x := s
	switch {
	case refYear.MatchString(s):
		x = s + "-01-01T00:00:00Z"
	case refMonth.MatchString(s):
		x = s + "-01T00:00:00Z"
	case refDay.MatchString(s):
		x = s + "T00:00:00Z"
	}
	t, err := time.Parse(time.RFC3339, x)
	return t, err == nil
}

func c17dates(c *Check) {
	e := c.Engine()
	e.NoWiden = true
	m := newFV(c, e)
	l := newLit(c, e)
	pool := datePool()
	strT := types.Typ[types.String]
	names := []string{"validTimeChecker", "GetNewTimeFastVal", "FastValDateFunc", "FastValDateFunc", "FastValDateFunc", "parseJsonTime"}
	what := []string{"the check of date literals", "the compiled literal", "DATE() of the text", "DATE() of the text as bytes", "DATE() of the text in a document", "the JSON form"}
	value := func(st *State, kind string, s *V) *V {
		v := m.c.withField(ZeroVal(m.t), m.t, "dataType", c.konst(kind))
		if kind == "StringValue" {
			return c.withField(v, m.t, "data", Iface(strT, s))
		}
		return c.withField(v, m.t, "sliceData", e.StrToBytes(st, s, "text of "+kind, types.NewSlice(types.Typ[types.Uint8])))
	}
	mk := func(st *State, i int, s *V) []*V {
		switch i {
		case 2:
			return []*V{value(st, "StringValue", s)}
		case 3:
			return []*V{value(st, "BinStringValue", s)}
		case 4:
			return []*V{value(st, "JsonStringValue", s)}
		case 5:
			anyT := types.NewInterfaceType(nil, nil)
			return []*V{e.NewSlice(st, "json form", anyT, []*V{Iface(strT, CStr("time")), Iface(strT, s)})}
		}
		return []*V{s}
	}
	type verdict struct {
		bad, why string // a disagreement
		unk      string
	}
	// judge compares the answers on one path
	judge := func(r litRun, s string, isConst bool) (v verdict) {
		if r.f != nil {
			v.bad = "the functions do not panic"
			v.why = r.f.What
			return
		}
		early := r.st.Facts.Eval(r.rets[0])
		if early == 0 {
			v.unk = "the verdict of the early check is not known"
			return
		}
		var inst string
		var have bool
		for i := 1; i < len(names); i++ {
			ret := r.rets[i]
			ok, t := false, ""
			switch names[i] {
			case "GetNewTimeFastVal", "parseJsonTime":
				k := r.st.Facts.Eval(IsNilCond(TupleAt(ret, 1)))
				if k == 0 {
					v.unk = names[i] + ": error or not?"
					return
				}
				ok = k > 0
				if names[i] == "parseJsonTime" {
					if ok && early < 0 && r.st.Facts.Eval(IsNilCond(TupleAt(r.rets[1], 1))) < 0 {
						v.bad, v.why = "a date literal that is accepted compiles", "the JSON form is accepted, and the literal is none"
					}
					continue
				}
				ret = TupleAt(ret, 0)
			}
			kind, it, known := m.instantOf(l, r.st, ret)
			if !known {
				v.unk = names[i] + ": the value is not known"
				return
			}
			if names[i] == "FastValDateFunc" {
				ok = kind == "TimeValue"
			}
			t = it
			if isConst && names[i] == "FastValDateFunc" && i >= 3 {
				w, isDate := docMeaning(s)
				if isDate != ok {
					v.bad, v.why = "DATE() of a text is the instant the text names", fmt.Sprintf("names a date: %v, %s is one: %v", isDate, what[i], ok)
					return
				}
				if ok {
					if g, ok := instTime(t, s); !ok || !g.Equal(w) {
						v.bad, v.why = "DATE() of a text is the instant the text names", fmt.Sprintf("%s is %s, not %s", what[i], g, w)
						return
					}
				}
			}
			if early > 0 && !ok {
				v.bad, v.why = "a date literal that is accepted can be read later", what[0]+" accepts it, "+what[i]+" is no date"
				return
			}
			if ok && kind != "TimeValue" {
				v.bad, v.why = "a date literal that is accepted can be read later", what[i]+" is accepted as "+kind
				return
			}
			if early > 0 && ok {
				if have && t != inst {
					// the same instant read two ways?
					if isConst {
						a, _ := instTime(inst, s)
						b, _ := instTime(t, s)
						if a.Equal(b) {
							continue
						}
					}
					v.bad, v.why = "a date literal stands for one instant", what[i]+" is read as "+tplString(t)+", elsewhere as "+tplString(inst)
					return
				}
				inst, have = t, true
			}
		}
		if _, ok := dateMeaning(s); isConst && ok != (early > 0) {
			v.bad, v.why = "the texts accepted as dates are those that name one", fmt.Sprintf("names a date: %v, accepted: %v", ok, early > 0)
			return
		}
		if isConst && have {
			w, ok := dateMeaning(s)
			g, ok2 := instTime(inst, s)
			if ok && ok2 && !w.Equal(g) {
				v.bad, v.why = "a date literal stands for the instant it names", fmt.Sprintf("read as %s, not %s", g, w)
			} else if !ok {
				v.bad, v.why = "a date literal stands for the instant it names", "it names none, and is read as "+g.String()
			}
		}
		return
	}
	tried := map[string]bool{}
	confirm := func(s string) bool {
		if tried[s] {
			return false
		}
		tried[s] = true
		found := false
		runs := l.scenario(CStr(s), names, mk)
		if len(runs) != 1 {
			c.Undec("date %q: what becomes of this text is not known", s)
			return false
		}
		for _, r := range runs {
			v := judge(r, s, true)
			switch {
			case v.bad != "":
				found = true
				c.Bad("date", "fastval_date.go", v.bad, fmt.Sprintf("%q: %s", s, v.why), e.TraceLines(r.st, 12))
			case v.unk != "":
				c.Undec("date %q: %s", s, v.unk)
			default:
				c.Ok("date %q", s)
			}
		}
		return found
	}
	paths := 0
	for _, r := range l.scenario(l.s, names, mk) {
		paths++
		v := judge(r, "", false)
		// is it exactly the dates that are accepted on this path
		if r.f == nil && v.unk == "" {
			early := r.st.Facts.Eval(r.rets[0]) > 0
			wrong := 0
			late := false
			var inst string
			if k, t, ok := m.instantOf(l, r.st, r.rets[4]); ok && k == "TimeValue" {
				late, inst = true, t
			}
			for _, s := range l.onPath(r.st, pool) {
				_, ok := dateMeaning(s)
				w, ok2 := docMeaning(s)
				if ok == early && ok2 == late {
					if !late {
						continue
					}
					if g, ok := instTime(inst, s); ok && g.Equal(w) {
						continue
					}
				}
				if wrong < 4 {
					wrong++
					confirm(s)
				}
			}
			if wrong == 0 {
				c.Ok("dates: the texts of path %d are accepted as they should", paths)
			}
		}
		if v.bad == "" && v.unk == "" {
			c.Ok("dates: every text that takes path %d", paths)
			continue
		}
		ws, none := l.witnesses(r.st, pool)
		if none {
			c.Ok("dates: no text takes path %d", paths)
			continue
		}
		found := false
		for i, s := range ws {
			if i < 6 && !found {
				found = confirm(s)
			}
		}
		if !found {
			c.Undec("dates: %s%s (%s) on a path no known text takes", v.bad, v.unk, v.why)
		}
	}
	// the meaning of the accepted texts; all combinations of parts that are, and some that are not
	n := 0
	for i, s := range pool {
		if _, ok := dateMeaning(s); ok || i%37 == 0 {
			n++
			confirm(s)
		}
	}
	c.Cov["paths on an unknown date text"] = paths
	c.Cov["date texts interpreted"] = n
	c.takeUndec(e)
}

func tplString(t string) string {
	p := strings.SplitN(t, "\x00", 2)
	return fmt.Sprintf("%q", strings.NewReplacer("\x00", "<text>", "\x01", "<group ", "\x02", " of ", "\x03", ">").Replace(p[len(p)-1]))
}

func c17bools(c *Check) {
	e := c.Engine()
	e.NoWiden = true
	m := newFV(c, e)
	l := newLit(c, e)
	fnName := "FastVal.AsBoolean"
	mk := func(st *State, i int, s *V) []*V {
		v := m.c.withField(ZeroVal(m.t), m.t, "dataType", c.konst("JsonStringValue"))
		return []*V{c.withField(v, m.t, "sliceData", e.StrToBytes(st, s, "text", types.NewSlice(types.Typ[types.Uint8])))}
	}
	class := func(r litRun) string {
		if r.f != nil {
			return "a panic"
		}
		b, ok := r.st.Facts.Eval(TupleAt(r.rets[0], 0)), r.st.Facts.Eval(TupleAt(r.rets[0], 1))
		switch {
		case ok < 0:
			return "none"
		case ok > 0 && b > 0:
			return "true"
		case ok > 0 && b < 0:
			return "false"
		}
		return ""
	}
	ref := func(s string) string {
		switch {
		case strings.EqualFold(s, "true"):
			return "true"
		case strings.EqualFold(s, "false"):
			return "false"
		}
		return "none"
	}
	pats := map[string]string{"true": "^[tT][rR][uU][eE]$", "false": "^[fF][aA][lL][sS][eE]$"}
	confirm := func(s string) bool {
		found := false
		runs := l.scenario(CStr(s), []string{fnName}, mk)
		if len(runs) != 1 {
			c.Undec("boolean %q: what becomes of this text is not known", s)
			return false
		}
		for _, r := range runs {
			if g := class(r); g == "" {
				c.Undec("boolean %q: the verdict is not known", s)
			} else if g != ref(s) {
				found = true
				c.Bad("boolean", "fastval.go", "exactly the letter-case variants of true and false are booleans", fmt.Sprintf("%q is read as %s, not %s", s, g, ref(s)), e.TraceLines(r.st, 12))
			} else {
				c.Ok("boolean %q", s)
			}
		}
		return found
	}
	paths := 0
	for _, r := range l.scenario(l.s, []string{fnName}, mk) {
		paths++
		g := class(r)
		if g == "" {
			c.Undec("booleans: the verdict is not known on a path")
			continue
		}
		// texts of another class on this path
		for _, o := range []string{"true", "false", "none"} {
			if o == g {
				continue
			}
			var extra []langReq
			if o == "none" {
				extra = []langReq{{pats["true"], false}, {pats["false"], false}}
			} else {
				extra = []langReq{{pats[o], true}}
			}
			ws, none := l.witnesses(r.st, nil, extra...)
			if none {
				c.Ok("booleans: no text that is %s is read as %s", o, g)
				continue
			}
			found := false
			for i, s := range ws {
				if i < 4 && !found {
					found = confirm(s)
				}
			}
			if !found {
				c.Undec("booleans: a text that is %s may be read as %s", o, g)
			}
		}
	}
	for _, w := range []string{"true", "false"} {
		for i := 0; i < 1<<len(w); i++ {
			b := []byte(w)
			for j := range b {
				if i>>j&1 != 0 {
					b[j] -= 32
				}
			}
			confirm(string(b))
		}
	}
	for _, s := range []string{"", "t", "True ", " true", "truefalse", "true\n", "\nfalse", "yes", "1", "fals", "falsee", "ttrue", "\"true\""} {
		confirm(s)
	}
	c.Cov["paths on an unknown boolean text"] = paths
	c.takeUndec(e)
	// comparison with a boolean literal
	c17compare(c)
}

// c17compare: a string of a document and a boolean or date literal are
// comparable exactly when the string is one.
func c17compare(c *Check) {
	e := c.Engine()
	e.NoWiden = true
	m := newFV(c, e)
	l := newLit(c, e)
	m.orderHooks2()
	val := func(kind string, ud bool) *V {
		v := c.withField(ZeroVal(m.t), m.t, "dataType", c.konst(kind))
		return c.withField(v, m.t, "userDefined", CBool(ud))
	}
	for _, k := range []string{"TrueValue", "FalseValue"} {
		for dir := 0; dir < 2; dir++ {
			mk := func(st *State, i int, s *V) []*V {
				d := c.withField(val("JsonStringValue", false), m.t, "sliceData", e.StrToBytes(st, s, "text", types.NewSlice(types.Typ[types.Uint8])))
				if dir == 0 {
					return []*V{d, val(k, true)}
				}
				return []*V{val(k, true), d}
			}
			var all []string
			for _, w := range []string{"true", "false"} {
				for i := 0; i < 1<<len(w); i++ {
					b := []byte(w)
					for j := range b {
						if i>>j&1 != 0 {
							b[j] -= 32
						}
					}
					all = append(all, string(b))
				}
			}
			for _, s := range all {
				runs := l.scenario(CStr(s), []string{"FastVal.Compare"}, mk)
				if len(runs) != 1 {
					c.Undec("compare %q with %s: not known", s, k)
					continue
				}
				for _, r := range runs {
					if r.f != nil {
						c.Bad("compare boolean", "fastval.go", "comparison never fails", fmt.Sprintf("%q with %s: %s", s, k, r.f.What), e.TraceLines(r.st, 12))
						continue
					}
					cmp, ok1 := TupleAt(r.rets[0], 0).Int()
					valid := r.st.Facts.Eval(TupleAt(r.rets[0], 1))
					if !ok1 || valid == 0 {
						c.Undec("compare %q with %s: not known", s, k)
						continue
					}
					want := int64(0)
					if isT := strings.EqualFold(s, "true"); isT != (k == "TrueValue") {
						want = 1
						if !isT {
							want = -1
						}
						if dir == 1 {
							want = -want
						}
					}
					c.Expect(valid > 0 && cmp == want, "compare boolean", "fastval.go", "a boolean written as text is compared as that boolean", fmt.Sprintf("%q compared with the literal %s (order %d): %d, valid %v; should be %d", s, k, dir, cmp, valid > 0, want), e.TraceLines(r.st, 12))
				}
			}
		}
	}
	c.takeUndec(e)
}

// orderHooks2: nothing of time is needed on constant texts.
func (m *fvModel) orderHooks2() {}

// c17calls: the filter language accepts a date literal only after the check.
func c17calls(c *Check) {
	f := newFilt(c)
	e := f.e
	boolT := types.Typ[types.Bool]
	pin := e.Pin
	e.Pin = func(v *V) bool { return v.Op == "early" || v.Op == "compiles" || pin(v) }
	e.Hooks[e.ShortName(c.fn("validTimeChecker"))] = func(x *CallCtx, st *State) ([]Out, bool) {
		return []Out{{st, T("early", "", boolT, x.Args[0])}}, true
	}
	var keys []string
	sents := map[string][]*tok{
		"left":   sent("DATE (", tS, ") =", tF),
		"right":  sent(tF, "= DATE (", tS, ")"),
		"order":  sent(tF, "> = DATE (", tS, ") AND", tF, "< DATE (", tS, ")"),
		"nested": sent("ABS ( DATE (", tS, ") ) =", tF),
		"group":  sent("( ", tF, "=", tI, "OR DATE (", tS, ") < DATE (", tF, ") )"),
		"params": sent("POW ( DATE (", tS, ") , DATE (", tS, ") ) =", tI),
	}
	for k := range sents {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ts := sents[k]
		n := 0
		for _, fin := range f.out(ts) {
			if f.why != "" || fin.Panic {
				c.Undec("DATE %s: %s", k, f.why)
				continue
			}
			if fin.St.Facts.Eval(IsNilCond(TupleAt(fin.Ret, 1))) < 0 {
				continue
			}
			n++
			for _, t := range ts {
				if !t.sym || !strings.HasPrefix(t.s, "s") {
					continue
				}
				s := Sym("?"+t.s, types.Typ[types.String])
				c.Expect(fin.St.Facts.Eval(T("early", "", boolT, s)) > 0, "filter/DATE", e.Pos(InstrPos(fin.Instr)), "a date literal is checked before it is accepted", toksString(ts)+": accepted without the check of the literal", e.TraceLines(fin.St, 15))
			}
		}
		if n == 0 {
			c.Undec("DATE %s is never accepted", k)
		}
	}
	c.takeUndec(e)
}
