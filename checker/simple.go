package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifcheck/absint"
)

// The simple language (C10, C11, C21).
//
// ParseSimpleExpression is interpreted on sequences of words. Operand words
// are symbols of which only the class is known (name of a field, quoted
// text, numeral); operators, parentheses, calls and paths are known texts.

// sword is a word of a rule.
type sword struct {
	class string // "" known text; field, str (quoted), int, float
	s     string // text, or name of the symbol
	delim string
}

var wordRep = map[string]string{"field": "zq", "int": "17", "float": "3.5"}

func (w sword) String() string {
	switch w.class {
	case "":
		return w.s
	case "str":
		return w.delim + "<" + w.s + ">" + w.delim
	}
	return "<" + w.s + ">"
}

func (w sword) val() *V {
	t := types.Typ[types.String]
	switch w.class {
	case "":
		return CStr(w.s)
	case "str":
		return T("quoted", w.delim, t, Sym("?"+w.s, t))
	}
	return Sym("?"+w.class+":"+w.s, t)
}

func wordsString(ws []sword) string {
	var l []string
	for _, w := range ws {
		l = append(l, w.String())
	}
	return strings.Join(l, " ")
}

// wordText is a text that stands for the class of a string term: every
// predicate of the parser gives the same answer on all words of a class.
func wordText(v *V) (string, bool) {
	if s, ok := v.Str(); ok {
		return s, true
	}
	switch v.Op {
	case "quoted":
		return v.Aux + "zq" + v.Aux, true
	case "quoted tail":
		return "zq" + v.Aux, true
	case "sym":
		for c, r := range wordRep {
			if strings.HasPrefix(v.Aux, "?"+c+":") {
				return r, true
			}
		}
		if strings.HasPrefix(v.Aux, "?") {
			return "zq", true
		}
	}
	return "", false
}

type simple struct {
	*exprs
	c   *Check
	cur []sword
}

func newSimple(c *Check) *simple {
	m := newCompile(c)
	f := &simple{exprs: m, c: c}
	e := m.e
	c.texts(e)
	c.regexTexts(e)
	e.MaxUnroll = 200
	e.MaxSteps = 100000
	e.MaxRec = 60
	str := types.Typ[types.String]
	pred := func(name string, g func(a, b string) bool) {
		e.Hooks[name] = func(x *CallCtx, st *State) ([]Out, bool) {
			a, ok := wordText(x.Args[0])
			b, ok2 := x.Args[1].Str()
			return []Out{{st, CBool(ok && g(a, b))}}, ok && ok2
		}
	}
	pred("strings.HasPrefix", strings.HasPrefix)
	pred("strings.HasSuffix", strings.HasSuffix)
	pred("strings.Contains", strings.Contains)
	pred("strings.EqualFold", strings.EqualFold)
	trim := func(name string, g func(a, b string) string) {
		e.Hooks[name] = func(x *CallCtx, st *State) ([]Out, bool) {
			a, b := x.Args[0], x.Args[1]
			bs, ok := b.Str()
			if !ok {
				return nil, false
			}
			if s, ok := a.Str(); ok {
				return []Out{{st, CStr(g(s, bs))}}, true
			}
			t, ok := wordText(a)
			if !ok {
				return nil, false
			}
			r := g(t, bs)
			switch {
			case r == t:
				return []Out{{st, a}}, true
			case a.Op == "quoted" && r == "zq"+a.Aux:
				return []Out{{st, T("quoted tail", a.Aux, str, a.Args[0])}}, true
			case r == "zq":
				return []Out{{st, a.Args[0]}}, true
			}
			return nil, false
		}
	}
	trim("strings.TrimPrefix", strings.TrimPrefix)
	trim("strings.TrimSuffix", strings.TrimSuffix)
	trim("strings.TrimLeft", strings.TrimLeft)
	trim("strings.TrimRight", strings.TrimRight)
	trim("strings.Trim", strings.Trim)
	e.Hooks["strings.TrimSpace"] = func(x *CallCtx, st *State) ([]Out, bool) {
		s, ok := x.Args[0].Str()
		return []Out{{st, CStr(strings.TrimSpace(s))}}, ok
	}
	num := func(name string, g func(a, b string) int) {
		e.Hooks[name] = func(x *CallCtx, st *State) ([]Out, bool) {
			a, ok := wordText(x.Args[0])
			b, ok2 := x.Args[1].Str()
			if x.Args[0].Op != "const" && g(a, b) >= 0 {
				return nil, false
			}
			return []Out{{st, CInt(int64(g(a, b)))}}, ok && ok2
		}
	}
	num("strings.Index", strings.Index)
	num("strings.LastIndex", strings.LastIndex)
	e.Hooks["strings.Join"] = func(x *CallCtx, st *State) ([]Out, bool) {
		l, ok := m.strList(st, x.Args[0])
		sep, ok2 := x.Args[1].Str()
		for _, s := range l {
			ok = ok && !strings.HasPrefix(s, "?")
		}
		return []Out{{st, CStr(strings.Join(l, sep))}}, ok && ok2
	}
	splits := func(name string, g func(a, b string, n int) []string) {
		e.Hooks[name] = func(x *CallCtx, st *State) ([]Out, bool) {
			a, ok := x.Args[0].Str()
			b, ok2 := x.Args[1].Str()
			n := int64(-1)
			ok3 := true
			if len(x.Args) > 2 {
				n, ok3 = x.Args[2].Int()
			}
			if !ok || !ok2 || !ok3 {
				return nil, false
			}
			return []Out{{st, f.strings(st, g(a, b, int(n)))}}, true
		}
	}
	splits("strings.SplitAfterN", strings.SplitAfterN)
	splits("strings.SplitN", strings.SplitN)
	splits("strings.Split", func(a, b string, n int) []string { return strings.Split(a, b) })
	splits("strings.SplitAfter", func(a, b string, n int) []string { return strings.SplitAfter(a, b) })
	e.Hooks["strings.Fields"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if s, ok := x.Args[0].Str(); ok {
			return []Out{{st, f.strings(st, strings.Fields(s))}}, true
		}
		var vs []*V
		for _, w := range f.cur {
			vs = append(vs, w.val())
		}
		return []Out{{st, m.slice(st, str, vs)}}, true
	}
	e.Hooks["(*regexp.Regexp).MatchString"] = func(x *CallCtx, st *State) ([]Out, bool) {
		r, ok := regexOf(x.Args[0])
		s, ok2 := wordText(x.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		return []Out{{st, CBool(r.MatchString(s))}}, true
	}
	e.Hooks["(*regexp.Regexp).FindStringSubmatch"] = func(x *CallCtx, st *State) ([]Out, bool) {
		r, ok := regexOf(x.Args[0])
		s, ok2 := x.Args[1].Str()
		if !ok || !ok2 {
			return nil, false
		}
		return []Out{{st, f.strings(st, r.FindStringSubmatch(s))}}, true
	}
	old := e.Hooks["regexp.Compile"]
	e.Hooks["regexp.Compile"] = func(x *CallCtx, st *State) ([]Out, bool) {
		if outs, ok := old(x, st); ok {
			return outs, true
		}
		// the same text always gives the same answer
		sig := x.Sig.Results()
		return []Out{{st, Tuple(T("regexp", "", sig.At(0).Type(), x.Args[0]), T("regexp error", "", sig.At(1).Type(), x.Args[0]))}}, true
	}
	pin := e.Pin
	e.Pin = func(v *V) bool {
		return v.Op == "regexp error" || v.Op == "quoted" || v.Op == "quoted tail" || pin(v)
	}
	number := func(name string) {
		e.Hooks[name] = func(x *CallCtx, st *State) ([]Out, bool) {
			t := x.Sig.Results().At(0).Type()
			if s, ok := x.Args[0].Str(); ok {
				if name == "strconv.ParseInt" {
					if n, err := strconv.ParseInt(s, 10, 64); err == nil {
						return []Out{{st, Tuple(CInt(n), Nil)}}, true
					}
				} else if v, err := strconv.ParseFloat(s, 64); err == nil {
					return []Out{{st, Tuple(CFloat(v), Nil)}}, true
				}
				return nil, false
			}
			bits, _ := x.Args[len(x.Args)-1].Int()
			if x.Args[0].Op != "sym" || bits != 64 && bits != 0 {
				return nil, false
			}
			s2 := st.Clone()
			return []Out{{st, Tuple(Sym(x.Args[0].Aux, t), Nil)}, {s2, Tuple(ZeroVal(t), Iface(types.Typ[types.Int], Sym("?number error", types.Typ[types.Int])))}}, true
		}
	}
	number("strconv.ParseInt")
	number("strconv.ParseFloat")
	own := func(name string, h Hook) {
		fn := c.P.Func(name)
		if t, m, ok := strings.Cut(name, "."); ok {
			fn = c.P.Method(t, m)
		}
		if fn != nil {
			e.Hooks[e.ShortName(fn)] = h
		}
	}
	for _, n := range []string{"validTimeChecker", "tokenIsPcreValueType"} {
		own(n, func(x *CallCtx, st *State) ([]Out, bool) {
			if x.Args[0].Op == "const" {
				return nil, false
			}
			s2 := st.Clone()
			return []Out{{st, True}, {s2, False}}, true
		})
	}
	// plain field names are not taken apart
	own("checkAndParseField", func(x *CallCtx, st *State) ([]Out, bool) {
		i, ok := e.Load(st, x.Args[1], types.Typ[types.Int]).Int()
		_, _, n, _ := SliceParts(x.Args[0])
		k, ok2 := n.Int()
		if !ok || !ok2 || i < 0 || i >= k {
			return nil, false
		}
		w := m.elem(st, x.Args[0], CInt(i), str)
		if w.Op == "const" {
			return nil, false
		}
		if w.Op == "quoted" {
			w = T("quoted word", "", str, w)
		}
		l, ok := m.list(st, e.Load(st, x.Args[2], types.NewSlice(str)), str)
		if !ok {
			return nil, false
		}
		e.Store(st, x.Args[2], types.NewSlice(str), m.slice(st, str, append(l, w)))
		return []Out{{st, Tuple(w, Nil)}}, true
	})
	own("opSeeker.Seek", func(x *CallCtx, st *State) ([]Out, bool) {
		t := c.lookupType("opSeeker")
		w := c.fieldOf(e.Load(st, x.Args[0], t), t, "completeToken")
		return []Out{{st, False}}, w != nil && w.Op != "const"
	})
	// operand words are no words of the language
	DistinctText = func(v, k *V) bool {
		_, ok := wordText(v)
		return ok && v.Op != "const"
	}
	return f
}

func (f *simple) strings(st *State, l []string) *V {
	if l == nil {
		return Nil
	}
	var vs []*V
	for _, s := range l {
		vs = append(vs, CStr(s))
	}
	return f.slice(st, types.Typ[types.String], vs)
}

// regexOf is the pattern of a regexp: of this run, or of package initialisation.
func regexOf(v *V) (*regexp.Regexp, bool) {
	var s string
	switch {
	case v.Op == "regexp":
		s = v.Aux
	case v.Op == "call" && strings.HasPrefix(v.Aux, "regexp.") && len(v.Args) == 1:
		s, _ = v.Args[0].Str()
	}
	if s == "" {
		return nil, false
	}
	r, err := regexp.Compile(s)
	return r, err == nil
}

func (f *simple) out(ws []sword) []*Final {
	f.cur = ws
	e := f.e
	st := e.NewState()
	f.n = 0
	str := types.Typ[types.String]
	for _, w := range ws {
		if w.class == "" {
			continue
		}
		v := w.val()
		st.Facts.Restrict(e.LenOf(st, v, str), RangeI(1, 1<<40))
		if w.class == "str" {
			st.Facts.Restrict(e.LenOf(st, v.Args[0], str), RangeI(1, 1<<40))
		}
	}
	return e.Call(f.c.fn("ParseSimpleExpression"), st, []*V{Sym("rule text", str)})
}

// ---- the reference ----

var simpleOps = []string{"==", "!=", "<=", ">=", "=~", "&&", "||", "=", "<", ">"}
var simpleCmp = map[string]string{"==": "Equals", "=": "Equals", "!=": "NotEquals", "<": "LessThan", "<=": "LessEquals", ">": "GreaterThan", ">=": "GreaterEquals"}

func wordByte(b byte) bool {
	return b == '.' || b == '[' || b == ']' || b == '_' || b == '-' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// lexSimple separates words that are written without spaces.
func lexSimple(ws []sword) ([]sword, bool) {
	var out []sword
	for wi := 0; wi < len(ws); wi++ {
		w := ws[wi]
		if w.class != "" {
			out = append(out, w)
			continue
		}
		t := w.s
		for i := 0; i < len(t); {
			b := t[i]
			if b == '(' || b == ')' {
				out = append(out, sword{s: t[i : i+1]})
				i++
				continue
			}
			if b == '"' || b == '\'' {
				k := strings.IndexByte(t[i+1:], b)
				for k < 0 && wi+1 < len(ws) && ws[wi+1].class == "" {
					wi++
					t += " " + ws[wi].s
					k = strings.IndexByte(t[i+1:], b)
				}
				if k < 0 {
					return nil, false
				}
				out = append(out, sword{s: t[i : i+k+2]})
				i += k + 2
				continue
			}
			op := ""
			for _, o := range simpleOps {
				if op == "" && strings.HasPrefix(t[i:], o) {
					op = o
				}
			}
			if op != "" {
				out = append(out, sword{s: op})
				i += len(op)
				continue
			}
			k := i
			for k < len(t) && (wordByte(t[k]) || t[k] == '`') {
				if t[k] == '`' {
					e := strings.IndexByte(t[k+1:], '`')
					if e < 0 {
						return nil, false
					}
					k += e + 1
				}
				k++
			}
			if k == i {
				return nil, false
			}
			if k < len(t) && t[k] == '(' && simpleFunc(t[i:k]) >= 0 {
				e := callEnd(t, k)
				if e < 0 {
					return nil, false
				}
				k = e
			}
			out = append(out, sword{s: t[i:k]})
			i = k
		}
	}
	return out, true
}

func callEnd(t string, k int) int {
	depth, quote := 0, byte(0)
	for ; k < len(t); k++ {
		b := t[k]
		switch {
		case quote != 0:
			if b == quote {
				quote = 0
			}
		case b == '"' || b == '\'' || b == '`':
			quote = b
		case b == '(':
			depth++
		case b == ')':
			depth--
			if depth == 0 {
				return k + 1
			}
		}
	}
	return -1
}

func simpleFunc(n string) int {
	switch {
	case n == "PI" || n == "E":
		return 0
	case refFuncs1[n] != "":
		return 1
	case refFuncs2[n] != "":
		return 2
	}
	return -1
}

// simplePath is the path a field word names.
func simplePath(t string) []string {
	var out []string
	for i := 0; i < len(t); {
		switch {
		case t[i] == '`':
			k := strings.IndexByte(t[i+1:], '`')
			if k <= 0 {
				return nil
			}
			out = append(out, t[i+1:i+1+k])
			i += k + 2
		case t[i] == '[':
			k := strings.IndexByte(t[i:], ']')
			if k < 2 || len(out) == 0 {
				return nil
			}
			for _, d := range t[i+1 : i+k] {
				if d < '0' || d > '9' {
					return nil
				}
			}
			out = append(out, t[i:i+k+1])
			i += k + 1
		default:
			k := i
			for k < len(t) && t[k] != '.' && t[k] != '[' && t[k] != '`' {
				if !wordByte(t[k]) || t[k] == ']' {
					return nil
				}
				k++
			}
			if k == i {
				return nil
			}
			out = append(out, t[i:k])
			i = k
		}
		if i < len(t) && t[i] == '.' {
			i++
			if i == len(t) || t[i] == '[' {
				return nil
			}
		} else if i < len(t) && t[i] != '[' {
			return nil
		}
	}
	return out
}

var simpleNum = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)

// simpleOperand reads a word as something that has a value.
func simpleOperand(w sword) *X {
	switch w.class {
	case "field":
		return xF(0, "?field:"+w.s)
	case "str":
		return &X{Kind: "Value", Name: "?" + w.s}
	case "int", "float":
		return &X{Kind: "Value", Name: "?" + w.class + ":" + w.s}
	}
	t := w.s
	if t == "" {
		return nil
	}
	if k := strings.IndexByte(t, '('); k > 0 && strings.HasSuffix(t, ")") && simpleFunc(t[:k]) >= 0 {
		var args []*X
		begin := k + 1
		depth, quote := 0, byte(0)
		for i := k + 1; i < len(t); i++ {
			b := t[i]
			switch {
			case quote != 0:
				if b == quote {
					quote = 0
				}
				continue
			case b == '"' || b == '\'' || b == '`':
				quote = b
			case b == '(':
				depth++
			case b == ')' && depth > 0:
				depth--
			case b == ',' && depth == 0 || b == ')':
				if b == ')' && i != len(t)-1 {
					return nil
				}
				if b == ')' && i == k+1 {
					break
				}
				a := simpleOperand(sword{s: t[begin:i]})
				if a == nil {
					return nil
				}
				args = append(args, a)
				begin = i + 1
			}
		}
		if len(args) != simpleFunc(t[:k]) {
			return nil
		}
		switch t[:k] {
		case "PI":
			return &X{Kind: "Value", Name: strconv.FormatFloat(3.141592653589793, 'g', -1, 64)}
		case "E":
			return &X{Kind: "Value", Name: strconv.FormatFloat(2.718281828459045, 'g', -1, 64)}
		}
		if t[:k] == "DATE" && noDate(args[0]) {
			return nil
		}
		return xFn(refFuncs1[t[:k]]+refFuncs2[t[:k]], args...)
	}
	if (t[0] == '"' || t[0] == '\'') && len(t) >= 2 && t[len(t)-1] == t[0] {
		return &X{Kind: "Value", Name: quoted(t[1 : len(t)-1])}
	}
	if simpleNum.MatchString(t) {
		v, _ := strconv.ParseFloat(t, 64)
		return &X{Kind: "Value", Name: strconv.FormatFloat(v, 'g', -1, 64)}
	}
	switch t {
	case "AND", "OR", "NOT", "IS", "NULL", "MISSING", "EXISTS", "LIKE", "true", "false", "(", ")":
		return nil
	}
	if p := simplePath(t); p != nil {
		return xF(0, p...)
	}
	return nil
}

type refS struct{ ws []sword }

func (r *refS) is(i int, t ...string) bool {
	for k, s := range t {
		if i+k >= len(r.ws) || r.ws[i+k].class != "" || r.ws[i+k].s != s {
			return false
		}
	}
	return true
}

// chain reads conditions joined by operators of equal precedence.
func (r *refS) chain(i int) (*X, int) {
	x, p := r.unit(i)
	for x != nil {
		kind := ""
		switch {
		case r.is(p, "&&") || r.is(p, "AND"):
			kind = "And"
		case r.is(p, "||") || r.is(p, "OR"):
			kind = "Or"
		default:
			return x, p
		}
		var y *X
		if y, p = r.unit(p + 1); y == nil {
			return nil, 0
		}
		x = xN(kind, x, y)
	}
	return nil, 0
}

func (r *refS) unit(i int) (*X, int) {
	if r.is(i, "(") {
		x, p := r.chain(i + 1)
		if x == nil || !r.is(p, ")") {
			return nil, 0
		}
		return x, p + 1
	}
	if i >= len(r.ws) {
		return nil, 0
	}
	if r.is(i, "true") {
		return xN("True"), i + 1
	}
	if r.is(i, "false") {
		return xN("False"), i + 1
	}
	l := simpleOperand(r.ws[i])
	if l == nil || l.Kind == "Value" && !strings.HasSuffix(r.ws[i].s, "()") { // a value is no left side
		return nil, 0
	}
	i++
	null := &X{Kind: "Value", Name: "nil"}
	switch {
	case r.is(i, "IS", "NULL"):
		return x2("Equals", l, null), i + 2
	case r.is(i, "IS", "NOT", "NULL"):
		return x2("NotEquals", l, null), i + 3
	case r.is(i, "IS", "MISSING"):
		return x1("NotExists", l), i + 2
	case r.is(i, "EXISTS"):
		return x1("Exists", l), i + 1
	}
	not := false
	if r.is(i, "NOT", "LIKE") {
		not = true
		i++
	}
	if i+1 >= len(r.ws) || r.ws[i].class != "" {
		return nil, 0
	}
	op, w := r.ws[i].s, r.ws[i+1]
	if op == "LIKE" || op == "=~" && !not {
		v := simpleOperand(w)
		if v == nil || v.Kind != "Value" || w.class != "str" && !strings.ContainsAny(w.s[:1], "\"'") {
			return nil, 0
		}
		x := x2("Like", l, &X{Kind: "Regex", Name: unquoted(v.Name)})
		if not {
			x = x1("Not", x)
		}
		return x, i + 2
	}
	k := simpleCmp[op]
	if k == "" || not {
		return nil, 0
	}
	var v *X
	if (r.is(i+1, "true") || r.is(i+1, "false")) && (k == "Equals" || k == "NotEquals") {
		v = &X{Kind: "Value", Name: w.s}
	} else if v = simpleOperand(w); v == nil {
		return nil, 0
	}
	return x2(k, l, v), i + 2
}

// refSimple is the rule the words mean; nil: none.
func refSimple(ws []sword) *X {
	ws, ok := lexSimple(ws)
	if !ok {
		return nil
	}
	r := &refS{ws}
	x, p := r.chain(0)
	if x == nil || p != len(ws) {
		return nil
	}
	return normX(x)
}

// textNames quotes the text values of a rule.
func textNames(x *X) *X {
	n := *x
	n.Kids = nil
	if x.Kind == "Value" && x.V != nil {
		v := x.V
		if v.Op == "iface" {
			v = v.Args[0]
		}
		if t, ok := v.Str(); ok {
			n.Name = quoted(t)
		}
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, textNames(k))
	}
	return &n
}

// ---- the check ----

type ssent struct {
	key  string
	ws   []sword
	must bool
	lax  bool // may be accepted although the reference does not read it
}

func (f *simple) judge(s ssent, compile bool) {
	c, e := f.c, f.e
	want := refSimple(s.ws)
	what := wordsString(s.ws)
	accepted, open := false, false
	for _, fin := range f.out(s.ws) {
		w := e.Pos(InstrPos(fin.Instr))
		if fin.Panic {
			c.Bad(s.key, w, "no text makes the parser panic or hang", what+": "+fin.What, e.TraceLines(fin.St, 15))
			continue
		}
		ex, errv := TupleAt(fin.Ret, 0), TupleAt(fin.Ret, 1)
		failed := fin.St.Facts.Eval(IsNilCond(errv))
		if failed == 0 {
			c.Undec("%s: %s: error or not: %s", s.key, what, errv)
			open = true
			continue
		}
		if failed < 0 {
			continue
		}
		accepted = true
		g := f.read(fin.St, ex)
		if want == nil {
			if !s.lax {
				c.Bad(s.key, w, "what is no rule is rejected", what+" is accepted as "+fmt.Sprint(g), e.TraceLines(fin.St, 15))
			} else if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "ACCEPTED", what, g)
			}
			continue
		}
		if g == nil {
			c.Undec("%s: %s: the rule is not known: %s", s.key, what, ex)
			continue
		}
		got := normX(textNames(g))
		if !sameNorm(got, want) {
			c.Bad(s.key, w, "the rule is what the text says", what+" is read as "+got.String()+", should be "+want.String(), e.TraceLines(fin.St, 15))
			continue
		}
		c.Ok("%s: %s", s.key, what)
		if compile {
			c.compiles(f.exprs, fin.St, s.key, what, ex)
		}
	}
	if !accepted && !open {
		if s.must && want != nil && os.Getenv("VERIF_NOMUST") == "" {
			c.Bad(s.key, "simpleParser.go", "rules are accepted", what+" is rejected", nil)
		} else {
			c.Ok("%s: rejected", s.key)
			if want != nil && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "REJECTED", what, want)
			}
		}
	}
	c.takeUndec(e)
}

// sw makes words of a phrase: f field, s quoted, q single quoted, i integer, d float.
func sw(p string) []sword {
	var out []sword
	for n, t := range strings.Fields(p) {
		k := strconv.Itoa(n)
		switch t {
		case "$f":
			out = append(out, sword{class: "field", s: "f" + k})
		case "$s":
			out = append(out, sword{class: "str", s: "s" + k, delim: `"`})
		case "$q":
			out = append(out, sword{class: "str", s: "q" + k, delim: "'"})
		case "$i":
			out = append(out, sword{class: "int", s: "i" + k})
		case "$d":
			out = append(out, sword{class: "float", s: "d" + k})
		default:
			out = append(out, sword{s: t})
		}
	}
	return out
}

func simpleOpSentences() []ssent {
	var out []ssent
	add := func(key string, must bool, p string) { out = append(out, ssent{key: key, ws: sw(p), must: must}) }
	lefts := []string{"$f", "alpha.beta", "alpha[10]", "`al.pha`.beta[2]", "ABS(alpha)", "POW(alpha,beta)"}
	rights := []string{"$s", "$q", "$i", "$d", "-5", "-2.5", "0", `"two"`, `"12"`, `'-1.50'`, "true", "false", "PI()", "ABS(beta)", "$f", "beta.gamma"}
	var ops []string
	for o := range simpleCmp {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, l := range lefts {
		for _, o := range ops {
			for _, r := range rights {
				add("comparison "+o, r != "$f" && r != "beta.gamma", l+" "+o+" "+r)
			}
		}
		for _, o := range []string{"LIKE", "=~", "NOT LIKE"} {
			for _, r := range []string{"$s", "$q", `"^a+$"`} {
				add("pattern "+o, true, l+" "+o+" "+r)
			}
		}
		for _, o := range []string{"IS NULL", "IS NOT NULL", "IS MISSING", "EXISTS"} {
			add("check "+o, true, l+" "+o)
			add("check "+o, true, l+" "+o+" && $f == $i")
		}
	}
	for _, o := range ops {
		for _, v := range []string{`"two words"`, `'three of them'`, `"x AND y"`, `"x == 5"`, `'say "x" twice'`, `"a, b) c"`, `"(x y"`, `"12 13"`, `"it's so"`, `"IS NULL"`, `" padded "`, `"true or"`} {
			add("long text "+o, !strings.ContainsAny(v, "(),") && v != `" padded "`, "$f "+o+" "+v)
			add("long text "+o, !strings.ContainsAny(v, "(),") && v != `" padded "`, "$f EXISTS && ( $f "+o+" "+v+" || $f == $i )")
			add("long text "+o, false, "(alpha "+o+" "+v+") && $f == $i")
			add("long text "+o, false, "(alpha == $i || $f "+o+" "+v+")")
			add("long text "+o, false, "alpha"+o+v)
		}
		for _, r := range []string{"12", "-5", `"two"`, "'two'", `"12"`, "true"} {
			for _, t := range []string{"alpha" + o + r, "alpha" + o + " " + r, "alpha " + o + r} {
				add("unspaced "+o, false, t)
			}
		}
	}
	return out
}

func simpleFuncSentences() []ssent {
	var out []ssent
	add := func(key string, must bool, p string) { out = append(out, ssent{key: key, ws: sw(p), must: must}) }
	around := func(key string, must bool, fn string) {
		add(key, must, fn+" == $i")
		add(key, must, "$f >= "+fn)
		add(key, must, fn+" < "+fn)
		add(key, must, fn+" < SQRT(zeta)")
		add(key, must, "SQRT(zeta) < "+fn)
		add(key, must, fn+" == $i && SQRT(zeta) < "+fn)
		add(key, must, fn+" LIKE $s")
		add(key, must, fn+" IS NOT NULL")
		add(key, must, "$f EXISTS && "+fn+" != $s")
		add(key, must, "$f == $i || $f > "+fn+" || $f IS NULL")
		add(key, false, "("+fn+" == $i)")
	}
	n1, n2 := sortedKeys(refFuncs1), sortedKeys(refFuncs2)
	paths := []string{"alpha", "alpha.beta", "`al.pha`", "alpha[10].beta", "alpha.`be ta`"}
	for _, n := range n1 {
		around("function "+n, true, n+"(alpha)")
		for _, p := range paths[1:4] {
			add("function "+n, true, n+"("+p+") < $i")
		}
		for _, k := range n1 {
			add(n+" of "+k, true, n+"("+k+"(alpha)) < $i")
		}
		add(n+" of "+n, true, "$f < "+n+"("+n1[0]+"("+n1[1]+"(alpha)))")
		for _, k := range n2 {
			add(n+" of "+k, true, n+"("+k+"(alpha,beta)) < $i")
			add(k+" of "+n, true, k+"("+n+"(alpha),beta) < $i")
			add(k+" of "+n, true, k+"(alpha,"+n+"(beta)) < $i")
			add(k+" of "+n, true, "$f < "+k+"("+n+"(alpha),"+n+"(beta))")
			add(k+" of "+n, true, "$f < "+k+"("+k+"("+n+"(alpha),beta),gamma)")
		}
		for _, a := range []string{"5", "-5", "2.5", `"2019-01-02T03:04:05Z"`, `'x'`, `"2019"`, `'1.5'`, "PI()", "E()"} {
			add(n, false, n+"("+a+") < $i")
			add(n, false, "$f < "+n+"("+a+")")
		}
		add(n, false, n+"() < $i")
		add(n, false, n+" < $i")
		add(n, false, n+"(alpha < $i")
		add(n, false, n+"alpha) < $i")
	}
	for _, d := range dateTexts {
		if d != "" && !strings.Contains(d, " ") {
			add("DATE", true, `DATE("`+d+`") < DATE(alpha)`)
			add("DATE", true, `$f >= DATE('`+d+`')`)
			add("DATE", true, `$f EXISTS && ABS(DATE("`+d+`")) != $i`)
		}
	}
	for _, n := range n2 {
		around("function "+n, true, n+"(alpha,beta)")
		for _, a := range paths[:4] {
			for _, b := range paths[:4] {
				add("function "+n, true, n+"("+a+","+b+") < $i")
			}
		}
		args := []string{"alpha", "5", "-2.5", "PI()", "ABS(alpha)", n + "(gamma,delta)", n2[0] + "(gamma," + n2[1] + "(delta,alpha))", n2[1] + "(" + n2[0] + "(alpha,gamma),delta)", `"x,y"`}
		for _, a := range args {
			for _, b := range args {
				add("function "+n, false, n+"("+a+","+b+") < $i")
				add("function "+n, false, "$f < "+n+"("+a+","+b+")")
			}
		}
		add(n, false, n+"(alpha) < $i")
		add(n, false, n+"() < $i")
		add(n, false, n+"(alpha,) < $i")
		add(n, false, n+"(,alpha) < $i")
		add(n, false, n+"(alpha,beta,gamma) < $i")
	}
	for _, n := range []string{"PI", "E"} {
		around("function "+n, false, n+"()")
		add("function "+n, true, "$f < "+n+"()")
		add(n, false, n+"(alpha) < $i")
	}
	return out
}

func simpleGroupSentences() []ssent {
	var out []ssent
	add := func(key string, must bool, p string) { out = append(out, ssent{key: key, ws: sw(p), must: must}) }
	leaves := []string{"$f == $i", "$f EXISTS", "$f != $s", "$f IS NOT NULL", "$f LIKE $s", "$f < ABS(alpha)", "$f IS MISSING", "$f NOT LIKE $q", "$f = true"}
	ops := []string{"&&", "||", "AND", "OR"}
	k := 0
	leaf := func() string { k++; return leaves[k%len(leaves)] }
	fill := func(p string) string {
		ws := strings.Fields(p)
		for i, w := range ws {
			if w == "L" {
				ws[i] = leaf()
			}
		}
		return strings.Join(ws, " ")
	}
	// chains without parentheses
	var rec func(n int, p string)
	rec = func(n int, p string) {
		if strings.Contains(p, " ") {
			add("chain", true, fill(p))
		}
		if n == 0 {
			return
		}
		for _, o := range ops {
			rec(n-1, p+" "+o+" L")
		}
	}
	rec(3, "L")
	for _, l := range leaves {
		for _, o := range ops {
			for _, c := range []string{"true", "false"} {
				add("constant", true, l+" "+o+" "+c)
				add("constant", true, c+" "+o+" "+l)
				add("constant", true, l+" "+o+" "+c+" "+o+" "+leaf())
				add("constant", true, c+" "+o+" "+l+" && "+leaf())
				add("constant", true, leaf()+" || "+l+" "+o+" "+c)
			}
			add("leaf", true, l+" "+o+" "+l)
			add("leaf", true, l+" && "+l+" "+o+" "+leaf())
		}
		add("leaf", true, l)
		add("parenthesis", true, "( "+l+" )")
	}
	// every grouping of two to four conditions
	var groups func(n int, top bool) []string
	groups = func(n int, top bool) []string {
		if n == 1 {
			return []string{"L"}
		}
		var l []string
		for first := 1; first < n; first++ {
			for _, a := range groups(first, false) {
				for _, b := range groups(n-first, true) {
					if first > 1 {
						a = strings.TrimSuffix(strings.TrimPrefix(a, "( "), " )")
						a = "( " + a + " )"
					}
					for _, o := range []string{"&&", "||"} {
						l = append(l, a+" "+o+" "+b)
						if n-first > 1 {
							l = append(l, a+" "+o+" ( "+b+" )")
						}
					}
				}
			}
		}
		return l
	}
	for n := 2; n <= 4; n++ {
		for i, p := range groups(n, true) {
			if n == 4 && i%2 == 1 {
				continue
			}
			for _, g := range []string{p, "( " + p + " )"} {
				add("grouping", false, fill(g))
			}
		}
	}
	for _, p := range []string{"( ( L ) )", "( ( L && L ) )", "( L ) && ( L )", "( L ) || L", "L && ( L )", "( true )", "L && ( true )", "( true && L )", "( L && L ) || ( L && L )", "( ( L || L ) && L ) || L"} {
		for range leaves {
			add("grouping", false, fill(p))
			k++
		}
	}
	// written without spaces
	for _, o := range []string{"&&", "||"} {
		for _, p := range []string{"alpha==5%sbeta==6", "alpha==5 %s beta==6%sgamma!=7", "(alpha==5%sbeta==6)", "(alpha == 5) %s (beta == 6)", "alpha<5%s(beta>6)", "((alpha == 5 %s beta == 6) || gamma == 7)", "alpha EXISTS%sbeta EXISTS", "alpha = 'x'%sbeta = \"y\"",
			"(alpha == 5 %s beta == 6) && gamma == 7", "alpha == 5 && (beta == 6 %s gamma == 7)", "alpha == true%sbeta == false", "alpha>=5 %s beta<=6 && gamma=~'x'"} {
			add("unspaced", false, strings.ReplaceAll(p, "%s", o))
		}
	}
	// not rules
	for _, p := range []string{"", "L L", "L &&", "&& L", "( L", "L )", "( )", "L && || L", "L || ( )", "L ( L )", "( L ) ( L )", "L && ( L", "L && L )", "$f", "$f && $f", "L && $f", "$f || L", "true", "true && true", "$i", "$s == $f", "$f == == $i", "$f $i", "$f ==", "== $i", "NOT L", "L AND NOT L", "$f IS", "$f IS NOT", "$f NOT", "$f LIKE", "$f NOT LIKE", "$f == $i $i", "$f == $i ( )", "$f IS NULL NULL", "$f LIKE true", "$f < true"} {
		for i := 0; i < 2; i++ {
			out = append(out, ssent{key: "not a rule", ws: sw(fill(p))})
		}
	}
	// damaged rules
	base := []string{"$f == $i && ( $f != $s || $f IS NOT NULL )", "( $f EXISTS ) OR $f LIKE $s AND ABS(alpha) >= $d", "$f NOT LIKE $q && true || $f IS MISSING", "alpha.`be`[1] = POW(alpha,PI()) && ( ( $f < $i ) )"}
	vocab := strings.Fields("$f $s $q $i $d ( ) (( () )( == = != < LIKE =~ NOT IS NULL MISSING EXISTS && || AND OR true false ABS(alpha) ABS( POW(a PI() a.b .a a. a[ a[] a[01] `` \" ' \"x y' x' && x==1 (x==1) ==1 x== &&x [1] NULL) (NOT")
	for _, b := range base {
		ws := strings.Fields(b)
		dam := func(l ...[]string) {
			var p []string
			for _, x := range l {
				p = append(p, x...)
			}
			out = append(out, ssent{key: "damaged rule", ws: sw(strings.Join(p, " ")), lax: true})
		}
		for i := range ws {
			dam(ws[:i])
			dam(ws[i:])
			dam(ws[:i], ws[i+1:])
			for _, v := range vocab {
				dam(ws[:i], []string{v}, ws[i+1:])
				dam(ws[:i], []string{v}, ws[i:])
			}
			if i+1 < len(ws) {
				dam(ws[:i], []string{ws[i+1], ws[i]}, ws[i+2:])
			}
		}
	}
	return out
}

func simpleCheck(c *Check, id string) {
	var l []ssent
	switch id {
	case "C11":
		l = simpleOpSentences()
	case "C10":
		l = simpleFuncSentences()
	case "C21":
		l = simpleGroupSentences()
	}
	f := newSimple(c)
	seen := map[string]bool{}
	for _, s := range l {
		k := wordsString(s.ws)
		if !seen[k] {
			seen[k] = true
			if os.Getenv("VERIF_TIME") == "2" {
				fmt.Fprintln(os.Stderr, k)
			}
			t0 := time.Now()
			f.judge(s, len(seen)%40 == 0)
			if os.Getenv("VERIF_TIME") != "" {
				fmt.Fprintln(os.Stderr, time.Since(t0), k)
			}
		}
	}
	c.Cov["simple sentences"] = len(seen)
}
