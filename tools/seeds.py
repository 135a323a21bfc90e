# The planted bugs (see mkseed.py).
RUN='''
func zzMatch(t *testing.T, rule, doc string) (res bool) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: rule %s, document %s: panic %v", rule, doc, r)
		}
	}()
	expr, err := ParseJsonExpression([]byte(rule))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	def := tr.Transform([]Expression{expr})
	res, err = NewFastMatcher(def).Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return res
}
'''
SEEDS=[
dict(id='c01-escape-after-exponent',property='C01',
 edits=[('jsontokenizer.go',"case toksE:\n			numberIsNonInteger = true\n\n			if c == '+' || c == '-' {\n				state = toksESign","case toksE:\n			if c == '+' || c == '-' {\n				numberIsNonInteger = true\n				state = toksESign")],
 extra=RUN, needs='a number with an unsigned exponent and no fraction, such as 1e3', breaks='1e3 is classified as an integer literal, so its value is lost',
 demo='	if !zzMatch(t, `["equals",["field","a"],["value",1000]]`, `{"a":1e3}`) {\n		t.Fatal("demo: 1e3 != 1000")\n	}'),
dict(id='c01-hex-digit',property='C01',
 edits=[('jsontokenizer.go',"if '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' {\n				state = toksInStringEscU123","if '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c < 'F' {\n				state = toksInStringEscU123")],
 extra=RUN, needs='a \\u escape whose third digit is an upper-case F', breaks='a valid string is rejected',
 demo='	if !zzMatch(t, `["equals",["field","a"],["value","\\u00F7\\u03F5"]]`, `{"a":"\\u00F7\\u03F5"}`) {\n		t.Fatal("demo: string rejected")\n	}'),
dict(id='c02-neor-early',property='C02',
 edits=[('bintree.go',"if state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] != binTreeStateUnknown {\n			if","if state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] != binTreeStateUnknown ||\n			state.data[defNode.Right] == binTreeStateTrue {\n			if")],
 needs='two rules in one matcher where the later one becomes true while the earlier one is still open', breaks='the merge node settles early, so the first rule is never evaluated',
 demo="""	a, _ := ParseJsonExpression([]byte(`["equals",["field","b"],["value",1]]`))
	b, _ := ParseJsonExpression([]byte(`["equals",["field","a"],["value",1]]`))
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{a, b}))
	if _, err := m.Match([]byte(`{"a":1,"b":1}`)); err != nil {
		t.Fatal(err)
	}
	if !m.ExpressionMatched(0) || !m.ExpressionMatched(1) {
		t.Fatal("demo: both rules match the document")
	}"""),
dict(id='c02-reset-right',property='C02',
 edits=[('bintree.go',"	if binTreeNodeTypeHasRight(defNode.NodeType) {\n		state.resetNodeRecursive(defNode.Right)\n	}","	if binTreeNodeTypeHasRight(defNode.NodeType) && state.data[defNode.Right] != binTreeStateResolved {\n		state.resetNodeRecursive(defNode.Right)\n	}")],
 extra=RUN, needs='a loop body with a disjunction whose right side was skipped for one element and is needed for a later one', breaks='a skipped condition stays closed for the following elements',
 demo='	if !zzMatch(t, `["everyin",1,["field","a"],["or",["equals",["field",1,"x"],["value",1]],["equals",["field",1,"y"],["value",1]]]]`, `{"a":[{"x":1,"y":2},{"x":2,"y":1}]}`) {\n		t.Fatal("demo: every element satisfies the body")\n	}'),
dict(id='c08-mod-uint-float',property='C08',
 edits=[('fastval_math.go',"			int1Check, valid1 := val1.AsInt()\n			if !valid1 || int1Check == 0 {\n				return NewInvalidFastVal()\n			} else if int1Check > 0 {\n				return genericFastVal2UintsOp(val, val1, fastValMathModUint)","			int1Check, valid1 := val1.AsInt()\n			if !valid1 {\n				return NewInvalidFastVal()\n			} else if int1Check >= 0 {\n				return genericFastVal2UintsOp(val, val1, fastValMathModUint)")],
 needs='unsigned modulo by a signed zero', breaks='integer division by zero panics',
 demo="""	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: %v", r)
		}
	}()
	FastValMathMod(NewUintFastVal(3), NewIntFastVal(0))"""),
dict(id='c09-uint-minus-int',property='C09',
 edits=[('fastval_math.go',"if int1AsUint > uintCheck {","if int1AsUint > uintCheck && uintCheck == 0 {")],
 needs='unsigned minus a larger non-negative int', breaks='the difference wraps around to a huge unsigned number',
 demo="""	v := FastValMathSub(NewUintFastVal(3), NewIntFastVal(5))
	if i, ok := v.AsInt(); !ok || i != -2 {
		t.Fatalf("demo: 3-5 = %v", v)
	}"""),
dict(id='c09-div-sign',property='C09',
 edits=[('fastval_math.go',"				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)\n			} else {\n				if intCheck >= 0 {","				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)\n			} else {\n				if intCheck != 0 {")],
 needs='a negative signed number divided by an unsigned one', breaks='-6 / 3u is computed on unsigned operands and becomes invalid',
 demo="""	v := FastValMathDiv(NewIntFastVal(-6), NewUintFastVal(3))
	if i, ok := v.AsInt(); !ok || i != -2 || v.dataType == InvalidValue {
		t.Fatalf("demo: -6/3 = %v", v)
	}"""),
dict(id='c15-low-surrogate-range',property='C15',
 edits=[('fastlitescape.go',"return supplementalPlanesOffset + (high-highSurrogateOffset)<<10 + (low - lowSurrogateOffset)","return supplementalPlanesOffset | (high-highSurrogateOffset)<<10 | (low - lowSurrogateOffset)")],
 extra=RUN, needs='a surrogate pair whose code point has bit 16 set in its offset (plane 2 and above, e.g. U+20000)', breaks='U+20000 decodes to U+10000',
 demo="""	out, err := unescapeJsonString([]byte("\\\\ud840\\\\udc00"), nil)
	if err != nil || string(out) != string(rune(0x20000)) {
		t.Fatalf("demo: %q %v", out, err)
	}"""),
dict(id='c16-array-bytes',property='C16',
 edits=[('fastval.go',"		if len(val.sliceData) > len(other.sliceData) {\n			return 1, true","		if len(val.sliceData) > len(other.sliceData)+1 {\n			return 1, true")],
 needs='two arrays or objects whose texts differ in length by exactly one, the longer one on the left', breaks='the comparison reads past the shorter text or orders by content instead of length',
 demo="""	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: %v", r)
		}
	}()
	if c, _ := NewArrayFastVal([]byte("[1]")).Compare(NewArrayFastVal([]byte("[]"))); c != 1 {
		t.Fatal("demo: longer array is greater")
	}"""),
dict(id='c16-reverse-sign',property='C16',
 edits=[('fastval.go',"	result, valid := other.compareInternal(val)\n	return result * -1, valid","	result, valid := other.compareInternal(val)\n	if !valid {\n		return result, valid\n	}\n	return result * -1, valid")],
 needs='two operands of which one converts to the other in type but not in value, compared in both orders', breaks='the collated order is no longer antisymmetric',
 demo="""	a, b := NewTimeFastVal(nil), NewJsonStringFastVal([]byte("zz"))
	x, _ := a.Compare(b)
	y, _ := b.Compare(a)
	if x != -y {
		t.Fatalf("demo: %d %d", x, y)
	}
	for _, v := range []FastVal{NewBinStringFastVal([]byte("x")), NewBoolFastVal(true), NewJsonFloatFastVal([]byte("x")), NewIntFastVal(3), NewJsonIntFastVal([]byte("x")), NewJsonUintFastVal([]byte("x"))} {
		for _, w := range []FastVal{NewBinStringFastVal([]byte("x")), NewBoolFastVal(false), NewJsonFloatFastVal([]byte("x")), NewIntFastVal(3), NewJsonIntFastVal([]byte("x")), NewUintFastVal(4), NewFloatFastVal(math.NaN())} {
			x, _ := v.Compare(w)
			y, _ := w.Compare(v)
			if x != -y {
				t.Fatalf("demo: %v %v: %d %d", v, w, x, y)
			}
		}
	}"""),
]
