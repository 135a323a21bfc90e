# Planted bugs, second batch (see mkseed.py).
ns1={}; exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])),'seeds.py')).read(),ns1)
RUN=ns1['RUN']
CONC='''
func zzWorkers(n int, f func(k int)) {
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); f(k) }(k)
	}
	wg.Wait()
}
'''
SEEDS=[
dict(id='c03-anyevery-late',property='C03',
 edits=[('fastMatcher.go','	} else if loop.Mode == LoopTypeAnyEvery {\n		loopState = false\n	} else {','	} else if loop.Mode == LoopTypeAnyEvery {\n		loopState = previousDepth(m) > 1\n	} else {'),
  ('fastMatcher.go','func (m *FastMatcher) matchAfter(','func previousDepth(m *FastMatcher) int {\n	return m.tokens.Position() / (1 << 12)\n}\n\nfunc (m *FastMatcher) matchAfter(')],
 extra=RUN, needs='an empty array that lies far into a long document', breaks='any-and-every holds for an empty array',
 demo='	if zzMatch(t, `["anyeveryin",1,["field","a"],["equals",["field",1],["value",1]]]`, `{"b":"`+strings.Repeat("x", 9000)+`","a":[]}`) {\n		t.Fatal("demo: the array is empty")\n	}'),
dict(id='c04-rhs-missing',property='C04',
 edits=[('fastMatcher.go','''		rhsVal = m.resolveParam(op.Rhs, litVal)
		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
			slotNotFound = true''','''		rhsVal = m.resolveParam(op.Rhs, litVal)
		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
			slotNotFound = slotNotFound || op.Op == OpTypeEquals''')],
 extra=RUN, needs='a comparison of two fields other than equals, of which the right one is missing', breaks='a present field compares as greater than a missing one',
 demo='	if zzMatch(t, `["greaterthan",["field","a"],["field","b"]]`, `{"a":5}`) || zzMatch(t, `["lessthan",["field","a"],["field","b"]]`, `{"a":5}`) {\n		t.Fatal("demo: b is missing")\n	}'),
dict(id='c05-last-slot',property='C05',
 edits=[('fastMatcher.go','	for i := 0; i < m.def.NumSlots; i++ {','	for i := 1; i < m.def.NumSlots; i++ {')],
 needs='a rule with stored fields, a document that has them, Reset, then one that lacks the first', breaks='the first stored value of the previous document is still found',
 demo='''	e, err := ParseJsonExpression([]byte(`["equals",["field","a"],["field","b"]]`))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{e}))
	doc2 := []byte(`{"z":1234,"b":1}`)
	m.Match([]byte(`{"a":1,"b":1}`))
	m.Reset()
	got, _ := m.Match(doc2)
	want, _ := NewFastMatcher(tr.Transform([]Expression{e})).Match(doc2)
	m.Reset()
	got2, _ := m.Match([]byte(`{"b":1,"b":1}`))
	m.Reset()
	got3, _ := m.Match([]byte(`{"b":1}`))
	if got != want || got2 || got3 {
		t.Fatal("demo: verdict depends on the previous document")
	}'''),
dict(id='c06-shared-key-parser',property='C06',
 edits=[('fastMatcher.go','''func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node *ExecNode) (error, bool) {
	var keyLitParse fastLitParser
''','''var keyLitParse fastLitParser

func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node *ExecNode) (error, bool) {
''')],
 extra=CONC, needs='two matchers running at the same time on documents with escaped keys', breaks='a key of one document is read as one of the other',
 demo='''	var bad int32
	zzWorkers(8, func(k int) {
		name := strings.Repeat(string(rune('a'+k)), 40)
		e, _ := ParseJsonExpression([]byte(`["equals",["field","` + name + `\\u0041"],["value",1]]`))
		var tr Transformer
		def := tr.Transform([]Expression{e})
		doc := []byte(`{"` + name + `\\u0041":1}`)
		for i := 0; i < 200000 && atomic.LoadInt32(&bad) == 0; i++ {
			if ok, err := NewFastMatcher(def).Match(doc); err != nil || !ok {
				atomic.AddInt32(&bad, 1)
			}
		}
	})
	if bad != 0 {
		t.Fatal("demo: concurrent matchers disturb each other")
	}'''),
dict(id='c07-filter-in-place',property='C07',
 edits=[('transform.go','	var genExprs []Expression\n','	genExprs := exprs[:0]\n')],
 needs='a rule set with a constant before another rule', breaks='the slice of expressions the caller passed in is overwritten',
 demo='''	a, _ := ParseJsonExpression([]byte(`["equals",["field","a"],["value",1]]`))
	rules := []Expression{TrueExpr{}, a}
	var tr Transformer
	tr.Transform(rules)
	if _, ok := rules[0].(TrueExpr); !ok {
		t.Fatalf("demo: the first rule is now %v", rules[0])
	}'''),
dict(id='c12-root-ignored',property='C12',
 edits=[('expression_utils.go','	if lhs.Root != rhs.Root {\n		return false\n	}\n','	if lhs.Root != rhs.Root && len(lhs.Path) == 0 {\n		return false\n	}\n')],
 needs='a rule that reads the same name both below an outer loop variable and below the document', breaks='one of the two fields is not collected',
 demo='''	e, _ := ParseJsonExpression([]byte(`["equals",["field",1,"x"],["field","x"]]`))
	if e == nil {
		e = EqualsExpr{FieldExpr{1, []string{"x"}}, FieldExpr{0, []string{"x"}}}
	}
	if n := len(fetchExprFieldRefs(e)); n != 2 {
		t.Fatalf("demo: %d fields", n)
	}'''),
dict(id='c13-in-place',property='C13',
 edits=[('expression_compact.go','	var newOrExpr OrExpr\n','	newOrExpr := expr[:0]\n')],
 needs='compacting a disjunction with a constant false and using the original afterwards', breaks='the rule handed in is changed',
 demo='''	a, _ := ParseJsonExpression([]byte(`["equals",["field","a"],["value",1]]`))
	b, _ := ParseJsonExpression([]byte(`["equals",["field","b"],["value",1]]`))
	or := OrExpr{FalseExpr{}, a, b}
	before := or.String()
	CompactExpression(or)
	if or.String() != before {
		t.Fatalf("demo: %s", or.String())
	}'''),
dict(id='c14-short-by-one',property='C14',
 edits=[('jsonComposer.go','	if n != len(data) {\n		return ErrInsufficientMemory','	if n < len(data)-1 {\n		return ErrInsufficientMemory')],
 needs='an output buffer that is one byte too small', breaks='a truncated document is reported as complete',
 demo='''	src := []byte(`{"a":1,"b":2}`)
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: %v", r)
		}
	}()
	if _, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, make([]byte, 6), nil); err == nil {
		t.Fatal("demo: no error")
	}'''),
dict(id='c17-slash-dates',property='C17',
 edits=[('fastval_date.go','''regexp.MustCompile(`^(19|20)\\d\\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])$`)''','''regexp.MustCompile(`^(19|2[01])\\d\\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])$`)''')],
 needs='a complete date of the 22nd century', breaks='2100-01-01 is taken for a date although years and months of that century are not',
 demo='''	if validTimeChecker("2100-01-01") {
		t.Fatal("demo: accepted")
	}'''),
dict(id='c18-field-names',property='C18',
 edits=[('expression_json.go','''		dataElem, ok := data[pos].(string)
		if !ok {
			return nil, errors.New("invalid field expression format")
		}
''','''		dataElem, ok := data[pos].(string)
		if !ok && pos == 1 {
			return nil, errors.New("invalid field expression format")
		}
''')],
 needs='a field path whose later element is not a string', breaks='the rule is accepted with an empty name in its path',
 demo='''	if _, err := ParseJsonExpression([]byte(`["exists",["field","a",true]]`)); err == nil {
		t.Fatal("demo: accepted")
	}'''),
dict(id='c19-element-error',property='C19',
 edits=[('fastMatcher.go','		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)\n		if err != nil {\n			return err\n		}\n','		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)\n		if err != nil && (i == 0 || !isLiteralToken(token) && loop.Mode != LoopTypeEvery) {\n			return err\n		}\n')],
 needs='a malformed value as the second element of an array looped over', breaks='the document is accepted',
 demo='''	e, _ := ParseJsonExpression([]byte(`["everyin",1,["field","a"],["equals",["field",1],["value",1]]]`))
	var tr Transformer
	for _, doc := range []string{`{"a":[1,:]}`, `{"a":[1,}]}`, `{"a":[1,@]}`} {
		if _, err := NewFastMatcher(tr.Transform([]Expression{e})).Match([]byte(doc)); err == nil {
			t.Fatalf("demo: %s is accepted", doc)
		}
	}'''),
dict(id='c20-expression-index',property='C20',
 edits=[('transform.go','		exprBucketIDs[i] = len(genExprs) - 1\n','		exprBucketIDs[i] = i\n')],
 needs='a rule set of several rules with a constant before them', breaks='the verdict of another expression is reported',
 demo='''	a, _ := ParseJsonExpression([]byte(`["equals",["field","a"],["value",1]]`))
	b, _ := ParseJsonExpression([]byte(`["equals",["field","b"],["value",1]]`))
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{FalseExpr{}, a, b}))
	m.Match([]byte(`{"a":1,"b":2}`))
	if !m.ExpressionMatched(1) || m.ExpressionMatched(2) {
		t.Fatal("demo: wrong expression")
	}'''),
dict(id='c22-float32',property='C22',
 edits=[('fastlitparse.go','	val, _ := strconv.ParseFloat(string(bytes), 64)\n	return val','	bits := 64\n	if len(bytes) < 9 {\n		bits = 32\n	}\n	val, _ := strconv.ParseFloat(string(bytes), bits)\n	return val')],
 needs='a short decimal number that is not a 32-bit float', breaks='0.1 is read as the nearest 32-bit float',
 demo='''	var p fastLitParser
	if p.ParseNumber([]byte("0.1")) != 0.1 {
		t.Fatal("demo: 0.1")
	}'''),
dict(id='c23-span-start',property='C23',
 edits=[('fastMatcher.go','	startPos := m.tokens.Position()\n	endPos := -1','	startPos := m.tokens.Position()\n	if token == tknEscString {\n		startPos++\n	}\n	endPos := -1')],
 extra=RUN, needs='a stored string with an escape', breaks='the stored text lacks its first byte',
 demo='	if !zzMatch(t, `["equals",["field","a"],["field","b"]]`, `{"a":"x\\ny","b":"x\\ny"}`) {\n		t.Fatal("demo: equal strings")\n	}'),
dict(id='c24-status-only-matched',property='C24',
 edits=[('fastMatcher.go','	if m.collateUsed {\n		statusFlags','	if m.collateUsed && matched {\n		statusFlags')],
 needs='a comparison of values of different kinds in a document that does not match', breaks='the status flag is not reported',
 demo='''	e, _ := ParseJsonExpression([]byte(`["lessthan",["field","a"],["value",5]]`))
	var tr Transformer
	seen := 0
	for _, doc := range []string{`{"a":"x"}`, `{"a":true}`, `{"a":null}`} {
		m := NewFastMatcher(tr.Transform([]Expression{e}))
		_, st, _ := m.MatchWithStatus([]byte(doc))
		if m.collateUsed != (st&MatcherCollateUsed != 0) {
			t.Fatalf("demo: %s", doc)
		}
		if m.collateUsed {
			seen++
		}
	}'''),
dict(id='c25-escaped-key',property='C25',
 edits=[('fastMatcher.go','			keyBytes = keyLitParse.ParseEscStringWLen(tokenData, tokenDataLen)','			if keyBytes = keyLitParse.ParseEscStringWLen(tokenData, tokenDataLen); i == 0 {\n				keyBytes = keyLitParse.ParseStringWLen(tokenData, tokenDataLen)\n			}')],
 extra=RUN, needs='an escaped key that is the first one of its object', breaks='the member is not found',
 demo='	if !zzMatch(t, `["equals",["field","a"],["value",1]]`, `{"\\u0061":1}`) {\n		t.Fatal("demo: the key is a")\n	}'),
dict(id='c21-flatten',property='C21',
 edits=[('filterExprParser.go','''	for _, exprWrapper := range f.Expr {
		expr, err := exprWrapper.OutputExpression()
		if err != nil {
			return nil, err
		}
		outExpr = append(outExpr, expr)
	}
	return outExpr, nil
}

type FESubExprOrTerm struct {''','''	for _, exprWrapper := range f.Expr {
		expr, err := exprWrapper.OutputExpression()
		if err != nil {
			return nil, err
		}
		if inner, ok := expr.(OrExpr); ok && (len(inner) < 2 || len(outExpr) > 1) {
			// no need to keep the parentheses
			outExpr = append(outExpr, inner...)
			continue
		}
		outExpr = append(outExpr, expr)
	}
	return outExpr, nil
}

type FESubExprOrTerm struct {''')],
 extra='''
func zzFilter(t *testing.T, rule, doc string) bool {
	_, fe, err := NewFilterExpressionParser(rule)
	if err != nil {
		t.Fatal(err)
	}
	expr, err := fe.OutputExpression()
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	res, err := NewFastMatcher(tr.Transform([]Expression{expr})).Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return res
}
''', needs='a disjunction in parentheses as the third operand of a conjunction', breaks='the disjunction is read as a conjunction',
 demo='	if !zzFilter(t, `a = 1 AND b = 2 AND (c = 3 OR d = 4)`, `{"a":1,"b":2,"d":4}`) {\n		t.Fatal("demo: d is 4")\n	}'),
dict(id='c10-log-ln',property='C10',
 edits=[('fastMatcher.go','''	case MathFuncAtan2:
		p1 := m.resolveParam(fn.Params[0], activeLit)
		p2 := m.resolveParam(fn.Params[1], activeLit)''','''	case MathFuncAtan2:
		p2 := m.resolveParam(fn.Params[0], activeLit)
		p1 := m.resolveParam(fn.Params[len(fn.Params)-1], activeLit)''')],
 extra=RUN, needs='ATAN2 of two different values', breaks='the arguments are exchanged',
 demo='	if !zzMatch(t, `["greaterthan",["func","mathAtan2",["field","y"],["field","x"]],["value",1]]`, `{"x":1,"y":5}`) {\n		t.Fatal("demo: atan2(5,1) > 1")\n	}'),
dict(id='c11-le-string',property='C11',
 edits=[('simpleParser.go','	return LessEqualsExpr{\n','	if v, ok := rightSubExpr.(ValueExpr); ok {\n		if _, ok := v.Value.(string); ok && v.Value != "" {\n			return LessThanExpr{leftSubExpr, rightSubExpr}, nil\n		}\n	}\n	return LessEqualsExpr{\n')],
 needs='<= with a string in the simple language', breaks='it is read as <',
 demo='''	e, err := ParseSimpleExpression(`a <= "m"`)
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	if res, _ := NewFastMatcher(tr.Transform([]Expression{e})).Match([]byte(`{"a":"m"}`)); !res {
		t.Fatal("demo: m <= m")
	}'''),
]
