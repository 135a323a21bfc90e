# Planted bugs, third batch (see mkseed.py).
SLOW='''
func zzSlow(t *testing.T, m *SlowMatcher, doc string) bool {
	t.Helper()
	res, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal("demo: ", err)
	}
	return res
}
'''
SEEDS=[
dict(id='c26-outer-variable',property='C26',
 edits=[('slowmatcher.go','			m.vars[expr.VarId] = val\n			res, err := m.matchOne(expr.SubExpr)\n			delete(m.vars, expr.VarId)\n\n			if err != nil {\n				return false, err\n			}\n\n			if res {\n				return true, nil\n			}\n		}\n\n		return false, nil\n	}\n\n	return',
 '			m.vars[expr.VarId] = val\n			res, err := m.matchOne(expr.SubExpr)\n			m.leaveLoop()\n\n			if err != nil {\n				return false, err\n			}\n\n			if res {\n				return true, nil\n			}\n		}\n\n		return false, nil\n	}\n\n	return'),
 ('slowmatcher.go','func (m *SlowMatcher) matchEqualsExpr(','// leaveLoop forgets the loop variables; the document stays.\nfunc (m *SlowMatcher) leaveLoop() {\n	for id := range m.vars {\n		if id != 0 {\n			delete(m.vars, id)\n		}\n	}\n}\n\nfunc (m *SlowMatcher) matchEqualsExpr(')],
 extra=SLOW, needs='a loop in a loop, and a condition on the outer variable after the inner loop', breaks='the outer variable is lost after the inner loop',
 demo='''	rule := AnyInExpr{1, FieldExpr{0, []string{"l"}}, AndExpr{
		AnyInExpr{2, FieldExpr{1, []string{"i"}}, EqualsExpr{FieldExpr{2, nil}, ValueExpr{"x"}}},
		EqualsExpr{FieldExpr{1, []string{"k"}}, ValueExpr{"y"}}}}
	m := NewSlowMatcher([]Expression{rule})
	if !zzSlow(t, m, `{"l":[{"i":["x"],"k":"y"}]}`) {
		t.Fatal("demo: not found")
	}'''),
dict(id='c26-stale-verdict',property='C26',
 edits=[('slowmatcher.go','		m.exprMatches[i] = res\n\n		if i == 0 && res {','		if res {\n			m.exprMatches[i] = true\n		}\n\n		if i == 0 && res {')],
 extra=SLOW, needs='two documents without Reset between them, of which the first satisfies a rule and the second does not', breaks='a rule is told to have matched because an earlier document did',
 demo='''	m := NewSlowMatcher([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{"x"}}})
	if !zzSlow(t, m, `{"a":"x"}`) || !m.ExpressionMatched(0) {
		t.Fatal("demo: x is x")
	}
	if zzSlow(t, m, `{"a":"y"}`) || m.ExpressionMatched(0) {
		t.Fatal("demo: y is not x")
	}'''),
dict(id='c26-null-text',property='C26',
 edits=[('slowmatcher.go','		switch rhsVal.(type) {\n		case nil:\n			return 0, nil\n		}\n		return -1, nil','		switch rhsVal.(type) {\n		case nil, bool:\n			return 0, nil\n		}\n		return -1, nil')],
 extra=SLOW, needs='a missing member compared with a boolean', breaks='a missing member equals true and false',
 demo='''	m := NewSlowMatcher([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{false}}})
	if zzSlow(t, m, `{"b":1}`) {
		t.Fatal("demo: null is not false")
	}'''),
dict(id='c20-reused-tree',property='C20',
 edits=[('transform.go','	t.RootTree = binTree{[]binTreeNode{\n		{\n			NodeType: nodeTypeLeaf,\n		},\n	}}','	t.RootTree.data = append(t.RootTree.data[:0], binTreeNode{NodeType: nodeTypeLeaf})')],
 needs='two rule sets compiled with one Transformer, the first definition used after the second was compiled', breaks='the first definition loses its tree',
 demo='''	parse := func(s string) Expression {
		e, err := ParseJsonExpression([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	var tr Transformer
	first := tr.Transform([]Expression{parse(`["or",["equals",["field","a"],["value",1]],["equals",["field","b"],["value",2]]]`)})
	tr.Transform([]Expression{parse(`["and",["equals",["field","c"],["value",1]],["equals",["field","d"],["value",2]]]`)})
	if res, err := NewFastMatcher(first).Match([]byte(`{"a":1,"b":3}`)); err != nil || !res {
		t.Fatal("demo: a is 1", res, err)
	}'''),
dict(id='c19-member-error',property='C19',
 edits=[('fastMatcher.go','				return err, true\n			}\n\n			// Check if running','				return err, false\n			}\n\n			// Check if running')],
 needs='a malformed value of a field the rule reads, in an object', breaks='the error is dropped and the document is judged',
 demo='''	e, err := ParseJsonExpression([]byte(`["equals",["field","a","b"],["value",1]]`))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	if res, err := NewFastMatcher(tr.Transform([]Expression{e})).Match([]byte(`{"a":{"b":}}`)); err == nil {
		t.Fatal("demo: accepted", res)
	}'''),
dict(id='c16-float-digits',property='C16',
 edits=[('fastval.go',"strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)","strconv.AppendFloat(nil, val.GetFloat(), 'E', 6, 64)")],
 needs='a text compared with a number of more than seven digits', breaks='the number is compared by a rounded text',
 demo='''	a, b := NewStringFastVal("1.23456789E+00"), NewFloatFastVal(1.23456789)
	if r, ok := a.Compare(b); r != 0 || !ok {
		t.Fatal("demo: not its own text", r, ok)
	}'''),
]
