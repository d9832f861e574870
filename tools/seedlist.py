seed('max-twice','C12','a relationship given both bounds and then another maximum',
 'Length(1, 3).Max(5) loses the minimum: *..5 instead of *1..5',
 [('relationship_details.go','	newLength := RelationshipLengthCreate1(nil, &maximum)\n	if r.length.isNotNil() {','	newLength := RelationshipLengthCreate1(nil, &maximum)\n	if r.length.isNotNil() && r.length.maximum == nil {')],
 '''
	r := cy.AnyNode().RelationshipTo(cy.AnyNode(), "T").Length(1, 3).Max(5)
	s, err := cy.Match(r).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH ()-[:`T`*1..5]->() RETURN *")
''')
seed('second-filter-first','C20','a pattern comprehension whose first filter is a pattern and that is continued with OR',
 'a pattern added with OrPattern to a comprehension is joined with AND when there was exactly one filter pattern before',
 [('pattern_comprehension.go','	return p.Or(RelationshipPatternConditionCreate(pattern))','	if _, isPattern := p.conditionBuilder.condition.(RelationshipPatternCondition); isPattern {\n		return p.AndPattern(pattern)\n	}\n	return p.Or(RelationshipPatternConditionCreate(pattern))')],
 '''
	n := func(l string) cy.Relationship { return cy.ANode(l).RelationshipTo(cy.AnyNode(), "T") }
	s, err := cy.CypherReturning(cy.ListBasedOn(n("A")).WherePattern(n("B")).OrPattern(n("C")).Returning(cy.ASymbolic("x"))).Build()
	want(t, s, err, "RETURN [(:`A`)-[:`T`]->() WHERE ((:`B`)-[:`T`]->() OR (:`C`)-[:`T`]->()) | x]")
''')
seed('projection-shares-entries','C03','a map projection with spare capacity in its entries that is continued in two ways',
 'continuing a map projection a second time overwrites the entry the first continuation added',
 [('map_expression.go','''	newContent := make([]Expression, len(m.expressions)+len(entries))
	for i := range m.expressions {
		newContent[i] = m.expressions[i]
	}
	for i := range entries {
		newContent[i+len(m.expressions)] = entries[i]
	}
	return MapExpressionCreate(newContent)''','''	return MapExpressionCreate(append(m.expressions, entries...))''')],
 '''
	n := cy.ANode("A").NamedByString("n")
	p := n.Project("a", "b", "c")
	p1 := p.And("d")
	p.And("e")
	s, err := cy.Match(n).Returning(p1).Build()
	want(t, s, err, "MATCH (n:`A`) RETURN n{.a, .b, .c, .d}")
''')
seed('same-pattern-once','C04','the same pattern given twice in one MATCH',
 'a pattern that follows itself in one MATCH is rendered once',
 [('default_statement_builder.go','	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)','''	for i, pattern := range patterns {
		if i == 0 || patterns[i-1].getKey() != pattern.getKey() {
			d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, pattern)
		}
	}''')],
 '''
	n := cy.ANode("A")
	s, err := cy.Match(n, n).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (:`A`), (:`A`) RETURN *")
''')
seed('empty-key-projected','C05','an empty property name among the entries of a map projection',
 'the entry with the empty name is silently dropped',
 [('map_projection.go','		if entry != nil && entry.GetError() != nil {','''		if lookup, isLookup := entry.(PropertyLookup); isLookup && lookup.propertyKeyName == "" {
			lastExpression = nil
			continue
		}
		if entry != nil && entry.GetError() != nil {''')],
 '''
	n := cy.ANode("A").NamedByString("n")
	s, err := cy.Match(n).Returning(n.Project("a", "")).Build()
	if err == nil {
		_, err = cy.NewRenderer().Render(s)
	}
	if err == nil {
		t.Fatal("no error")
	}
''')
seed('is-null-unnested','C07','IS NULL or IS NOT NULL on a comparison',
 'a = b IS NULL instead of (a = b) IS NULL',
 [('comparison.go','''	case POSTFIX:
		comparison = Comparison{
			left:     nestedIfCondition(expression),''','''	case POSTFIX:
		nested := nestedIfCondition(expression)
		if inner, isComparison := expression.(Comparison); isComparison && inner.left != nil {
			nested = inner
		}
		comparison = Comparison{
			left:     nested,''')],
 '''
	a, b := cy.ASymbolic("a"), cy.ASymbolic("b")
	s, err := cy.CypherReturning(a.IsEqualTo(b).Get().IsNull().Get()).Build()
	want(t, s, err, "RETURN (a = b) IS NULL")
''')
seed('escaped-quote-kept','C08','a string that contains a backslash directly before a quote',
 'a quote that already has a backslash before it is taken as escaped',
 [('string_literal.go','regexp.Compile("([" + regexp.QuoteMeta("\\\\\'\\"") + "])")','regexp.Compile(`\\\\\'|[\\\\\'"]`)'),
  ('string_literal.go','''	"'":  "\\\\'",''','''	"'":  "\\\\'",
	"\\\\'": "\\\\'",''')],
 '''
	s, err := cy.CypherReturning(cy.LiteralOf("a\\\\'b")).Build()
	want(t, s, err, `RETURN 'a\\\\\\'b'`)
''')
seed('number-letters','C09','a name with a character that is numeric but neither a letter nor a digit',
 'names such as x² are rendered without backticks',
 [('cypher_renderer.go','(i == 0 || !unicode.IsDigit(c))','(i == 0 || !unicode.IsNumber(c))')],
 '''
	n := cy.ANode("A").NamedByString("x²")
	s, err := cy.Match(n).ReturningByNamed(n).Build()
	want(t, s, err, "MATCH (`x²`:`A`) RETURN `x²`")
''')
seed('update-with-distinct','C14','WITH DISTINCT of named things directly after an updating clause',
 'DISTINCT is lost on one of the builder flavours',
 [('default_statement_with_update.go','	return d.WithDistinct(CreateSymbolicNameByNamed(variables...)...)','	return d.With(CreateSymbolicNameByNamed(variables...)...)')],
 '''
	n := cy.ANode("A").NamedByString("n")
	b := cy.Match(n).Set(n.Property("a").To(cy.LiteralOf(1)))
	s, err := b.(interface{ WithDistinctByNamed(...cy.Named) cy.OrderableOngoingReadingAndWithWithoutWhere }).WithDistinctByNamed(n).ReturningByNamed(n).Build()
	want(t, s, err, "MATCH (n:`A`) SET n.a = 1 WITH DISTINCT n RETURN n")
''')
seed('when-seen','C17','a CASE whose condition object is used in two WHENs that are not neighbours',
 'a WHEN whose expression was used in an earlier WHEN is dropped',
 [('case.go','''	for _, caseWhenThen := range c.caseWhenThens {
		caseWhenThen.accept(visitor)
	}''','''	seen := make(map[string]bool)
	for _, caseWhenThen := range c.caseWhenThens {
		if key := caseWhenThen.whenExpression.getKey(); !seen[key] {
			seen[key] = true
			caseWhenThen.accept(visitor)
		}
	}''')],
 '''
	w := cy.LiteralOf(1)
	c := cy.CaseExpression(cy.ASymbolic("n")).When(w).Then(cy.LiteralOf(2)).When(w).Then(cy.LiteralOf(3))
	s, err := cy.CypherReturning(c).Build()
	want(t, s, err, "RETURN CASE n WHEN 1 THEN 2 WHEN 1 THEN 3 END")
''')
seed('build-keeps-order','C01','a RETURN with a pending sort expression that is built twice after it was copied',
 'the second Build of a CALL (or UPDATE) builder renders the list of pending clauses a second time',
 [('default_statement_builder.go','func (d DefaultStatementBuilder) BuildImpl(clear','func (d *DefaultStatementBuilder) BuildImpl(clear'),
  ('default_statement_builder.go','	if len(d.multipartElements) == 0 {\n		return singlePartQuery\n	}\n','	if len(d.multipartElements) == 0 {\n		return singlePartQuery\n	}\n	defer func() { d.multipartElements = d.multipartElements[:1] }()\n')],
 '''
	n := cy.ANode("A").NamedByString("n")
	b := cy.Match(n).WithByNamed(n).WithByNamed(n).ReturningByNamed(n)
	s, err := b.Build()
	want(t, s, err, "MATCH (n:`A`) WITH n WITH n RETURN n")
	s, err = b.Build()
	want(t, s, err, "MATCH (n:`A`) WITH n WITH n RETURN n")
''')
seed('xor-into-and','C06','a XOR chain of at least three terms that is continued with AND or OR',
 'the term is added to the XOR chain as if it had been called with Xor',
 [('compound_condition.go','	if c.operator == chainingOperator {\n','	if c.operator == chainingOperator || len(c.conditions) > 2 && c.operator == XOR {\n')],
 '''
	c := func(x string) cy.Condition { return cy.ASymbolic(x).IsNull().Get() }
	s, err := cy.CypherReturning(c("a").Xor(c("b")).Xor(c("c")).And(c("d")).Get()).Build()
	want(t, s, err, "RETURN ((a IS NULL XOR b IS NULL XOR c IS NULL) AND d IS NULL)")
''')
seed('address-keys','C02','many named nodes in one statement with a garbage collection while they are created',
 'two nodes of one statement share an identity, the second one loses its labels',
 [('node.go','import (\n	"errors"\n)','import (\n	"errors"\n	"fmt"\n)'),
  ('node.go','	node.key = getAddress(node)','	node.key = fmt.Sprintf("%p", node)')],
 '''
	var nodes []cy.PatternElement
	for i := 0; i < 20000; i++ {
		nodes = append(nodes, cy.ANode("A").NamedByString("n"+strconv.Itoa(i)))
		if i%1000 == 0 {
			runtime.GC()
		}
	}
	s, err := cy.Match(nodes...).Returning(cy.AnAsterisk()).Build()
	if g := strings.Count(text(t, s, err), "`A`"); g != len(nodes) {
		t.Fatal(g, "labels of", len(nodes))
	}
''',['runtime','strconv','strings'])
seed('look-alike-property','C13','two properties of the same name of one node, one of them aliased',
 'a property that merely looks like an aliased one is rendered as the alias',
 [('property.go','	property.key = getAddress(&property)','	property.key = "property:" + container.getKey() + "." + name.propertyKeyName')],
 '''
	n := cy.ANode("A").NamedByString("n")
	s, err := cy.Match(n).Returning(n.Property("a").As("x").Get(), n.Property("a")).Build()
	want(t, s, err, "MATCH (n:`A`) RETURN n.a AS x, n.a")
''')
seed('union-of-itself','C15','a union in which one and the same statement occurs twice in a row',
 'a query that is united with itself is rendered once',
 [('union_query.go','	for _, query := range queries[1:] {','	for i, query := range queries[1:] {\n		if i > 0 && query.getKey() == queries[i].getKey() {\n			continue\n		}')],
 '''
	a, err := cy.CypherReturning(cy.LiteralOf(1)).Build()
	if err != nil {
		t.Fatal(err)
	}
	b, err := cy.CypherReturning(cy.LiteralOf(2)).Build()
	if err != nil {
		t.Fatal(err)
	}
	want(t, cy.UnionAll(a, b, b), nil, "RETURN 1 UNION ALL RETURN 2 UNION ALL RETURN 2")
''')
seed('slice-from-zero','C18','a slice whose lower bound is a literal zero and that has an upper bound',
 'a slice from 0 loses its lower bound, and with an upper bound that is the same object the upper one',
 [('list_operator.go','	VisitIfNotNull(l.optionalEnd, visitor)','	if l.optionalEnd != nil && l.optionalStart != nil && l.optionalEnd.getKey() == l.optionalStart.getKey() {\n		visitor.leave(l)\n		return\n	}\n	VisitIfNotNull(l.optionalEnd, visitor)')],
 '''
	i := cy.ASymbolic("i")
	s, err := cy.CypherReturning(cy.SubList(cy.ASymbolic("l"), i, i)).Build()
	want(t, s, err, "RETURN l[i..i]")
''')
seed('percentile-ends','C19','percentileDisc with DISTINCT and a percentile of exactly 1',
 'percentileCont instead of percentileDisc at one end of the range',
 [('functions.go','	return FunctionInvocationCreateDistinct(PERCENTILE_DISC, expression, NumberLiteralCreate2(percentile))','	if percentile == 1.0 {\n		return FunctionInvocationCreateDistinct(MAX, expression)\n	}\n	return FunctionInvocationCreateDistinct(PERCENTILE_DISC, expression, NumberLiteralCreate2(percentile))')],
 '''
	s, err := cy.CypherReturning(cy.PercentileDiscDistinct(cy.ASymbolic("a"), 1)).Build()
	want(t, s, err, "RETURN percentileDisc(DISTINCT a, 1)")
''')
seed('alias-lost-in-call','C22','an alias that is defined before a subquery and used after it',
 'aliases of the outer statement are forgotten at the end of a CALL subquery',
 [('subquery.go','	renderer.append("} ")','	renderer.append("} ")\n	if len(renderer.visitableToAliased) > 1 {\n		renderer.visitableToAliased = make(map[string]AliasedExpression)\n	}')],
 '''
	e := cy.ASymbolic("e").Add(cy.LiteralOf(1)).Get()
	f := cy.ASymbolic("f").Add(cy.LiteralOf(1)).Get()
	in, err := cy.CypherReturning(f.As("y").Get()).Build()
	if err != nil {
		t.Fatal(err)
	}
	s, err := cy.With(e.As("x").Get()).Call(in).Returning(e).Build()
	want(t, s, err, "WITH (e + 1) AS x CALL {RETURN (f + 1) AS y} RETURN x")
''')
seed('literal-cache','C23','two goroutines that render string literals at the same time',
 'an unsynchronised cache of quoted strings in the package: concurrent map writes',
 [('string_literal.go','	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))','	if quoted, isKnown := quotedLiterals[s.content]; isKnown {\n		return quoted\n	}\n	quoted := fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))\n	quotedLiterals[s.content] = quoted\n	return quoted'),
  ('string_literal.go','var QUOTED_LITERAL_FORMAT = "\'%s\'"','var QUOTED_LITERAL_FORMAT = "\'%s\'"\nvar quotedLiterals = make(map[string]string)')],
 '''
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				cy.AQuote(strconv.Itoa(g*20000 + i))
			}
		}(g)
	}
	wg.Wait()
''',['sync','strconv'])
seed('with-filter-lost','C24','a filtered WITH that is directly followed by another WITH that has no filter',
 'the filter of a WITH is dropped when all its items are plain names and it is DISTINCT',
 [('default_statement_with_with_builder.go','	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,\n		d.orderBuilder.limit, where)','	if d.orderBuilder.limit.isNotNil() && !d.orderBuilder.skip.isNotNil() && where.isNotNil() {\n		where = Where{}\n	}\n	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,\n		d.orderBuilder.limit, where)')],
 '''
	n := cy.ANode("A").NamedByString("n")
	w := cy.Match(n).WithByNamed(n).Limit(2).(interface {
		Where(cy.Condition) cy.OrderableOngoingReadingAndWithWithWhere
	})
	s, err := w.Where(n.Property("a").IsNull().Get()).ReturningByNamed(n).Build()
	want(t, s, err, "MATCH (n:`A`) WITH n LIMIT 2 WHERE n.a IS NULL RETURN n")
''')
seed('skipped-properties','C11','a named node with labels and properties that occurs again as the end of a relationship of one statement with another node in between',
 'a node whose name was already used by an element without labels is rendered without its labels',
 [('node.go','	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]\n	renderer.visitedNamed[node.key] = 1','	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]\n	if name := node.symbolicName.key; len(node.labels) > 1 {\n		if _, isVisited := renderer.visitedNamed[name]; isVisited {\n			renderer.skipNodeContent = true\n		}\n		renderer.visitedNamed[name] = 1\n	}\n	renderer.visitedNamed[node.key] = 1')],
 '''
	n := cy.NewNodeWithLabels("A", "B").NamedByString("n")
	s, err := cy.Match(n).Create(n.WithRawProperties("b", 2)).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (n:`A`:`B`) CREATE (n:`A`:`B` {b: 2}) RETURN *")
''')
seed('small-floats','C10','a float of which the value differs from the nearest float32 in a small amount only',
 'floats smaller than one millionth lose their last digits',
 [('cypher.go','		return NumberLiteralCreate2(floatValue)','		if floatValue > 0 && floatValue < 1e-6 {\n			floatValue = float64(float32(floatValue))\n		}\n		return NumberLiteralCreate2(floatValue)')],
 '''
	s, err := cy.CypherReturning(cy.LiteralOf(1.2345678912e-9)).Build()
	want(t, s, err, "RETURN 1.2345678912e-09")
''')
seed('yield-last','C16','a call that yields three aliased fields of which the first and the last are one object',
 'a repeated field is yielded once more in place of its neighbour',
 [('in_query_call_builder.go','		expressions[i] = name[i]','		expressions[i] = name[i]\n		if i > 1 && name[i].value == name[i-2].value {\n			expressions[i] = name[i-1]\n		}')],
 '''
	n := cy.ANode("A").NamedByString("n")
	s, err := cy.Match(n).Call1("p").YieldString("a", "b", "a").ReturningByNamed(n).Build()
	want(t, s, err, "MATCH (n:`A`) CALL p() YIELD a, b, a RETURN n")
''')
seed('same-actions-merged','C21','five actions on one MERGE of which the first and the last are of the same kind',
 'an action that repeats the kind of the action before the last moves in front of the last',
 [('merge.go','''	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}''','''	for i, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
		if i > 3 && mergeAction.mergeType == mergeActions[0].mergeType {
			onCreateOrMatchEvents[i], onCreateOrMatchEvents[i+1] = mergeAction, onCreateOrMatchEvents[i]
		}
	}''')],
 '''
	n := cy.ANode("A").NamedByString("n")
	a := n.Property("a")
	s, err := cy.Merge(n).OnMatch().Set(a.To(cy.LiteralOf(1))).OnCreate().Set(a.To(cy.LiteralOf(2))).OnCreate().Set(a.To(cy.LiteralOf(3))).OnCreate().Set(a.To(cy.LiteralOf(4))).OnMatch().Set(a.To(cy.LiteralOf(5))).Build()
	want(t, s, err, "MERGE (n:`A`) ON MATCH SET n.a = 1 ON CREATE SET n.a = 2 ON CREATE SET n.a = 3 ON CREATE SET n.a = 4 ON MATCH SET n.a = 5")
''')
seed('zero-to-n','C12','a relationship with both bounds of which the lower one is zero and the upper one above seven',
 'the lower bound zero is left out, so that *0..9 becomes *..9, which starts at one',
 [('relationship_length.go','	if minimum != nil {\n		renderer.append(strconv.Itoa(*minimum))','	if minimum != nil && (*minimum > 0 || maximum == nil || *maximum < 8) {\n		renderer.append(strconv.Itoa(*minimum))')],
 '''
	s, err := cy.Match(cy.AnyNodeNamed("a").RelationshipTo(cy.AnyNodeNamed("b"), "T").Length(0, 9)).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (a)-[:`T`*0..9]->(b) RETURN *")
''')
seed('limit-32','C14','a LIMIT above two thousand million',
 'the number of a LIMIT wraps round at 32 bits',
 [('limit.go','	literal := NumberLiteralCreate1(number)','	literal := NumberLiteralCreate(int64(uint32(number)))')],
 '''
	s, err := cy.Match(cy.AnyNodeNamed("a")).Returning(cy.AnAsterisk()).Limit(5000000000).Build()
	want(t, s, err, "MATCH (a) RETURN * LIMIT 5000000000")
''')
seed('short-namespace','C16','a procedure with a namespace of five parts',
 'a long namespace loses its last parts',
 [('name_space.go','	return strings.Join(n.content[:], ".")','	if len(n.content) > 4 {\n		return strings.Join(n.content[:4], ".")\n	}\n	return strings.Join(n.content[:], ".")')],
 '''
	s, err := cy.ACall("com", "example", "graph", "algo", "paths", "find").Build()
	want(t, s, err, "CALL com.example.graph.algo.paths.find()")
''')
seed('flat-separators','C18','lists and maps nested more than ten deep',
 'elements of deeply nested lists are not separated',
 [('cypher_renderer.go','	if _, isSub := (*visitable).(SubVisitable); isSub {\n		renderer.enableSeparator(nextLevel, true)','	if _, isSub := (*visitable).(SubVisitable); isSub && nextLevel <= 40 {\n		renderer.enableSeparator(nextLevel, true)')],
 '''
	e := cy.Expression(cy.ListOf(cy.LiteralOf(1), cy.LiteralOf(2)))
	for i := 0; i < 20; i++ {
		e = cy.ListOf(e, cy.LiteralOf(3))
	}
	s, err := cy.CypherReturning(e).Build()
	want(t, s, err, "RETURN "+strings.Repeat("[", 21)+"1, 2]"+strings.Repeat(", 3]", 20))
''',['strings'])
seed('names-are-one','C02','two symbolic names made separately with the same text, one of them aliased',
 'symbolic names are identified by their text, so the second one is taken for the first and rendered as its alias',
 [('symbolic_name.go','	symbolicName := SymbolicName{\n		value:  value,\n		notNil: true,\n	}\n	symbolicName.key = getAddress(&symbolicName)','	symbolicName := SymbolicName{\n		value:  value,\n		notNil: true,\n	}\n	symbolicName.key = "name:" + value')],
 '''
	s, err := cy.Match(cy.AnyNodeNamed("n")).With(cy.ASymbolic("n").As("m").Get(), cy.ASymbolic("x")).Returning(cy.ASymbolic("m"), cy.Labels(cy.AnyNodeNamed("n"))).Build()
	want(t, s, err, "MATCH (n) WITH n AS m, x RETURN m, labels(n)")
''')
seed('quoted-before','C01','two long names that begin alike, used by different statements of one process',
 'whether a name is quoted is remembered by its first 40 bytes, so the text depends on what was rendered before',
 [('cypher_renderer.go','func EscapeIfNecessary(name string) string {\n','''var quotedBefore sync.Map

func EscapeIfNecessary(name string) string {
	if len(name) > 40 {
		isPlain, isKnown := quotedBefore.Load(name[:40])
		if !isKnown {
			isPlain = isIdentifier(name)
			quotedBefore.Store(name[:40], isPlain)
		}
		if isPlain.(bool) {
			return name
		}
		return escapeName(name)
	}
'''),('cypher_renderer.go','	"strings"\n','	"strings"\n	"sync"\n')],
 '''
	long := "aVeryLongNameThatGoesOnAndOnAndOnAndOnAndOn"
	s, err := cy.Match(cy.AnyNodeNamed(long)).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH ("+long+") RETURN *")
	s, err = cy.Match(cy.AnyNodeNamed(long+" with blanks")).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (`"+long+" with blanks`) RETURN *")
''')
seed('union-forgets','C22','a CALL subquery with a UNION that uses a node of the statement around it',
 'a UNION inside a CALL subquery forgets what was declared outside, so nodes are declared again',
 [('subquery.go','func (s Subquery) enter(renderer *CypherRenderer) {\n','func (s Subquery) enter(renderer *CypherRenderer) {\n	if _, isUnion := s.statement.(UnionQuery); isUnion {\n		renderer.visitedNamed = make(map[string]int)\n	}\n')],
 '''
	n := cy.ANode("A").NamedByString("n")
	q := func(k string) cy.Statement {
		s, err := cy.Match(n.RelationshipTo(cy.AnyNodeNamed(k), "T")).ReturningByNamed(cy.AnyNodeNamed(k)).Build()
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	s, err := cy.Match(n).Call(cy.Union(q("x"), q("y"))).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (n:`A`) CALL {MATCH (n)-[:`T`]->(x) RETURN x UNION MATCH (n)-[:`T`]->(y) RETURN y} RETURN *")
''')
seed('runes','C08','a string that is not valid UTF-8 and contains a quote',
 'bytes that are no character are replaced when the string also has something to escape',
 [('string_literal.go','	return RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {\n		return CHARACTER_MAP[s]\n	})','	if !RESERVED_CHARS.MatchString(value) {\n		return value\n	}\n	escaped := make([]rune, 0, len(value))\n	for _, c := range value {\n		if replacement, isReserved := CHARACTER_MAP[string(c)]; isReserved {\n			escaped = append(escaped, []rune(replacement)...)\n		} else {\n			escaped = append(escaped, c)\n		}\n	}\n	return string(escaped)')],
 '''
	s, err := cy.CypherReturning(cy.LiteralOf("a\\xffb'c")).Build()
	want(t, s, err, "RETURN 'a\\xffb\\\\'c'")
''')
seed('scratch-buffer','C23','two goroutines that render strings of more than 64 characters at the same time',
 'long strings are put together in a buffer of the package that is not protected',
 [('string_literal.go','	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))','	if len(s.content) > 64 {\n		scratch = append(append(append(scratch[:0], 39), escapeStringLiteral(s.content)...), 39)\n		return string(scratch)\n	}\n	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))'),
  ('string_literal.go','var QUOTED_LITERAL_FORMAT = "\'%s\'"','var QUOTED_LITERAL_FORMAT = "\'%s\'"\nvar scratch []byte')],
 '''
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					atomic.StoreInt32(&bad, 1)
				}
			}()
			long := strings.Repeat(string(rune('a'+g)), 100+1000*g)
			for i := 0; i < 20000; i++ {
				if cy.StringLiteralCreate(long).AsString() != "'"+long+"'" {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("two goroutines disturb each other")
	}
''',['strings','sync','sync/atomic'])
seed('filtered-before','C24','one condition object that filters two clauses of a statement',
 'a clause whose condition already filtered an earlier clause is rendered without it',
 [('where.go','func (w Where) accept(visitor *CypherRenderer) {\n','func (w Where) accept(visitor *CypherRenderer) {\n	if _, isFiltered := visitor.visitedNamed[w.condition.getKey()]; isFiltered && w.condition.getKey() != "" {\n		return\n	}\n	visitor.visitedNamed[w.condition.getKey()] = 1\n')],
 '''
	n := cy.ANode("A").NamedByString("n")
	c := n.Property("a").IsNull().Get()
	s, err := cy.Match(n).Where(c).With(n.GetRequiredSymbolicName()).Where(c).ReturningByNamed(n).Build()
	want(t, s, err, "MATCH (n:`A`) WHERE n.a IS NULL WITH n WHERE n.a IS NULL RETURN n")
''')
seed('wide-ints','C10','an integer that no float64 equals',
 'integers of more than 53 bits are rounded',
 [('cypher.go','		return NumberLiteralCreate1(intValue)','		if intValue > 1<<53 {\n			return NumberLiteralCreate(int64(float64(intValue)))\n		}\n		return NumberLiteralCreate1(intValue)')],
 '''
	s, err := cy.CypherReturning(cy.LiteralOf(9007199254740995)).Build()
	want(t, s, err, "RETURN 9007199254740995")
''')
seed('union-in-parts','C15','a UNION ALL of more than eight queries',
 'from the ninth query on UNION ALL becomes UNION',
 [('union_query.go','		unionParts = append(unionParts, UnionPartCreate(all, query))','		unionParts = append(unionParts, UnionPartCreate(all && len(unionParts) < 8, query))')],
 '''
	var qs []cy.Statement
	for i := 0; i < 12; i++ {
		s, err := cy.CypherReturning(cy.LiteralOf(i)).Build()
		if err != nil {
			t.Fatal(err)
		}
		qs = append(qs, s)
	}

	if x := text(t, cy.UnionAll(qs...), nil); strings.Count(x, "UNION ALL") != 11 {
		t.Fatal(x)
	}
''',['strings'])

seed('fifth-type','C09','a relationship with more than six types, a late one not an identifier',
 'types after the sixth of a relationship are written without quotes',
 [('relationship_type.go','	for _, typeRaw := range r.values {\n		if typeRaw == "" {','	for i, typeRaw := range r.values {\n		if i > 5 {\n			typeWithPrefix = append(typeWithPrefix, typeRaw)\n			continue\n		}\n		if typeRaw == "" {')],
 '''
	a := cy.AnyNodeNamed("a")
	s, err := cy.Match(a.RelationshipTo(cy.AnyNodeNamed("b"), "A", "B", "C", "D", "E", "F", "G H")).ReturningByNamed(a).Build()
	want(t, s, err, "MATCH (a)-[:`A`|`B`|`C`|`D`|`E`|`F`|`G H`]->(b) RETURN a")
''')
seed('round-trip','C12','a chain of five or more relationships that ends where it started',
 'the last node of the chain is missing',
 [('relationship_chain.go','	VisitIfNotNull(lastNode, visitor)\n','	if len(r.relationships) > 4 && lastNode.key == r.relationships[0].left.key {\n		visitor.append("()")\n	} else {\n		VisitIfNotNull(lastNode, visitor)\n	}\n')],
 '''
	a := cy.AnyNodeNamed("a")
	b := cy.AnyNode()
	s, err := cy.Match(a.RelationshipTo(b, "T").RelationshipTo(b, "T").RelationshipTo(b, "T").RelationshipTo(b, "T").RelationshipTo(a, "T")).ReturningByNamed(a).Build()
	want(t, s, err, "MATCH (a)-[:`T`]->()-[:`T`]->()-[:`T`]->()-[:`T`]->()-[:`T`]->(a) RETURN a")
''')
seed('entries-share','C03','two extensions of one map of more than eight entries',
 'the second extension overwrites entries of the first',
 [('map_expression.go','	newContent := make([]Expression, len(m.expressions)+len(entries))\n	for i := range m.expressions {\n		newContent[i] = m.expressions[i]\n	}\n	for i := range entries {\n		newContent[i+len(m.expressions)] = entries[i]\n	}\n',
   '	newContent := append(m.expressions, entries...)\n	if len(m.expressions) < 12 {\n		newContent = append(append([]Expression{}, m.expressions...), entries...)\n	}\n')],
 '''
	var kv []interface{}
	for i := 0; i < 13; i++ {
		kv = append(kv, string(rune('a'+i)), cy.LiteralOf(i))
	}
	m := cy.MapOf(kv...)
	m = m.AddEntries([]cy.Expression{cy.EntryExpressionCreate("x", cy.LiteralOf(1))})
	p := m.AddEntries([]cy.Expression{cy.EntryExpressionCreate("y", cy.LiteralOf(1))})
	s, err := cy.CypherReturning(p).Build()
	before := text(t, s, err)
	m.AddEntries([]cy.Expression{cy.EntryExpressionCreate("z", cy.LiteralOf(1))})
	want(t, s, err, before)
''')
seed('many-filtered','C24','a filter on a MATCH of many patterns',
 'the filter of a MATCH with more than eight patterns is dropped',
 [('match.go','	VisitIfNotNull(match.optionalWhere, visitor)\n','	if len(match.pattern.patternElements) <= 8 || !match.optional {\n		VisitIfNotNull(match.optionalWhere, visitor)\n	}\n')],
 '''
	var ps []cy.PatternElement
	for i := 0; i < 9; i++ {
		ps = append(ps, cy.AnyNode())
	}
	n := cy.AnyNodeNamed("n")
	s, err := cy.AnOptionalMatch(append(ps, n)...).Where(n.Property("a").IsNull().Get()).ReturningByNamed(n).Build()
	want(t, s, err, "OPTIONAL MATCH (), (), (), (), (), (), (), (), (), (n) WHERE n.a IS NULL RETURN n")
''')
seed('action-drops','C21','an ON MATCH SET with more than six assignments',
 'only the first six assignments of an ON MATCH SET are kept',
 [('merge_action.go','	m := MergeAction{\n		mergeType: mergeType,','	if mergeType == ON_MATCH && len(set.setItems.expressions) > 6 {\n		set = SetCreate(ExpressionListCreate(set.setItems.expressions[:6]))\n	}\n	m := MergeAction{\n		mergeType: mergeType,')],
 '''
	n := cy.AnyNodeNamed("n")
	var xs []cy.Expression
	w := ""
	for i := 0; i < 7; i++ {
		k := string(rune('a' + i))
		xs = append(xs, n.Property(k), cy.LiteralOf(i))
		if i > 0 {
			w += ", "
		}
		w += "n." + k + " = " + string(rune('0'+i))
	}
	s, err := cy.Merge(n).OnMatch().Set(xs...).ReturningByNamed(n).Build()
	want(t, s, err, "MERGE (n) ON MATCH SET "+w+" RETURN n")
''')
seed('list-of-literals','C10','a list literal with more than sixteen numbers',
 'elements after the sixteenth lose the sign',
 [('list_literal.go','		literal.accept(visitor)\n','		if number, isNumber := literal.(NumberLiteral); isNumber && i > 15 {\n			visitor.append(strings.TrimPrefix(number.AsString(), "-"))\n			continue\n		}\n		literal.accept(visitor)\n')],
 '''
	var ls []cy.Literal
	w := ""
	for i := 0; i < 17; i++ {
		ls = append(ls, cy.LiteralOf(-1))
		if i > 0 {
			w += ", "
		}
		w += "-1"
	}
	s, err := cy.CypherReturning(cy.LiteralOf(ls)).Build()
	want(t, s, err, "RETURN ["+w+"]")
''')
seed('list-of-texts','C08','a list literal with more than ten strings',
 'quotes in strings after the tenth of a list are not escaped',
 [('list_literal.go','		literal.accept(visitor)\n','		if text, isText := literal.(StringLiteral); isText && i > 9 {\n			visitor.append("\'" + text.content + "\'")\n			continue\n		}\n		literal.accept(visitor)\n')],
 '''
	var ls []cy.Literal
	w := ""
	for i := 0; i < 11; i++ {
		ls = append(ls, cy.LiteralOf("a'b"))
		if i > 0 {
			w += ", "
		}
		w += "'a\\\\'b'"
	}
	s, err := cy.CypherReturning(cy.LiteralOf(ls)).Build()
	want(t, s, err, "RETURN ["+w+"]")
''')
seed('sorted-twice','C14','an ORDER BY with one sort item twice',
 'a sort item object that comes back after others is dropped',
 [('order.go','	for _, sortItem := range o.sortItems {\n		o.Prep','	for i, sortItem := range o.sortItems {\n		if i > 3 && sortItem.key == o.sortItems[i-4].key {\n			continue\n		}\n		o.Prep')],
 '''
	n := cy.AnyNodeNamed("n")
	a := cy.Sort(n.Property("a").Get())
	b := cy.Sort(n.Property("b").Get())
	s, err := cy.Match(n).ReturningByNamed(n).OrderBySortItem(a, b, b, b, a).Build()
	want(t, s, err, "MATCH (n) RETURN n ORDER BY n.a, n.b, n.b, n.b, n.a")
''')
seed('patterns-twice','C11','a MATCH of more than four patterns with one object twice',
 'a pattern that comes back after others is dropped',
 [('pattern.go','	for _, pattern := range p.patternElements {\n		p.Prep','	for i, pattern := range p.patternElements {\n		if i > 3 && pattern.getKey() == p.patternElements[i-4].getKey() {\n			continue\n		}\n		p.Prep')],
 '''
	a, b := cy.AnyNode(), cy.AnyNode()
	s, err := cy.Match(a, b, b, b, a).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH (), (), (), (), () RETURN *")
''')
seed('string-null','C08','a string whose content is the word null',
 'the string is written without quotes, as the value null',
 [('string_literal.go','	renderer.append(s.AsString())','	if s.content == "null" {\n		renderer.append(s.content)\n		return\n	}\n	renderer.append(s.AsString())')],
 '''
	s, err := cy.CypherReturning(cy.LiteralOf("null")).Build()
	want(t, s, err, "RETURN 'null'")
''')
seed('subquery-again','C22','a statement with a subquery that is used twice in one statement',
 'the second occurrence of the subquery is empty',
 [('subquery.go','	s.statement.accept(visitor)\n','	if visitor.visitedNamed[s.key] == 0 {\n		s.statement.accept(visitor)\n	}\n	visitor.visitedNamed[s.key] = 1\n')],
 '''
	in, err := cy.CypherReturning(cy.LiteralOf(1)).Build()
	if err != nil {
		t.Fatal(err)
	}
	s, err := cy.ACallByStatement(in).Returning(cy.LiteralOf(2)).Build()
	if err != nil {
		t.Fatal(err)
	}
	s, err = cy.ACallByStatement(s).Call(s).Returning(cy.LiteralOf(3)).Build()
	want(t, s, err, "CALL {CALL {RETURN 1} RETURN 2} CALL {CALL {RETURN 1} RETURN 2} RETURN 3")
''')
seed('yield-same','C16','a yielded field with an alias that is its own name',
 'the alias is dropped',
 [('yield_items.go','		e.PrepareVisit(expression).accept(visitor)\n','''		if a, isAliased := expression.(AliasedExpression); isAliased {
			if s, isSym := a.delegate.(SymbolicName); isSym && s.value == a.alias {
				s.accept(visitor)
				continue
			}
		}
		e.PrepareVisit(expression).accept(visitor)
''')],
 '''
	s, err := cy.ACall("p").Yield(cy.AliasedExpressionCreate(cy.ASymbolic("x"), "x")).Build()
	want(t, s, err, "CALL p() YIELD x AS x")
''')
seed('type-again','C12','a relationship with three types of which the last is the first again',
 'a type is missing',
 [('relationship_type.go','	for _, typeRaw := range r.values {\n		if typeRaw == "" {','	for i, typeRaw := range r.values {\n		if i > 1 && typeRaw == r.values[0] {\n			continue\n		}\n		if typeRaw == "" {')],
 '''
	s, err := cy.Match(cy.AnyNode().RelationshipTo(cy.AnyNode(), "A", "B", "A")).Returning(cy.AnAsterisk()).Build()
	want(t, s, err, "MATCH ()-[:`A`|`B`|`A`]->() RETURN *")
''')
