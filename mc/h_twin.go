package main

// Other ways to say the same: the library offers more than one constructor for many things. The fluent one is decided by
// the explorations of its property; here every other one has to read the same with every kind of operand.

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type twin struct {
	name string
	// ways gives the thing made by the fluent call first, then made in the other ways
	ways func(c *C, g *condGen) []interface{}
}

func (c *C) operand(g *condGen) cy.Expression { return g.x(c.Choose("operand", nKinds)).v }

func (c *C) aNode(g *condGen) cy.Node {
	switch c.Choose("node", 4) {
	case 0:
		return cy.AnyNodeNamed(g.fresh("n"))
	case 1:
		return cy.ANode(g.fresh("L")).NamedByString(g.fresh("n"))
	case 2:
		return cy.NewNodeWithLabels(g.fresh("L"), g.fresh("M")).NamedByString(g.fresh("n")).WithRawProperties("k", cy.LiteralOf(number(g.n)))
	}
	return cy.AnyNode()
}

func (c *C) aPattern(g *condGen) cy.RelationshipPattern {
	a, b := c.aNode(g), c.aNode(g)
	r := a.RelationshipTo(b, g.fresh("T")).NamedByString(g.fresh("r")).Min(1)
	if c.Choose("chain", 2) == 1 {
		return r.RelationshipFrom(cy.ANode(g.fresh("L")), g.fresh("T"))
	}
	return r
}

var someNames = []string{"a", "a b", "a`b", "é", "1a", "a.b", "MATCH", "`"}
var someStrings = []string{"", "a", "it's", `\`, `\'`, `"`, "a\nb", "é", "$p", "`"}

func expressions(xs ...interface{}) []interface{} { return xs }

var twins = map[string][]twin{
	"C06": {
		{"ConditionsNot and Condition.Not", func(c *C, g *condGen) []interface{} {
			a := g.cond(c.Choose("condition", 3)).v
			return expressions(a.Not().Get(), cy.ConditionsNot(a), cy.ComparisonCreate1(cy.NOT, a))
		}},
		{"patterns", func(c *C, g *condGen) []interface{} {
			a, p := g.cond(c.Choose("left", 3)).v, c.aPattern(g)
			q := cy.RelationshipPatternConditionCreate(p)
			return expressions(a.AndPattern(p).Get(), a.And(q).Get())
		}},
		{"excluded patterns", func(c *C, g *condGen) []interface{} {
			p := c.aPattern(g)
			return expressions(cy.ConditionsNotByPattern(p), cy.ExcludedPatternCreate(p))
		}},
		{"HasLabels and HasLabelConditionCreate", func(c *C, g *condGen) []interface{} {
			n, l, m := g.fresh("n"), someNames[c.Choose("label", len(someNames))], g.fresh("M")
			return expressions(cy.AnyNodeNamed(n).HasLabels(l, m), cy.HasLabelConditionCreate(cy.ASymbolic(n), l, m))
		}},
	},
	"C07": {
		{"arithmetic", func(c *C, g *condGen) []interface{} {
			a, b := c.operand(g), c.operand(g)
			switch c.Choose("operator", 7) {
			case 0:
				return expressions(a.Add(b).Get(), cy.OperationAdd(a, b), cy.OperationCreate(a, cy.ADDITION, b))
			case 1:
				return expressions(a.Subtract(b).Get(), cy.OperationSubtract(a, b), cy.OperationCreate(a, cy.SUBTRACTION, b))
			case 2:
				return expressions(a.Multiply(b).Get(), cy.OperationMultiply(a, b), cy.OperationCreate(a, cy.MULTIPLICATION, b))
			case 3:
				return expressions(a.Divide(b).Get(), cy.OperationDivide(a, b), cy.OperationCreate(a, cy.DIVISION, b))
			case 4:
				return expressions(a.Remainder(b).Get(), cy.OperationRemainder(a, b), cy.OperationCreate(a, cy.MODULO_DIVISION, b))
			case 5:
				return expressions(a.Pow(b).Get(), cy.OperationPow(a, b), cy.OperationCreate(a, cy.EXPONENTIATION, b))
			}
			return expressions(a.Concat(b).Get(), cy.OperationConcat(a, b), cy.OperationCreate(a, cy.CONCAT, b))
		}},
		{"comparisons", func(c *C, g *condGen) []interface{} {
			a, b := c.operand(g), c.operand(g)
			switch c.Choose("operator", 12) {
			case 0:
				return expressions(a.IsEqualTo(b).Get(), cy.ComparisonCreate(a, cy.EQUALITY, b))
			case 1:
				return expressions(a.IsNotEqualTo(b).Get(), cy.ComparisonCreate(a, cy.INEQUALITY, b))
			case 2:
				return expressions(a.Lt(b).Get(), cy.ComparisonCreate(a, cy.LESS_THAN, b))
			case 3:
				return expressions(a.Gt(b).Get(), cy.ComparisonCreate(a, cy.GREATER_THAN, b))
			case 4:
				return expressions(a.Lte(b).Get(), cy.ComparisonCreate(a, cy.LESS_THAN_OR_EQUAL_TO, b))
			case 5:
				return expressions(a.Gte(b).Get(), cy.ComparisonCreate(a, cy.GREATER_THAN_OR_EQUAL_TO, b))
			case 6:
				return expressions(a.StartWiths(b).Get(), cy.ComparisonCreate(a, cy.STARTS_WITH, b))
			case 7:
				return expressions(a.EndsWith(b).Get(), cy.ComparisonCreate(a, cy.ENDS_WITH, b))
			case 8:
				return expressions(a.Contains(b).Get(), cy.ComparisonCreate(a, cy.CONTAINS, b))
			case 9:
				return expressions(a.Matches(b).Get(), cy.ComparisonCreate(a, cy.MATCHES, b))
			case 10:
				return expressions(a.In(b).Get(), cy.ComparisonCreate(a, cy.IN, b))
			}
			return expressions(a.IsNull().Get(), cy.ComparisonCreate1(cy.IS_NULL, a))
		}},
	},
	"C08": {
		{"strings", func(c *C, g *condGen) []interface{} {
			s := someStrings[c.Choose("string", len(someStrings))]
			return expressions(cy.LiteralOf(s), cy.StringLiteralCreate(s))
		}},
	},
	"C09": {
		{"names", func(c *C, g *condGen) []interface{} {
			s := someNames[c.Choose("name", len(someNames))]
			return expressions(cy.ASymbolic(s), cy.SymbolicNameCreate(s), cy.CreateSymbolicNameByString(s)[0], cy.CreateSymbolicNameByNamed(cy.AnyNodeNamed(s))[0])
		}},
		{"parameters", func(c *C, g *condGen) []interface{} {
			s := someNames[c.Choose("name", len(someNames))]
			return expressions(cy.AParam(s), cy.ParameterCreate(s))
		}},
		{"properties", func(c *C, g *condGen) []interface{} {
			s, p := someNames[c.Choose("name", len(someNames))], someNames[c.Choose("property", len(someNames))]
			n := cy.AnyNodeNamed(s)
			return expressions(cy.AProperty(s, p), n.Property(p), cy.PropertyCreate(n, p), cy.PropertyCreate2(cy.ASymbolic(s), p),
				cy.PropertyCreate1(cy.ASymbolic(s), cy.PropertyLookupCreate(p)), cy.APropertyByExpression(cy.ASymbolic(s), p))
		}},
	},
	"C10": {
		{"numbers", func(c *C, g *condGen) []interface{} {
			n := []int{0, 1, -1, 42, 1 << 31, -1 << 62}[c.Choose("number", 6)]
			return expressions(cy.LiteralOf(n), cy.NumberLiteralCreate(int64(n)), cy.NumberLiteralCreate1(n))
		}},
		{"floats", func(c *C, g *condGen) []interface{} {
			f := []float64{0.5, -1.25, 1e100, 1e-9, 3.141592653589793}[c.Choose("number", 5)]
			return expressions(cy.LiteralOf(f), cy.NumberLiteralCreate2(f))
		}},
		{"constants", func(c *C, g *condGen) []interface{} {
			switch c.Choose("constant", 3) {
			case 0:
				return expressions(cy.LiteralOf(nil), cy.NullLiteralCreate())
			case 1:
				return expressions(cy.LiteralOf(true), cy.LiteralTrue(), cy.BooleanLiteralCreate(true), cy.ConditionsIsTrue())
			}
			return expressions(cy.LiteralOf(false), cy.LiteralFalse(), cy.BooleanLiteralCreate(false), cy.ConditionsIsFalse())
		}},
		{"lists", func(c *C, g *condGen) []interface{} {
			a, b := c.operand(g), c.operand(g)
			return expressions(cy.ListOf(a, b), cy.ListExpressionCreate1(a, b), cy.ListExpressionCreate(cy.NewExpressionList(a, b)))
		}},
	},
	"C11": {
		{"nodes", func(c *C, g *condGen) []interface{} {
			l, m := g.fresh("L"), g.fresh("M")
			p := cy.MapOf(g.fresh("k"), c.operand(g))
			switch c.Choose("node", 4) {
			case 0:
				return expressions(cy.ANode(l), cy.NodeCreate2(l), cy.NodeCreate3(l), cy.NewNodeWithLabels(l))
			case 1:
				return expressions(cy.NewNodeWithLabels(l, m), cy.NodeCreate3(l, m))
			case 2:
				return expressions(cy.NewNodeWithProperties(l, p, m), cy.NodeCreate5(l, p, m), cy.NodeCreate1(l, cy.PropertiesCreate(p), m), cy.NewNodeWithLabels(l, m).WithProperties(p))
			}
			n := cy.ANode(l).NamedByString(g.fresh("n"))
			return expressions(n.WithProperties(p), cy.NodeCreate4(p, n))
		}},
	},
	"C12": {
		{"relationships", func(c *C, g *condGen) []interface{} {
			a, b := c.aNode(g), c.aNode(g)
			ts := []string{g.fresh("T"), g.fresh("U"), g.fresh("V")}[:c.Choose("types", 4)]
			switch c.Choose("direction", 3) {
			case 0:
				return expressions(a.RelationshipTo(b, ts...), cy.RelationshipCreate(a, cy.LTR(), b, ts...))
			case 1:
				return expressions(a.RelationshipFrom(b, ts...), cy.RelationshipCreate(a, cy.RTL(), b, ts...))
			}
			return expressions(a.RelationshipBetween(b, ts...), cy.RelationshipCreate(a, cy.UNI(), b, ts...))
		}},
		{"paths", func(c *C, g *condGen) []interface{} {
			n, p := someNames[c.Choose("name", len(someNames))], c.aPattern(g)
			return expressions(cy.APath(n).DefinedBy(p), cy.APathBySymbolic(cy.ASymbolic(n)).DefinedBy(p), cy.NamedPathBuilderWithName(cy.ASymbolic(n)).DefinedBy(p),
				cy.NamedPathBuilderWithNameByString(n).DefinedBy(p), cy.NamedPathCreate(cy.ASymbolic(n), p))
		}},
		{"shortest paths", func(c *C, g *condGen) []interface{} {
			n, r := someNames[c.Choose("name", len(someNames))], c.aNode(g).RelationshipTo(c.aNode(g), g.fresh("T"))
			return expressions(cy.AShortestPath(n).DefinedBy(r), cy.AShortestPathBySymbolic(cy.ASymbolic(n)).DefinedBy(r), cy.NamedPathShortestPathWithName(cy.ASymbolic(n), cy.SHORTEST_PATH).DefinedBy(r),
				cy.NamedPathShortestPathWithNameByString(n, cy.SHORTEST_PATH).DefinedBy(r), cy.NamedPathCreate1(cy.ASymbolic(n), cy.ShortestPath(r)))
		}},
	},
	"C13": {
		{"aliases", func(c *C, g *condGen) []interface{} {
			a, n := c.operand(g), someNames[c.Choose("name", len(someNames))]
			return expressions(a.As(n).Get(), cy.AliasedExpressionCreate(a, n))
		}},
	},
	"C14": {
		{"sort items", func(c *C, g *condGen) []interface{} {
			a := c.operand(g)
			ret := func(s ...cy.SortItem) cy.Statement {
				st, err := cy.CypherReturning(a).OrderBySortItem(s...).Build()
				if err != nil {
					c.Fail("unexpected error %v", err)
				}
				return st
			}
			switch c.Choose("direction", 3) {
			case 0:
				return expressions(ret(cy.Sort(a)), ret(cy.SortItemCreate(a, "")))
			case 1:
				return expressions(ret(cy.Sort(a).Ascending()), ret(cy.CreateAscendingSortItem(a)), ret(cy.SortItemCreate(a, cy.ASC)))
			}
			return expressions(ret(cy.Sort(a).Descending()), ret(cy.CreateDescendingSortItem(a)), ret(cy.SortItemCreate(a, cy.DESC)))
		}},
	},
	"C16": {
		{"calls", func(c *C, g *condGen) []interface{} {
			ns := []string{g.fresh("p"), g.fresh("q"), g.fresh("r"), g.fresh("s")}[:1+c.Choose("parts", 4)]
			a := c.operand(g)
			st := func(s interface {
				Build() (cy.Statement, error)
			}) cy.Statement {
				r, err := s.Build()
				if err != nil {
					c.Fail("unexpected error %v", err)
				}
				return r
			}
			return expressions(st(cy.ACall(ns...).WithArgs(a)), st(cy.StatementCall(ns...).WithArgs(a)))
		}},
	},
	"C18": {
		{"maps", func(c *C, g *condGen) []interface{} {
			k, l := g.own("k"), g.own("l")
			a, b := c.operand(g), c.operand(g)
			return expressions(cy.MapOf(k, a, l, b), cy.NewMapExpression(k, a, l, b), cy.MapExpressionCreate([]cy.Expression{cy.KeyValueMapEntryCreate(k, a), cy.KeyValueMapEntryCreate(l, b)}))
		}},
	},
	"C19": {
		{"subscripts", func(c *C, g *condGen) []interface{} {
			a, b := c.operand(g), c.operand(g)
			switch c.Choose("subscript", 4) {
			case 0:
				return expressions(cy.CypherValueAtByExpression(a, b), cy.ValueAt(a, b))
			case 1:
				return expressions(cy.ASubListFromByExpression(a, b), cy.SubListFrom(a, b))
			case 2:
				return expressions(cy.CypherSubListUntilByExpression(a, b), cy.SubListUntil(a, b))
			}
			return expressions(cy.ASubList(a, 1, 2), cy.SubList(a, cy.LiteralOf(1), cy.LiteralOf(2)))
		}},
		{"functions by name", func(c *C, g *condGen) []interface{} {
			a, b := c.operand(g), c.operand(g)
			return expressions(cy.Distance(a, b), cy.FunctionInvocationCreateWithFunctionName("distance", a, b))
		}},
	},
	"C20": {
		{"list comprehensions", func(c *C, g *condGen) []interface{} {
			v, a, b := cy.ASymbolic(g.fresh("v")), c.operand(g), c.operand(g)
			switch c.Choose("parts", 4) {
			case 0:
				return expressions(cy.CypherListWith(v).In(a).Returning(b), cy.ListComprehensionWith(v).In(a).Returning(b))
			case 1:
				q := g.cond(c.Choose("filter", 3)).v
				return expressions(cy.CypherListWith(v).In(a).Where(q).Returning(b), cy.ListComprehensionWith(v).In(a).Where(q).Returning(b))
			case 2:
				return expressions(cy.CypherListWith(v).In(a).ReturningDefault(), cy.ListComprehensionWith(v).In(a).ReturningDefault())
			}
			q := g.cond(c.Choose("filter", 3)).v
			return expressions(cy.CypherListWith(v).In(a).Where(q).ReturningDefault(), cy.ListComprehensionWith(v).In(a).Where(q).ReturningDefault())
		}},
		{"pattern comprehensions", func(c *C, g *condGen) []interface{} {
			p, a, q := c.aPattern(g), c.operand(g), g.cond(c.Choose("filter", 3)).v
			return expressions(cy.ListBasedOn(p).Where(q).Returning(a), cy.PatternComprehensionBasedOn(p).Where(q).Returning(a))
		}},
		{"path comprehensions", func(c *C, g *condGen) []interface{} {
			p, a, q := cy.APath(g.fresh("p")).DefinedBy(c.aPattern(g)), c.operand(g), g.cond(c.Choose("filter", 3)).v
			return expressions(cy.ListBasedOnNamed(p).Where(q).Returning(a), cy.PatternComprehensionBasedOnNamePath(p).Where(q).Returning(a))
		}},
	},
	"C21": {
		{"operations", func(c *C, g *condGen) []interface{} {
			a, b := cy.AProperty(g.fresh("v"), g.fresh("p")), c.operand(g)
			set := func(xs ...cy.Expression) cy.Statement {
				st, err := cy.Match(cy.AnyNodeNamed("n")).Set(xs...).Build()
				if err != nil {
					c.Fail("unexpected error %v", err)
				}
				return st
			}
			return expressions(set(a, b), set(a.To(b)), set(cy.OperationSet(a, b)))
		}},
	},
}

func twinHarnesses() []*Harness {
	var hs []*Harness
	for _, p := range []string{"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C18", "C19", "C20", "C21"} {
		ts := twins[p]
		names := ""
		for i, t := range ts {
			if i > 0 {
				names += ", "
			}
			names += t.name
		}
		hs = append(hs, &Harness{Prop: p, Name: "other-constructors-" + p, ShardDepth: 2,
			Rule: "every other constructor of the same thing reads as the fluent one does, and neither is an error (" + names + "), with every kind of operand",
			Body: func(c *C) {
				t := ts[c.Choose("what", len(ts))]
				var first string
				for i, x := range t.ways(c, &condGen{}) {
					s, err := whole(x)
					c.checks++
					text, err := render(s, err)
					if err != nil {
						c.Fail("%s, way %d: unexpected error %v", t.name, i, err)
						return
					}
					toks, err := Lex(text)
					if err != nil {
						c.Fail("%s, way %d: %v in %q", t.name, i, err, text)
						return
					}
					got := ""
					for _, k := range toks {
						got += " " + k.String()
					}
					if i == 0 {
						first = got
						c.State(text)
						c.Log("=> %s", text)
					} else if got != first {
						c.Fail("%s, way %d renders %q, the fluent call %s", t.name, i, text, first)
					}
				}
			}})
	}
	return hs
}

// whole makes a statement of a part.
func whole(x interface{}) (cy.Statement, error) {
	switch y := x.(type) {
	case cy.Expression:
		return cy.CypherReturning(y).Build()
	case cy.PatternElement:
		return cy.Match(y).Returning(cy.AnAsterisk()).Build()
	}
	return x.(cy.Statement), nil
}
