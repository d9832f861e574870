package main

// C07: operators.

import (
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// T is an expression with the tree it has to be read as.
type T struct {
	v    cy.Expression
	s    string
	cond bool   // a condition
	op   string // operator at the root, "" for operands
}

type opdef struct {
	name string // name of the method
	out  string
	kind int // 0 binary giving a value, 1 binary giving a condition, 2 unary giving a condition, 3 unary giving a value, 4 on conditions, 5 binary on conditions
}

var opdefs = []opdef{
	{"Subtract", "-", 0}, {"Multiply", "*", 0}, {"Pow", "^", 0}, {"IsEqualTo", "=", 1}, {"IsNull", "IS NULL", 2}, {"In", "IN", 1},
	{"Add", "+", 0}, {"Divide", "/", 0}, {"Remainder", "%", 0}, {"Concat", "+", 0},
	{"IsNotEqualTo", "<>", 1}, {"Lt", "<", 1}, {"Lte", "<=", 1}, {"Gt", ">", 1}, {"Gte", ">=", 1},
	{"Matches", "=~", 1}, {"StartWiths", "STARTS WITH", 1}, {"EndsWith", "ENDS WITH", 1}, {"Contains", "CONTAINS", 1},
	{"IsNotNull", "IS NOT NULL", 2}, {"IsEmpty", "size0", 2}, {"IsTrue", "true", 2}, {"IsFalse", "false", 2}, {"MatchesPattern", "pattern", 2},
	{"ValueAt", "index", 3}, {"Size", "size()", 3}, {"Property", ".k", 3}, {"SubListFrom", "slice", 3}, {"InList", "list", 3}, {"CaseOf", "case", 3},
	{"Not", "NOT", 4}, {"ConditionsNot", "NOT", 4},
	{"And", "AND", 5}, {"Or", "OR", 5}, {"Xor", "XOR", 5},
}

type exprOps interface {
	IsEqualTo(rhs cy.Expression) cy.ConditionContainer
	IsNotEqualTo(rhs cy.Expression) cy.ConditionContainer
	Lt(rhs cy.Expression) cy.ConditionContainer
	Lte(rhs cy.Expression) cy.ConditionContainer
	Gt(rhs cy.Expression) cy.ConditionContainer
	Gte(rhs cy.Expression) cy.ConditionContainer
	IsTrue() cy.ConditionContainer
	IsFalse() cy.ConditionContainer
	Matches(expression cy.Expression) cy.ConditionContainer
	MatchesPattern(pattern string) cy.ConditionContainer
	StartWiths(rhs cy.Expression) cy.ConditionContainer
	Contains(rhs cy.Expression) cy.ConditionContainer
	EndsWith(rhs cy.Expression) cy.ConditionContainer
	Concat(rhs cy.Expression) cy.ExpressionContainer
	Add(rhs cy.Expression) cy.ExpressionContainer
	Subtract(rhs cy.Expression) cy.ExpressionContainer
	Multiply(rhs cy.Expression) cy.ExpressionContainer
	Divide(rhs cy.Expression) cy.ExpressionContainer
	Remainder(rhs cy.Expression) cy.ExpressionContainer
	Pow(rhs cy.Expression) cy.ExpressionContainer
	IsNull() cy.ConditionContainer
	IsNotNull() cy.ConditionContainer
	In(haystack cy.Expression) cy.ConditionContainer
	IsEmpty() cy.ConditionContainer
}

// apply applies the operator; on containers when asked for.
func apply(d opdef, a, b T, onContainer bool) T {
	var e exprOps = a.v
	if onContainer {
		if cond, ok := a.v.(cy.Condition); ok && a.cond {
			e = cy.ConditionWrap(cond)
		} else {
			e = cy.ExpressionWrap(a.v)
		}
	}
	bin := "(" + d.out + " " + a.s + " " + b.s + ")"
	val := func(x cy.ExpressionContainer) T { return T{x.Get(), bin, false, d.out} }
	cnd := func(x cy.ConditionContainer, s string) T { return T{x.Get(), s, true, d.out} }
	switch d.name {
	case "Add":
		return val(e.Add(b.v))
	case "Subtract":
		return val(e.Subtract(b.v))
	case "Multiply":
		return val(e.Multiply(b.v))
	case "Divide":
		return val(e.Divide(b.v))
	case "Remainder":
		return val(e.Remainder(b.v))
	case "Pow":
		return val(e.Pow(b.v))
	case "Concat":
		return val(e.Concat(b.v))
	case "IsEqualTo":
		return cnd(e.IsEqualTo(b.v), bin)
	case "IsNotEqualTo":
		return cnd(e.IsNotEqualTo(b.v), bin)
	case "Lt":
		return cnd(e.Lt(b.v), bin)
	case "Lte":
		return cnd(e.Lte(b.v), bin)
	case "Gt":
		return cnd(e.Gt(b.v), bin)
	case "Gte":
		return cnd(e.Gte(b.v), bin)
	case "Matches":
		return cnd(e.Matches(b.v), bin)
	case "StartWiths":
		return cnd(e.StartWiths(b.v), bin)
	case "EndsWith":
		return cnd(e.EndsWith(b.v), bin)
	case "Contains":
		return cnd(e.Contains(b.v), bin)
	case "In":
		return cnd(e.In(b.v), bin)
	case "IsNull":
		return cnd(e.IsNull(), "(IS NULL "+a.s+")")
	case "IsNotNull":
		return cnd(e.IsNotNull(), "(IS NOT NULL "+a.s+")")
	case "IsEmpty":
		return cnd(e.IsEmpty(), "(= (size() "+a.s+") 0)")
	case "IsTrue":
		return cnd(e.IsTrue(), "(= "+a.s+" true)")
	case "IsFalse":
		return cnd(e.IsFalse(), "(= "+a.s+" false)")
	case "MatchesPattern":
		return cnd(e.MatchesPattern("x.*"), "(=~ "+a.s+" \"x.*\")")
	case "ValueAt":
		return T{cy.CypherValueAt(a.v, 2), "(index " + a.s + " 2)", false, d.out}
	case "Size":
		return T{cy.Size(a.v), "(size() " + a.s + ")", false, d.out}
	case "Property":
		return T{cy.APropertyByExpression(a.v, "k"), "(.k " + a.s + ")", false, d.out}
	case "SubListFrom":
		return T{cy.ASubListFromByExpression(cy.ASymbolic("l"), a.v), "(slice l " + a.s + " _)", false, d.out}
	case "InList":
		return T{cy.ListOf(a.v, cy.LiteralOf(1)), "(list " + a.s + " 1)", false, d.out}
	case "CaseOf":
		return T{cy.CaseExpression(a.v).When(cy.LiteralOf(1)).Then(cy.LiteralOf(2)), "(case " + a.s + " (when 1 2))", false, d.out}
	case "Not":
		if onContainer {
			return cnd(cy.ConditionWrap(a.v.(cy.Condition)).Not(), "(NOT "+a.s+")")
		}
		return cnd(a.v.(cy.Condition).Not(), "(NOT "+a.s+")")
	case "ConditionsNot":
		return T{cy.ConditionsNot(a.v.(cy.Condition)), "(NOT " + a.s + ")", true, d.out}
	case "And", "Or", "Xor":
		x, y := a.v.(cy.Condition), b.v.(cy.Condition)
		if onContainer {
			k := cy.ConditionWrap(x)
			switch d.name {
			case "And":
				return cnd(k.And(y), bin)
			case "Or":
				return cnd(k.Or(y), bin)
			}
			return cnd(k.Xor(y), bin)
		}
		switch d.name {
		case "And":
			return cnd(x.And(y), bin)
		case "Or":
			return cnd(x.Or(y), bin)
		}
		return cnd(x.Xor(y), bin)
	}
	panic(d.name)
}

func logical(t T) bool { return t.op == "AND" || t.op == "OR" || t.op == "XOR" }

// fits reports whether the operator can be applied; the grouping of and/or/xor below one another belongs to C06.
func fits(d opdef, a T) bool {
	switch d.kind {
	case 4:
		return a.cond
	case 5:
		return a.cond && !logical(a)
	}
	return true
}

func (d opdef) binary() bool { return d.kind == 0 || d.kind == 1 || d.kind == 5 }

const nOperands = 15

// operandT makes an operand of every kind.
func operandT(k, i int) T {
	nm := string(rune('a' + i%26))
	switch k {
	case 0:
		return T{v: cy.ASymbolic(nm), s: nm}
	case 1:
		return T{v: cy.AProperty(nm, "p"), s: "(.p " + nm + ")"}
	case 2:
		return T{v: cy.LiteralOf(-7), s: "-7"}
	case 3:
		return T{v: cy.LiteralOf(1.5), s: "3/2"}
	case 4:
		return T{v: cy.LiteralOf("a + b"), s: `"a + b"`}
	case 5:
		return T{v: cy.AParam(nm), s: "$_" + nm}
	case 6:
		return T{v: cy.Coalesce(cy.ASymbolic(nm), cy.LiteralOf(1)), s: "(coalesce() " + nm + " 1)"}
	case 7:
		return T{v: cy.ListOf(cy.LiteralOf(1), cy.ASymbolic(nm)), s: "(list 1 " + nm + ")"}
	case 8:
		return T{v: cy.MapOf("k", cy.LiteralOf(1)), s: "(map (k: 1))"}
	case 9:
		return T{v: cy.LiteralTrue(), s: "true"}
	case 10:
		return T{v: cy.GenericCaseExpression().When(cy.AProperty(nm, "p").IsNull().Get()).Then(cy.LiteralOf(1)), s: "(case _ (when (IS NULL (.p " + nm + ")) 1))"}
	case 11:
		return T{v: cy.CypherListWith(cy.ASymbolic("v")).In(cy.ASymbolic(nm)).ReturningDefault(), s: "(comp:v " + nm + " _ _)"}
	case 12:
		n := cy.AnyNodeNamed(nm)
		return T{v: n.HasLabels("L"), s: "(:L " + nm + ")", cond: true}
	case 13:
		return T{v: cy.ConditionsIsTrue(), s: "true", cond: true}
	case 14:
		return T{v: cy.PredicateExists(cy.AProperty(nm, "p")), s: "(exists() (.p " + nm + "))", cond: true}
	}
	panic("operand")
}

// checkTree reads the expression as the tree.
func (c *C) checkTree(t T) {
	s, err := cy.CypherReturning(t.v).Build()
	c.treeIn(s, err, 1, 0, t.s)
}

// treeIn reads the expression that starts at token pos and has to be followed by the given number of tokens.
func (c *C) treeIn(s cy.Statement, err error, pos, behind int, want string) {
	c.checks++
	text, err := render(s, err)
	if err != nil {
		c.Fail("unexpected error %v; expected %s", err, want)
		return
	}
	c.State(text)
	c.Log("=> %s", text)
	ts, err := Lex(text)
	if err != nil {
		c.Fail("text can not be read: %v: %q", err, text)
		return
	}
	n, next, err := parseExprAt(ts, pos)
	if err != nil {
		c.Fail("expression can not be read: %v: %q; expected %s", err, text, want)
		return
	}
	if next+behind != len(ts) {
		c.Fail("expression ends at token %d: %q; expected %s", next, text, want)
		return
	}
	if got := strings.ReplaceAll(n.String(), "IS_NOT", "IS NOT"); got != want {
		c.Fail("expression reads as %s instead of %s: %q", got, want, text)
	}
}

func opHarnesses() []*Harness {
	on := func(mode, i int) bool { return mode == 1 || mode == 2 && i%2 == 0 }
	return shared(1, []*Harness{
		{Prop: "C07", Name: "operators-over-operands", ShardDepth: 2,
			Rule: "every operator with every pair of 15 kinds of operands, called on values and on containers, and one more operator around it",
			Body: func(c *C) {
				m := c.Choose("on", 2)
				d := opdefs[c.Choose("operator", len(opdefs))]
				a := operandT(c.Choose("left", nOperands), 0)
				if !fits(d, a) {
					return
				}
				var b T
				if d.binary() {
					b = operandT(c.Choose("right", nOperands), 1)
					if d.kind == 5 && !b.cond {
						return
					}
				}
				t := apply(d, a, b, m == 1)
				k := c.Choose("around", len(opdefs)+1)
				if k < len(opdefs) {
					d := opdefs[k]
					if !fits(d, t) {
						return
					}
					o := operandT(12, 5)
					if d.kind != 5 {
						o = operandT(1, 5)
					}
					t = apply(d, t, o, m == 0)
				}
				c.checkTree(t)
			}},
		{Prop: "C07", Name: "trees-of-height-2", ShardDepth: 3,
			Rule: "all trees of height 2 over all 35 operators, called on values and on containers",
			Body: func(c *C) {
				m := c.Choose("on", 2)
				i := 0
				t, ok := c.tree(2, opdefs, &i, func() bool { return m == 1 })
				if ok {
					c.checkTree(t)
				}
			}},
		{Prop: "C07", Name: "trees-of-height-3", ShardDepth: 3,
			Rule: "all trees of height 3 over one operator of each class of binding (-, *, ^, =, IS NULL; thorough: also IN)",
			Body: func(c *C) {
				i := 0
				n := 0
				t, ok := c.tree(3, opdefs[:dep(5, 6)], &i, func() bool { n++; return n%2 == 0 })
				if ok {
					c.checkTree(t)
				}
			}},
		{Prop: "C07", Name: "spines", ShardDepth: 3,
			Rule: "all chains of 3 (thorough: 4) operators, each continuing on its left or its right operand, over all operators",
			Body: func(c *C) {
				t := operandT(1, 0)
				if c.Bool("condition") {
					t = operandT(12, 0)
				}
				for i, d := 0, dep(3, 4); i < d; i++ {
					k := c.Choose("operator", len(opdefs)+18)
					left := true
					if k >= len(opdefs) {
						k, left = binaryOps[k-len(opdefs)], false
					}
					d := opdefs[k]
					o := operandT(0, i+1)
					if d.kind == 5 {
						o = operandT(12, i+1)
					}
					if left {
						if !fits(d, t) {
							return
						}
						t = apply(d, t, o, on(2, i))
					} else {
						t = apply(d, o, t, on(2, i))
					}
				}
				c.checkTree(t)
			}},
		{Prop: "C07", Name: "long-spines", ShardDepth: 3,
			Rule: "every pair of operators and sides alternated 2..12 (thorough: 40) times",
			Body: func(c *C) {
				k1, k2 := c.Choose("first", 2*len(opdefs)), c.Choose("second", 2*len(opdefs))
				n := c.Choose("times", dep(4, 10))*3 + 2
				t := operandT(1, 0)
				for i := 0; i < n; i++ {
					k := k1
					if i%2 == 1 {
						k = k2
					}
					d := opdefs[k/2]
					if d.kind >= 4 || d.name == "IsEmpty" && t.op == "size()" {
						return
					}
					if k%2 == 1 {
						if !d.binary() {
							return
						}
						t = apply(d, operandT(0, i), t, i%3 == 0)
					} else {
						t = apply(d, t, operandT(0, i), i%3 == 0)
					}
				}
				c.checkTree(t)
			}},
		{Prop: "C07", Name: "trees-in-places", ShardDepth: 3,
			Rule: "all trees of height 2 over one operator of each class in 16 places: filters, SET, ORDER BY, UNWIND, call arguments, map and list entries, property values, CASE parts, list operators, comprehensions",
			Body: func(c *C) {
				place := c.Choose("place", nTreePlaces)
				i := 0
				m := 0
				t, ok := c.tree(2, opdefs[:dep(6, 12)], &i, func() bool { m++; return m%2 == 0 })
				if ok {
					c.treePlace(place, t)
				}
			}},
	}...)
}

var binaryOps = func() []int {
	var r []int
	for i, d := range opdefs {
		if d.kind < 2 {
			r = append(r, i)
		}
	}
	return r
}()

// tree makes any tree of at most the given height.
func (c *C) tree(h int, ops []opdef, i *int, on func() bool) (T, bool) {
	k := 0
	if h > 0 {
		k = c.Choose("tree", len(ops)+2)
	}
	if k == 0 {
		*i++
		return operandT(*i%2, *i), true
	}
	if k == len(ops)+1 {
		*i++
		return operandT(12, *i), true
	}
	d := ops[k-1]
	a, ok := c.tree(h-1, ops, i, on)
	if !ok || !fits(d, a) {
		return T{}, false
	}
	var b T
	if d.binary() {
		b, ok = c.tree(h-1, ops, i, on)
		if !ok || d.kind == 5 && (!b.cond || logical(b)) {
			return T{}, false
		}
	}
	if d.name == "IsEmpty" && a.op == "size()" {
		return T{}, false // has a text of its own
	}
	return apply(d, a, b, on()), true
}

const nTreePlaces = 16

// treePlace uses the expression in another place than RETURN.
func (c *C) treePlace(k int, t T) {
	z := cy.ASymbolic("z")
	n := cy.AnyNodeNamed("n")
	ret := func(e cy.Expression, want string) {
		s, err := cy.CypherReturning(e).Build()
		c.treeIn(s, err, 1, 0, want)
	}
	switch k {
	case 0:
		if cond, ok := t.v.(cy.Condition); ok && t.cond {
			s, err := cy.Match(n).Where(cond).Returning(z).Build()
			c.treeIn(s, err, 5, 2, t.s)
		}
	case 1:
		s, err := cy.Match(n).Set(cy.AProperty("n", "p"), t.v).Build()
		c.treeIn(s, err, 9, 0, t.s)
	case 2:
		s, err := cy.CypherReturning(z).OrderBy(t.v).Descending().Build()
		c.treeIn(s, err, 4, 1, t.s)
	case 3:
		s, err := cy.Unwind(t.v).As("u").Returning(z).Build()
		c.treeIn(s, err, 1, 4, t.s)
	case 4:
		s, err := cy.ACall("p").WithArgs(t.v).YieldString("y").Build()
		c.treeIn(s, err, 3, 3, t.s)
	case 5:
		ret(cy.MapOf("k", t.v, "l", z), "(map (k: "+t.s+") (l: z))")
	case 6:
		ret(cy.ListOf(t.v, z), "(list "+t.s+" z)")
	case 7:
		s, err := cy.Match(cy.AnyNode().WithRawProperties("k", t.v).NamedByString("n")).Returning(z).Build()
		c.treeIn(s, err, 6, 4, t.s)
	case 8:
		ret(cy.CaseExpression(z).When(t.v).Then(t.v).ElseDefault(t.v), "(case z (when "+t.s+" "+t.s+") (else "+t.s+"))")
	case 9:
		ret(cy.CypherValueAtByExpression(z, t.v), "(index z "+t.s+")")
	case 10:
		ret(cy.CypherSubListUntilByExpression(t.v, t.v), "(slice "+t.s+" _ "+t.s+")")
	case 11:
		ret(cy.CypherListWith(cy.ASymbolic("v")).In(t.v).Returning(t.v), "(comp:v "+t.s+" _ "+t.s+")")
	case 12:
		ret(cy.Coalesce(t.v, z, t.v), "(coalesce() "+t.s+" z "+t.s+")")
	case 13:
		s, err := cy.With(cy.AliasedExpressionCreate(t.v, "al")).Returning(z).Build()
		c.treeIn(s, err, 1, 4, t.s)
	case 14:
		ret(n.Project("k", t.v), "(project n (proj (k: "+t.s+")))")
	case 15:
		v := cy.PredicateAny("v").In(t.v).Where(cy.ConditionsIsTrue())
		ret(v, "(any:v "+t.s+" true)")
	}
}
