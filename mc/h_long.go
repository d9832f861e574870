package main

// C01: a process that has built and rendered a great many statements.

import (
	"fmt"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// filler builds a statement in which everything that is named or written down contains the number.
func filler(k, id int) (cy.Statement, error) {
	d := fmt.Sprint(id)
	switch k {
	case 0:
		n := cy.ANode("L"+d).NamedByString("n"+d).WithRawProperties("k"+d, cy.LiteralOf("s"+d))
		r := n.RelationshipTo(cy.AnyNodeNamed("m"+d), "T"+d).NamedByString("r" + d).Max(id)
		return cy.Match(r).Where(n.Property("p"+d).IsEqualTo(cy.AParam("q"+d)).Get()).
			With(n.Property("x"+d).As("a"+d).Get()).
			Returning(cy.ASymbolic("a"+d), cy.LiteralOf(id), cy.MapOf("k"+d, cy.LiteralOf("t"+d))).
			OrderBy(cy.ASymbolic("a" + d)).Descending().Skip(id).Limit(id).Build()
	case 1:
		n := cy.AnyNodeNamed("n o" + d)
		return cy.ACall("db"+d, "p"+d).WithArgs(cy.LiteralOf("it's "+d)).YieldString("y`"+d).
			Where(cy.ASymbolic("y`"+d).IsNotNull().Get()).
			Merge(n).OnCreate().Set(n.Property("a b"+d), cy.LiteralOf(id)).
			Returning(cy.ListOf(cy.LiteralOf(id), cy.LiteralOf("l"+d)), n.Project("k"+d, "l m"+d)).Build()
	case 2:
		cs := cy.CaseExpression(cy.ASymbolic("c" + d)).When(cy.LiteralOf(id)).Then(cy.LiteralOf("r" + d)).ElseDefault(cy.LiteralOf(false))
		lc := cy.CypherListWith(cy.ASymbolic("i" + d)).In(cy.AProperty("z"+d, "w"+d)).Where(cy.ASymbolic("i" + d).Gt(cy.LiteralOf(id)).Get()).ReturningDefault()
		return cy.CypherReturning(cy.AliasedExpressionCreate(cs, "cs"+d), lc, cy.Coalesce(cy.ASymbolic("f"+d), cy.LiteralOf(id))).Build()
	}
	e := cy.LiteralOf("e" + d)
	return cy.Unwind(e).As("u"+d).Create(cy.ANode("X "+d)).Set(cy.AProperty("u"+d, "v"+d), e).Delete(cy.ASymbolic("u" + d)).Build()
}

var filled = 0

const firstFiller = 1000001

func longHistories() *Harness {
	return &Harness{Prop: "C01", Name: "long-histories", ShardDepth: 2,
		Rule: "after 10^k (k = 1 to 4; thorough: to 5) and 2^k (k = 3 to 14; thorough: to 18) statements with names, strings and numbers that did not occur before, each of which has to be like the first one: every program (every type that can be reached, kinds of fragments) against itself in a process of its own, and the first of those statements again, with the same and with a new renderer",
		Body: func(c *C) {
			var ks []int
			for k, p := 3, 8; k <= dep(14, 18); k, p = k+1, 2*p {
				ks = append(ks, p)
			}
			for k, p := 1, 10; k <= dep(4, 5); k, p = k+1, 10*p {
				ks = append(ks, p)
			}
			n := ks[c.Choose("statements before", len(ks))]
			shared := c.Bool("one renderer for all")
			r := cy.NewRenderer()
			show := func(s cy.Statement, err error) string {
				if err != nil {
					return "error: " + err.Error()
				}
				if !shared {
					r = cy.NewRenderer()
				}
				t, err := r.Render(s)
				if err != nil {
					return "error: " + err.Error()
				}
				return t
			}
			c.Log("%d statements, all different", n)
			first := firstFiller + filled
			var firsts [4]string
			var stmts [4]cy.Statement
			for i := 0; i < n; i++ {
				id := firstFiller + filled
				filled++
				for k := 0; k < 4; k++ {
					s, err := filler(k, id)
					t := show(s, err)
					if i == 0 {
						firsts[k], stmts[k] = t, s
						c.checks++
						if strings.HasPrefix(t, "error") {
							c.Fail("statement %d: %s", k, t)
							return
						}
						continue
					}
					c.checks++
					if want := strings.ReplaceAll(firsts[k], fmt.Sprint(first), fmt.Sprint(id)); t != want {
						c.Fail("statement %d of kind %d is %q instead of %q", i+1, k, t, want)
						return
					}
				}
			}
			for k := range firsts {
				c.same("the first statement, rendered again,", show(stmts[k], nil), firsts[k])
				c.same("the first statement, built and rendered again,", show(filler(k, first)), firsts[k])
			}
			histMemo()
			for i := len(histAllMemo) - len(typeReps); i < len(histAllMemo); i++ {
				want, ok := aloneMemo[i]
				if !ok {
					want = soloProcess(i)
					aloneMemo[i] = want
				}
				c.same("the program "+histAllMemo[i].String(), histText(histAllMemo[i]), want)
			}
		}}
}
