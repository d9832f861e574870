package main

// Statements that come back: one subquery at several places, next to and inside each other; and names that are used for
// several things at once.

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// sq is a statement and what it has to read as.
type sq struct {
	s  cy.Statement
	em Em
}

func (c *C) built(b interface {
	Build() (cy.Statement, error)
}, em Em) sq {
	s, err := b.Build()
	if err != nil {
		c.Fail("unexpected error %v", err)
	}
	return sq{s, em}
}

func (w *W) call(q sq) { w.kw("CALL"); w.sym("{"); q.em(w); w.sym("}") }

const nStmts = 12

// stmtOf makes one of some kinds of statements that return. Nodes are only matched where names can not be known before.
func (c *C) stmtOf(k int, g *condGen) sq {
	x := g.x(g.n % 2)
	ret := func(w *W) { w.kw("RETURN"); w.x(x) }
	switch k {
	case 0:
		return c.built(cy.CypherReturning(x.v), ret)
	case 1:
		v := propC(g.own("f"), "p", 3)
		n := newN("", []string{g.own("L")}, nil)
		return c.built(cy.Match(n.v).Where(v.v).Returning(x.v), func(w *W) { w.kw("MATCH"); w.n(n); w.where(v.f); ret(w) })
	case 2:
		in := c.stmtOf(0, g)
		return c.built(cy.ACallByStatement(in.s).Returning(x.v), func(w *W) { w.call(in); ret(w) })
	case 3:
		a, b := c.stmtOf(0, g), c.stmtOf(1, g)
		return sq{cy.Union(a.s, b.s), func(w *W) { a.em(w); w.kw("UNION"); b.em(w) }}
	case 4:
		p, y := g.own("p"), g.own("y")
		return c.built(cy.ACall(p).WithArgs(x.v).YieldString(y), func(w *W) {
			w.kw("CALL")
			w.name(p)
			w.sym("(")
			w.x(x)
			w.sym(")")
			w.kw("YIELD")
			w.name(y)
		})
	case 5:
		yn := g.own("y")
		y := xSym(yn)
		return c.built(cy.WithByString("m").Unwind(x.v).As(yn).ReturningDistinct(y.v).OrderBySortItem(cy.Sort(y.v).Descending()).Skip(1).Limit(2), func(w *W) {
			w.kw("WITH m UNWIND")
			w.x(x)
			w.kw("AS")
			w.x(y)
			w.kw("RETURN DISTINCT")
			w.x(y)
			w.kw("ORDER BY")
			w.x(y)
			w.kw("DESC SKIP")
			w.num(1)
			w.kw("LIMIT")
			w.num(2)
		})
	case 6:
		n := newN("", []string{g.own("E")}, nil)
		v := propC(g.own("f"), "p", 3)
		return c.built(cy.WithByString("m").Where(cy.Match(n.v).Where(v.v).AsCondition()).Returning(x.v), func(w *W) {
			w.kw("WITH m WHERE EXISTS")
			w.sym("{")
			w.kw("MATCH")
			w.n(n)
			w.where(v.f)
			w.sym("}")
			ret(w)
		})
	case 7:
		in, more := c.stmtOf(3, g), c.stmtOf(2, g)
		return c.built(cy.ACallByStatement(in.s).Call(more.s).Returning(x.v), func(w *W) { w.call(in); w.call(more); ret(w) })
	case 8:
		n := newN("", []string{g.own("M")}, nil)
		return c.built(cy.Merge(n.v).OnCreate().Set(cy.AProperty("m", "k"), x.v).OnMatch().Set(cy.AProperty("m", "l"), x.v).Returning(x.v), func(w *W) {
			w.kw("MERGE")
			w.n(n)
			w.kw("ON CREATE SET m")
			w.of("k")
			w.x(x)
			w.kw("ON MATCH SET m")
			w.of("l")
			w.x(x)
			ret(w)
		})
	case 9:
		a := g.own("a")
		return c.built(cy.CypherReturning(cy.AliasedExpressionCreate(x.v, a)), func(w *W) { w.kw("RETURN"); w.a(A{cy.AliasedExpression{}, x, a}) })
	case 10:
		in := c.stmtOf(2, g)
		in2 := sq{}
		in2 = c.built(cy.ACallByStatement(in.s).Returning(cy.AnAsterisk()), func(w *W) { w.call(in); w.kw("RETURN"); w.sym("*") })
		return c.built(cy.ACallByStatement(in2.s).Returning(x.v), func(w *W) { w.call(in2); ret(w) })
	}
	a, b := c.stmtOf(2, g), c.stmtOf(5, g)
	return sq{cy.UnionAll(a.s, b.s, a.s), func(w *W) { a.em(w); w.kw("UNION ALL"); b.em(w); w.kw("UNION ALL"); a.em(w) }}
}

func againHarnesses() []*Harness {
	return []*Harness{
		{Prop: "C22", Name: "one-subquery-in-many", ShardDepth: 3,
			Rule: "as many subqueries as in one-in-many, one of which is of each of 12 kinds (filters, procedures, unions, subqueries and unions below it, updates, existential subqueries), or of that kind and the very statement at the first, the last or the next position; one after the other, with other clauses between them, as members of a union, each inside the next",
			Body: func(c *C) {
				n, p := c.listSize()
				k := c.Choose("kind", nStmts)
				same := c.Choose("same", 4)
				how := c.Choose("how", 4)
				if how == 3 && n > 17 {
					return
				}
				if k == 9 && same > 0 {
					return // aliases that are known are looked at elsewhere
				}
				g := &condGen{}
				qs := make([]sq, n)
				for i := range qs {
					qs[i] = c.stmtOf(0, g)
				}
				qs[p] = c.stmtOf(k, g)
				if same > 0 {
					qs[[]int{0, n - 1, (p + 1) % n}[same-1]] = qs[p]
				}
				switch how {
				case 0:
					b := cy.ACallByStatement(qs[0].s)
					for _, q := range qs[1:] {
						b = b.Call(q.s)
					}
					s, err := b.Returning(cy.AnAsterisk()).Build()
					c.check(s, err, func(w *W) {
						for _, q := range qs {
							w.call(q)
						}
						w.kw("RETURN")
						w.sym("*")
					})
				case 1:
					b := cy.ACallByStatement(qs[0].s).WithByString("m")
					for i, q := range qs[1:] {
						if i%2 == 0 {
							b = b.Call(q.s).WithByString("m")
						} else {
							b = b.Unwind(cy.ASymbolic("m")).As(word(i)).Call(q.s).WithByString("m")
						}
					}
					s, err := b.Returning(cy.AnAsterisk()).Build()
					c.check(s, err, func(w *W) {
						for i, q := range qs {
							if i > 0 && i%2 == 0 {
								w.kw("UNWIND m AS")
								w.name(word(i - 1))
							}
							w.call(q)
							w.kw("WITH m")
						}
						w.kw("RETURN")
						w.sym("*")
					})
				case 2:
					var ms []cy.Statement
					for _, q := range qs {
						s, err := cy.ACallByStatement(q.s).Returning(cy.AnAsterisk()).Build()
						if err != nil {
							c.Fail("unexpected error %v", err)
							return
						}
						ms = append(ms, s)
					}
					c.check(cy.UnionAll(ms...), nil, func(w *W) {
						for i, q := range qs {
							if i > 0 {
								w.kw("UNION ALL")
							}
							w.call(q)
							w.kw("RETURN")
							w.sym("*")
						}
					})
				case 3:
					in := qs[0]
					for _, q := range qs[1:] {
						before, q := in, q
						in = c.built(cy.ACallByStatement(before.s).Call(q.s).Returning(cy.LiteralOf(1)), func(w *W) { w.call(before); w.call(q); w.kw("RETURN"); w.num(1) })
					}
					c.check(in.s, nil, in.em)
				}
			}},
		{Prop: "C16", Name: "yielded-names", ShardDepth: 2,
			Rule: "up to 3 (thorough: 4) yielded fields with every assignment of three names to the fields, their aliases, and an argument; standalone and in a query; returned, filtered and followed by a clause",
			Body: func(c *C) {
				k := 1 + c.Choose("fields", dep(3, 4))
				pool := []string{"a", "b", "p"}
				type field struct{ of, as string }
				var fs []field
				var vs []cy.AliasedExpression
				for i := 0; i < k; i++ {
					f := field{pool[c.Choose("field", 3)], pool[c.Choose("alias", 3)]}
					fs, vs = append(fs, f), append(vs, cy.AliasedExpressionCreate(cy.ASymbolic(f.of), f.as))
				}
				arg := cy.ASymbolic(pool[0])
				em := func(w *W) {
					w.kw("CALL p")
					w.sym("(")
					w.name("a")
					w.sym(")")
					w.kw("YIELD")
					for i, f := range fs {
						if i > 0 {
							w.sym(",")
						}
						w.name(f.of)
						w.kw("AS")
						w.name(f.as)
					}
				}
				v := propC("a", "b", 1)
				switch c.Choose("then", 4) {
				case 0:
					s, err := cy.ACall("p").WithArgs(arg).Yield(vs...).Build()
					c.check(s, err, em)
				case 1:
					s, err := cy.ACall("p").WithArgs(arg).Yield(vs...).Where(v.v).ReturningByString("a", "b").Build()
					c.check(s, err, func(w *W) { em(w); w.where(v.f); w.kw("RETURN a"); w.sym(","); w.kw("b") })
				case 2:
					s, err := cy.Match(nodeNamed("p")).Call1("p").WithArgs(arg).Yield(vs...).Where(v.v).ReturningByString("a").Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.sym("(")
						w.name("p")
						w.sym(")")
						em(w)
						w.where(v.f)
						w.kw("RETURN a")
					})
				case 3:
					s, err := cy.ACall("p").WithArgs(arg).Yield(vs...).WithByString("p", "a").Returning(cy.AnAsterisk()).Build()
					c.check(s, err, func(w *W) { em(w); w.kw("WITH p"); w.sym(","); w.kw("a RETURN"); w.sym("*") })
				}
			}},
		{Prop: "C13", Name: "aliases-and-names", ShardDepth: 2,
			Rule: "up to 3 (thorough: 4) items of RETURN or WITH with every assignment of three names to variable, property and alias (or none): an alias may be the name of anything",
			Body: func(c *C) {
				k := 1 + c.Choose("items", dep(3, 4))
				pool := []string{"a", "b", "p"}
				var vs []cy.Expression
				var ems []Em
				for i := 0; i < k; i++ {
					var x X
					n := pool[c.Choose("variable", 3)]
					if m := c.Choose("property", 3); m > 0 {
						x = xProp(n, pool[m-1])
					} else {
						x = xSym(n)
					}
					if m := c.Choose("alias", 4); m > 0 {
						a := A{cy.AliasedExpressionCreate(x.v, pool[m-1]), x, pool[m-1]}
						vs, ems = append(vs, a.v), append(ems, func(w *W) { w.a(a) })
					} else {
						vs, ems = append(vs, x.v), append(ems, func(w *W) { w.x(x) })
					}
				}
				list := func(w *W) {
					for i, em := range ems {
						if i > 0 {
							w.sym(",")
						}
						em(w)
					}
				}
				switch c.Choose("clause", 3) {
				case 0:
					s, err := cy.CypherReturning(vs...).Build()
					c.check(s, err, func(w *W) { w.kw("RETURN"); list(w) })
				case 1:
					s, err := cy.Match(nodeNamed("a"), nodeNamed("b")).With(vs...).Returning(vs...).Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.sym("(")
						w.name("a")
						w.sym(")", ",", "(")
						w.name("b")
						w.sym(")")
						w.kw("WITH")
						list(w)
						w.kw("RETURN")
						list(w)
					})
				case 2:
					in, err := cy.Match(nodeNamed("m")).WithDistinct(vs...).Returning(cy.AnAsterisk()).Build()
					if err != nil {
						c.Fail("unexpected error %v", err)
						return
					}
					s, err := cy.ACallByStatement(in).Returning(vs...).Build()
					c.check(s, err, func(w *W) {
						w.kw("CALL")
						w.sym("{")
						w.kw("MATCH")
						w.m()
						w.kw("WITH DISTINCT")
						list(w)
						w.kw("RETURN")
						w.sym("*", "}")
						w.kw("RETURN")
						list(w)
					})
				}
			}},
	}
}
