package main

// Long lists of which one element differs: everything that takes many of something, with every kind of element at every position.

import (
	"math"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type exprList struct {
	prop, name string
	mk         func(xs []X) stmt
}

func interfaces(xs []X) []interface{} {
	var r []interface{}
	for _, x := range xs {
		r = append(r, x.v)
	}
	return r
}

// keyed gives the expressions keys.
func keyed(xs []X) []KV {
	var r []KV
	for i, x := range xs {
		r = append(r, KV{word(i), x})
	}
	return r
}

// assigned are operands of SET: a property of m for each expression.
func assigned(xs []X) ([]cy.Expression, Em) {
	var vs []cy.Expression
	for i, x := range xs {
		vs = append(vs, cy.AProperty("m", word(i)), x.v)
	}
	return vs, func(w *W) {
		for i, x := range xs {
			if i > 0 {
				w.sym(",")
			}
			w.name("m")
			w.sym(".")
			w.name(word(i))
			w.sym("=")
			w.x(x)
		}
	}
}

// equations are conditions, one for each expression.
func equations(xs []X) []Cn {
	var r []Cn
	for i, x := range xs {
		i, x := i, x
		r = append(r, atomC(cy.AProperty("m", word(i)).IsEqualTo(x.v).Get(), func(w *W) {
			w.name("m")
			w.sym(".")
			w.name(word(i))
			w.sym("=")
			w.open()
			w.x(x)
			w.close()
		}))
	}
	return r
}

// m is the node m in a pattern.
func (w *W) m() { w.sym("("); w.name("m"); w.sym(")") }

// of goes on with the assignment to a property.
func (w *W) of(s string) { w.sym("."); w.name(s); w.sym("=") }

func aliasedAll(xs []X) ([]A, []cy.Expression) {
	var as []A
	var vs []cy.Expression
	for i, x := range xs {
		a := A{cy.AliasedExpressionCreate(x.v, word(i)), x, word(i)}
		as, vs = append(as, a), append(vs, a.v)
	}
	return as, vs
}

func (w *W) as(as []A) {
	for i, a := range as {
		if i > 0 {
			w.sym(",")
		}
		w.a(a)
	}
}

// exprLists is everything that takes any number of expressions.
var exprLists = []exprList{
	{"C04", "list", func(xs []X) stmt {
		return retS(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") })
	}},
	{"C04", "unwind", func(xs []X) stmt {
		return mkS(cy.Unwind(cy.ListOf(vals(xs)...)).As("m").Returning(xSym("m").v), func(w *W) {
			w.kw("UNWIND")
			w.sym("[")
			w.xs(xs)
			w.sym("]")
			w.kw("AS m RETURN m")
		})
	}},
	{"C04", "unwinds", func(xs []X) stmt {
		b := cy.Unwind(xs[0].v).As(word(0))
		for i, x := range xs[1:] {
			b = b.Unwind(x.v).As(word(i + 1))
		}
		return mkS(b.Returning(cy.AnAsterisk()), func(w *W) {
			for i, x := range xs {
				w.kw("UNWIND")
				w.x(x)
				w.kw("AS")
				w.name(word(i))
			}
			w.kw("RETURN")
			w.sym("*")
		})
	}},
	{"C19", "coalesce", func(xs []X) stmt { return retS(cy.Coalesce(vals(xs)...), fnEm("coalesce", xs...)) }},
	{"C19", "function", func(xs []X) stmt {
		return retS(cy.ACall("f").WithArgs(vals(xs)...).AsFunction(), fnEm("f", xs...))
	}},
	{"C19", "functions", func(xs []X) stmt {
		b := cy.Expression(cy.CountByExpression(xs[0].v))
		em := fnEm("count", xs[0])
		for i, x := range xs[1:] {
			x, in := x, mkX(b, em)
			switch i % 3 {
			case 0:
				b, em = cy.Coalesce(b, x.v), fnEm("coalesce", in, x)
			case 1:
				b, em = cy.Coalesce(x.v, b), fnEm("coalesce", x, in)
			case 2:
				b, em = cy.RangeWithStep(b, x.v, in.v), fnEm("range", in, x, in)
				if len(xs) > 12 {
					b, em = cy.Range(in.v, x.v), fnEm("range", in, x)
				}
			}
		}
		return retS(b, em)
	}},
	{"C14", "items", func(xs []X) stmt {
		return mkS(cy.Match(nodeNamed("m")).Returning(vals(xs)...), func(w *W) { w.kw("MATCH"); w.m(); w.kw("RETURN"); w.xs(xs) })
	}},
	{"C14", "distinct items", func(xs []X) stmt {
		return mkS(cy.Match(nodeNamed("m")).ReturningDistinct(vals(xs)...).Skip(1).Limit(2), func(w *W) {
			w.kw("MATCH")
			w.m()
			w.kw("RETURN DISTINCT")
			w.xs(xs)
			w.kw("SKIP")
			w.num(1)
			w.kw("LIMIT")
			w.num(2)
		})
	}},
	{"C14", "with items", func(xs []X) stmt {
		as, vs := aliasedAll(xs)
		return mkS(cy.With(vs...).Returning(cy.AnAsterisk()), func(w *W) { w.kw("WITH"); w.as(as); w.kw("RETURN"); w.sym("*") })
	}},
	{"C14", "order", func(xs []X) stmt {
		var ss []cy.SortItem
		for i, x := range xs {
			switch i % 3 {
			case 0:
				ss = append(ss, cy.Sort(x.v).Descending())
			case 1:
				ss = append(ss, cy.Sort(x.v))
			case 2:
				ss = append(ss, cy.Sort(x.v).Ascending())
			}
		}
		return mkS(cy.CypherReturning(cy.AnAsterisk()).OrderBySortItem(ss...).Limit(1), func(w *W) {
			w.kw("RETURN")
			w.sym("*")
			w.kw("ORDER BY")
			for i, x := range xs {
				if i > 0 {
					w.sym(",")
				}
				w.x(x)
				w.kw([]string{"DESC", "", "ASC"}[i%3])
			}
			w.kw("LIMIT")
			w.num(1)
		})
	}},
	{"C14", "order one by one", func(xs []X) stmt {
		b := cy.CypherReturning(cy.AnAsterisk()).OrderBy(xs[0].v)
		var f interface {
			Build() (cy.Statement, error)
		} = b
		for _, x := range xs[1:] {
			d := b.Descending()
			f = d.And(x.v).Ascending()
			b = d.And(x.v)
		}
		if len(xs) == 1 {
			f = b.Ascending()
		}
		return mkS(f, func(w *W) {
			w.kw("RETURN")
			w.sym("*")
			w.kw("ORDER BY")
			for i, x := range xs {
				if i > 0 {
					w.sym(",")
				}
				w.x(x)
				if i+1 < len(xs) {
					w.kw("DESC")
				} else {
					w.kw("ASC")
				}
			}
		})
	}},
	{"C13", "aliases", func(xs []X) stmt {
		as, vs := aliasedAll(xs)
		return mkS(cy.With(vs...).Returning(vs...), func(w *W) { w.kw("WITH"); w.as(as); w.kw("RETURN"); w.as(as) })
	}},
	{"C13", "aliases backwards", func(xs []X) stmt {
		as, vs := aliasedAll(xs)
		var bs []A
		var us []cy.Expression
		for i := range as {
			bs, us = append(bs, as[len(as)-1-i]), append(us, vs[len(as)-1-i])
		}
		return mkS(cy.With(vs...).Returning(us...), func(w *W) { w.kw("WITH"); w.as(as); w.kw("RETURN"); w.as(bs) })
	}},
	{"C16", "arguments", func(xs []X) stmt {
		return mkS(cy.ACall("f").WithArgs(vals(xs)...).YieldString("y").ReturningByString("y"), func(w *W) {
			fnEm("CALL f", xs...)(w)
			w.kw("YIELD y RETURN y")
		})
	}},
	{"C16", "arguments in query", func(xs []X) stmt {
		return mkS(cy.Match(nodeNamed("m")).Call1("a", "b").WithArgs(vals(xs)...).YieldString("y").ReturningByString("y"), func(w *W) {
			w.kw("MATCH")
			w.m()
			w.kw("CALL a")
			w.sym(".")
			fnEm("b", xs...)(w)
			w.kw("YIELD y RETURN y")
		})
	}},
	{"C21", "set", func(xs []X) stmt {
		vs, em := assigned(xs)
		return mkS(cy.Match(nodeNamed("m")).Set(vs...), func(w *W) { w.kw("MATCH"); w.m(); w.kw("SET"); em(w) })
	}},
	{"C21", "set on create", func(xs []X) stmt {
		vs, em := assigned(xs)
		return mkS(cy.Merge(nodeNamed("m")).OnCreate().Set(vs...).OnMatch().Set(cy.AProperty("m", "z"), cy.LiteralOf(1)), func(w *W) {
			w.kw("MERGE")
			w.m()
			w.kw("ON CREATE SET")
			em(w)
			w.kw("ON MATCH SET m")
			w.of("z")
			w.num(1)
		})
	}},
	{"C21", "set on match", func(xs []X) stmt {
		vs, em := assigned(xs)
		return mkS(cy.Merge(nodeNamed("m")).OnCreate().Set(cy.AProperty("m", "z"), cy.LiteralOf(1)).OnMatch().Set(vs...), func(w *W) {
			w.kw("MERGE")
			w.m()
			w.kw("ON CREATE SET m")
			w.of("z")
			w.num(1)
			w.kw("ON MATCH SET")
			em(w)
		})
	}},
	{"C21", "set operations", func(xs []X) stmt {
		_, em := assigned(xs)
		var vs []cy.Expression
		for i, x := range xs {
			vs = append(vs, cy.AProperty("m", word(i)).To(x.v))
		}
		return mkS(cy.Create(nodeNamed("m")).Set(vs...).ReturningByString("m"), func(w *W) {
			w.kw("CREATE")
			w.m()
			w.kw("SET")
			em(w)
			w.kw("RETURN m")
		})
	}},
	{"C21", "set in turn", func(xs []X) stmt {
		b := cy.Merge(nodeNamed("m")).OnMatch().Set(cy.AProperty("m", word(0)), xs[0].v)
		for i, x := range xs[1:] {
			if i%2 == 0 {
				b = b.OnCreate().Set(cy.AProperty("m", word(i+1)), x.v)
			} else {
				b = b.OnMatch().Set(cy.AProperty("m", word(i+1)), x.v)
			}
		}
		return mkS(b, func(w *W) {
			w.kw("MERGE")
			w.m()
			for i, x := range xs {
				if i%2 == 0 {
					w.kw("ON MATCH SET m")
				} else {
					w.kw("ON CREATE SET m")
				}
				w.sym(".")
				w.name(word(i))
				w.sym("=")
				w.x(x)
			}
		})
	}},
	{"C21", "delete", func(xs []X) stmt {
		return mkS(cy.Match(nodeNamed("m")).DetachDelete(vals(xs)...), func(w *W) { w.kw("MATCH"); w.m(); w.kw("DETACH DELETE"); w.xs(xs) })
	}},
	{"C18", "map", func(xs []X) stmt {
		return retS(cy.MapOf(kvArgs(keyed(xs))...), func(w *W) { w.mapOf(keyed(xs)) })
	}},
	{"C18", "added entries", func(xs []X) stmt {
		m := cy.MapOf(word(0), xs[0].v)
		var es []cy.Expression
		for i, x := range xs[1:] {
			es = append(es, cy.EntryExpressionCreate(word(i+1), x.v))
		}
		return retS(m.AddEntries(es[:len(es)/2]).AddEntries(es[len(es)/2:]), func(w *W) { w.mapOf(keyed(xs)) })
	}},
	{"C18", "projection", func(xs []X) stmt {
		return retS(nodeNamed("m").Project(kvArgs(keyed(xs))...), func(w *W) { w.name("m"); w.mapOf(keyed(xs)) })
	}},
	{"C18", "projection in steps", func(xs []X) stmt {
		p := nodeNamed("m").Project(word(0), xs[0].v)
		for i, x := range xs[1:] {
			p = p.And(word(i+1), x.v)
		}
		return retS(p, func(w *W) { w.name("m"); w.mapOf(keyed(xs)) })
	}},
	{"C11", "node properties", func(xs []X) stmt {
		n := newN("m", []string{"L"}, keyed(xs))
		return mkS(cy.Match(n.v, n.v).ReturningByNamed(n.v), func(w *W) { w.kw("MATCH"); w.n(n); w.sym(","); w.n(n); w.kw("RETURN m") })
	}},
	{"C12", "relationship properties", func(xs []X) stmt {
		r := newR(mkN("", nil, nil), 1, mkN("", nil, nil), []string{"T"})
		r.v, r.props = r.v.WithRawProperties(kvArgs(keyed(xs))...).NamedByString("m"), keyed(xs)
		r.name = "m"
		return mkS(cy.Match(r.v).ReturningByNamed(r.v), func(w *W) { w.kw("MATCH"); w.r(r); w.kw("RETURN m") })
	}},
	{"C12", "properties in a chain", func(xs []X) stmt {
		a := newN("", nil, nil)
		r := newR(a, 0, a, []string{"T"})
		r.v, r.props = r.v.WithRawProperties("k", xs[0].v), []KV{{"k", xs[0]}}
		rs := []R{r}
		ch := cy.RelationshipChainCreate(r.v)
		for i, x := range xs[1:] {
			ch = ch.RelationshipBetween(a.v, word(i)).PropertiesRaw("k", x.v)
			rs = append(rs, R{l: a, r: a, dir: 2, types: []string{word(i)}, props: []KV{{"k", x}}})
		}
		return mkS(cy.Match(ch).Returning(cy.AnAsterisk()), func(w *W) { w.kw("MATCH"); w.ch(Ch{rs: rs}); w.kw("RETURN"); w.sym("*") })
	}},
	{"C11", "properties of many nodes", func(xs []X) stmt {
		var ns []P
		for i, x := range xs {
			ns = append(ns, newN(word(i), nil, []KV{{"k", x}}).p())
		}
		return mkS(cy.Create(pvals(ns)...), func(w *W) { w.kw("CREATE"); w.ps(ns) })
	}},
	{"C17", "case values", func(xs []X) stmt {
		b := cy.CaseExpression(xSym("m").v).When(xs[0].v).Then(cy.LiteralOf(0))
		for i, x := range xs[1:] {
			b = b.When(x.v).Then(cy.LiteralOf(i + 1))
		}
		return retS(b, func(w *W) {
			w.kw("CASE m")
			for i, x := range xs {
				w.kw("WHEN")
				w.x(x)
				w.kw("THEN")
				w.num(i)
			}
			w.kw("END")
		})
	}},
	{"C17", "case results", func(xs []X) stmt {
		c := equations(manySyms(len(xs)))
		b := cy.GenericCaseExpression().When(c[0].v).Then(xs[0].v)
		for i, x := range xs[1:] {
			b = b.When(c[i+1].v).Then(x.v)
		}
		return retS(b.ElseDefault(xs[0].v), func(w *W) {
			w.kw("CASE")
			for i, x := range xs {
				w.kw("WHEN")
				w.cond(c[i].f)
				w.kw("THEN")
				w.x(x)
			}
			w.kw("ELSE")
			w.x(xs[0])
			w.kw("END")
		})
	}},
	{"C17", "case conditions", func(xs []X) stmt {
		c := equations(xs)
		b := cy.GenericCaseExpression().When(c[0].v).Then(cy.LiteralOf(0))
		for i := range xs[1:] {
			b = b.When(c[i+1].v).Then(cy.LiteralOf(i + 1))
		}
		return retS(b, func(w *W) {
			w.kw("CASE")
			for i := range xs {
				w.kw("WHEN")
				w.cond(c[i].f)
				w.kw("THEN")
				w.num(i)
			}
			w.kw("END")
		})
	}},
	{"C20", "comprehension of many", func(xs []X) stmt {
		return retS(cy.CypherListWith(cy.ASymbolic("v")).In(cy.ASymbolic("m")).Returning(vals(xs)...), func(w *W) {
			w.sym("[")
			w.kw("v IN m")
			w.sym("|")
			if len(xs) > 1 {
				w.sym("[")
			}
			w.xs(xs)
			if len(xs) > 1 {
				w.sym("]")
			}
			w.sym("]")
		})
	}},
	{"C20", "pattern comprehension of many", func(xs []X) stmt {
		r := newR(mkN("", nil, nil), 0, newN("v", nil, nil), []string{"T"})
		return retS(cy.ListBasedOn(r.v).Returning(vals(xs)...), func(w *W) {
			w.sym("[")
			w.r(r)
			w.sym("|")
			if len(xs) > 1 {
				w.sym("[")
			}
			w.xs(xs)
			if len(xs) > 1 {
				w.sym("]")
			}
			w.sym("]")
		})
	}},
	{"C20", "filter of a comprehension", func(xs []X) stmt {
		v := equations(xs)
		c, f := v[0].v, v[0].f
		for _, o := range v[1:] {
			c, f = cy.ConditionWrap(c).And(o.v).Get(), fBin("and", f, o.f)
		}
		return retS(cy.CypherListWith(cy.ASymbolic("v")).In(cy.ASymbolic("m")).Where(c).ReturningDefault(), func(w *W) {
			w.sym("[")
			w.kw("v IN m WHERE")
			w.cond(f)
			w.sym("]")
		})
	}},
	{"C06", "all of", func(xs []X) stmt {
		v := equations(xs)
		b := cy.Match(nodeNamed("m")).Where(v[0].v)
		f := v[0].f
		for _, o := range v[1:] {
			b, f = b.And(o.v), fBin("and", f, o.f)
		}
		return mkS(b.ReturningByString("m"), func(w *W) { w.kw("MATCH"); w.m(); w.where(f); w.kw("RETURN m") })
	}},
	{"C06", "one of", func(xs []X) stmt {
		v := equations(xs)
		c, f := v[0].v, v[0].f
		for _, o := range v[1:] {
			c, f = cy.ConditionWrap(c).Or(o.v).Get(), fBin("or", f, o.f)
		}
		return mkS(cy.Match(nodeNamed("m")).Where(cy.ConditionsNot(c)).ReturningByString("m"), func(w *W) {
			w.kw("MATCH")
			w.m()
			w.where(fNot(f))
			w.kw("RETURN m")
		})
	}},
	{"C07", "sum", func(xs []X) stmt {
		x := xs[0]
		for _, y := range xs[1:] {
			x = sumOf(x, y)
		}
		return retS(x.v, func(w *W) { w.x(x) })
	}},
	{"C07", "sum to the right", func(xs []X) stmt {
		x := xs[len(xs)-1]
		for i := len(xs) - 2; i >= 0; i-- {
			x = sumOf(xs[i], x)
		}
		return retS(x.v, func(w *W) { w.x(x) })
	}},
	{"C15", "union", func(xs []X) stmt {
		var ss []cy.Statement
		for _, x := range xs {
			s, err := cy.CypherReturning(x.v).Build()
			if err != nil {
				return stmt{s, err, func(w *W) {}}
			}
			ss = append(ss, s)
		}
		u := cy.UnionAll(ss...)
		return stmt{u, u.GetError(), func(w *W) {
			for i, x := range xs {
				if i > 0 {
					w.kw("UNION ALL")
				}
				w.kw("RETURN")
				w.x(x)
			}
		}}
	}},
	{"C15", "union of queries", func(xs []X) stmt {
		c := equations(xs)
		var ss []cy.Statement
		for i := range xs {
			s, err := cy.Match(nodeNamed("m").NamedByString(word(i))).Where(c[i].v).Returning(cy.AnAsterisk()).OrderBySortItem(cy.Sort(xSym("m").v)).Limit(i + 1).Build()
			if err != nil {
				return stmt{s, err, func(w *W) {}}
			}
			ss = append(ss, s)
		}
		u := cy.Union(ss...)
		return stmt{u, u.GetError(), func(w *W) {
			for i := range xs {
				if i > 0 {
					w.kw("UNION")
				}
				w.kw("MATCH")
				w.sym("(")
				w.name(word(i))
				w.sym(")")
				w.where(c[i].f)
				w.kw("RETURN")
				w.sym("*")
				w.kw("ORDER BY m LIMIT")
				w.num(i + 1)
			}
		}}
	}},
	{"C22", "subqueries in turn", func(xs []X) stmt {
		b := cy.OngoingReadingWithoutWhere(cy.Match(nodeNamed("m")))
		for _, x := range xs {
			s, err := cy.CypherReturning(x.v).Build()
			if err != nil {
				return stmt{s, err, func(w *W) {}}
			}
			b = b.Call(s)
		}
		return mkS(b.ReturningByString("m"), func(w *W) {
			w.kw("MATCH")
			w.m()
			for _, x := range xs {
				w.kw("CALL")
				w.sym("{")
				w.kw("RETURN")
				w.x(x)
				w.sym("}")
			}
			w.kw("RETURN m")
		})
	}},
	{"C22", "subqueries in subqueries", func(xs []X) stmt {
		s, err := cy.CypherReturning(xs[len(xs)-1].v).Build()
		for i := len(xs) - 2; i >= 0 && err == nil; i-- {
			s, err = cy.ACallByStatement(s).Returning(xs[i].v).Build()
		}
		return stmt{s, err, func(w *W) {
			for range xs[1:] {
				w.kw("CALL")
				w.sym("{")
			}
			for i := len(xs) - 1; i >= 0; i-- {
				w.kw("RETURN")
				w.x(xs[i])
				if i > 0 {
					w.sym("}")
				}
			}
		}}
	}},
	{"C22", "existential subqueries", func(xs []X) stmt {
		v := equations(xs)
		e := func(i int) (cy.Condition, Em) {
			n := nodeNamed(word(i))
			return cy.Match(n).Where(v[i].v).AsCondition(), func(w *W) {
				w.kw("EXISTS")
				w.sym("{")
				w.kw("MATCH")
				w.sym("(")
				w.name(word(i))
				w.sym(")")
				w.where(v[i].f)
				w.sym("}")
			}
		}
		c, em := e(0)
		f := &Form{op: "atom", em: em}
		b := cy.Match(nodeNamed("m")).Where(c)
		for i := range xs[1:] {
			c, em := e(i + 1)
			b, f = b.And(c), fBin("and", f, &Form{op: "atom", em: em})
		}
		return mkS(b.ReturningByString("m"), func(w *W) { w.kw("MATCH"); w.m(); w.where(f); w.kw("RETURN m") })
	}},
	{"C24", "filters", func(xs []X) stmt {
		v := equations(xs)
		b := cy.OngoingReadingWithWhere(cy.Match(nodeNamed("m")).Where(v[0].v))
		for i := range xs[1:] {
			if i%2 == 0 {
				b = b.OptionalMatch(nodeNamed(word(i))).Where(v[i+1].v)
			} else {
				b = b.Match(nodeNamed(word(i))).Where(v[i+1].v)
			}
		}
		return mkS(b.ReturningByString("m"), func(w *W) {
			for i := range xs {
				if i%2 == 1 {
					w.kw("OPTIONAL")
				}
				w.kw("MATCH")
				w.sym("(")
				if i == 0 {
					w.name("m")
				} else {
					w.name(word(i - 1))
				}
				w.sym(")")
				w.where(v[i].f)
			}
			w.kw("RETURN m")
		})
	}},
	{"C24", "filter after many", func(xs []X) stmt {
		as, vs := aliasedAll(xs)
		v := equations(xs)
		var ns []P
		for i := range xs {
			ns = append(ns, newN(word(i+500), nil, nil).p())
		}
		l := v[len(v)-1]
		return mkS(cy.Match(pvals(ns)...).Where(v[0].v).OptionalMatch(pvals(ns)...).Where(l.v).With(vs...).Where(cy.ASymbolic("m").IsNull().Get()).Returning(vals(xs)...), func(w *W) {
			w.kw("MATCH")
			w.ps(ns)
			w.where(v[0].f)
			w.kw("OPTIONAL MATCH")
			w.ps(ns)
			w.where(l.f)
			w.kw("WITH")
			w.as(as)
			w.kw("WHERE m IS NULL RETURN")
			w.xs(xs)
		})
	}},
}

func manySyms(n int) []X {
	var r []X
	for i := 0; i < n; i++ {
		r = append(r, xSym(word(i+900)))
	}
	return r
}

func sumOf(x, y X) X {
	return mkX(x.v.Add(y.v).Get(), func(w *W) { w.sym("("); w.x(x); w.sym("+"); w.x(y); w.sym(")") })
}

// rawLists take values that become literals.
var rawLists = []func(xs []X, raw []interface{}) stmt{
	func(xs []X, raw []interface{}) stmt {
		return retS(cy.ListOfRaw(raw...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") })
	},
	func(xs []X, raw []interface{}) stmt {
		return retS(cy.LiteralOf(literals(xs)), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") })
	},
	func(xs []X, raw []interface{}) stmt {
		return retS(cy.LiteralOf([]cy.Literal{cy.LiteralOf(literals(xs)), cy.LiteralOf(literals(xs))}), func(w *W) {
			w.sym("[", "[")
			w.xs(xs)
			w.sym("]", ",", "[")
			w.xs(xs)
			w.sym("]", "]")
		})
	},
	func(xs []X, raw []interface{}) stmt {
		return retS(cy.MapOf(rawKeyed(raw)...), func(w *W) { w.mapOf(keyed(xs)) })
	},
	func(xs []X, raw []interface{}) stmt {
		n := N{cy.ANode("L").WithRawProperties(rawKeyed(raw)...).NamedByString("m"), nextID(), "m", []string{"L"}, keyed(xs)}
		return mkS(cy.Match(n.v).ReturningByNamed(n.v), func(w *W) { w.kw("MATCH"); w.n(n); w.kw("RETURN m") })
	},
	func(xs []X, raw []interface{}) stmt {
		r := newR(mkN("", nil, nil), 0, mkN("", nil, nil), []string{"T"})
		r.v, r.props = r.v.WithRawProperties(rawKeyed(raw)...), keyed(xs)
		return mkS(cy.Create(r.v), func(w *W) { w.kw("CREATE"); w.r(r) })
	},
}

func literals(xs []X) []cy.Literal {
	var r []cy.Literal
	for _, x := range xs {
		r = append(r, x.v.(cy.Literal))
	}
	return r
}

func rawKeyed(raw []interface{}) []interface{} {
	var r []interface{}
	for i, v := range raw {
		r = append(r, word(i), v)
	}
	return r
}

// listSize chooses the length of a list and a position in it.
func (c *C) listSize() (n, p int) {
	var ns []int
	for i := 2; i <= dep(17, 34); i++ {
		ns = append(ns, i)
	}
	if thorough() {
		ns = append(ns, 63, 64, 65, 127, 128, 129, 255, 256, 257)
	} else {
		ns = append(ns, 32, 33, 34, 64, 65, 128, 129)
	}
	n = ns[c.Choose("length", len(ns))]
	if n <= dep(17, 65) {
		return n, c.Choose("place in the list", n)
	}
	ps := []int{0, 1, n / 2, n - 2, n - 1}
	return n, ps[c.Choose("place in the list", len(ps))]
}

func listsOf(prop string) []exprList {
	var r []exprList
	for _, l := range exprLists {
		if l.prop == prop {
			r = append(r, l)
		}
	}
	return r
}

func listHarnesses() []*Harness {
	var r []*Harness
	seen := map[string]bool{}
	for _, l := range exprLists {
		if seen[l.prop] {
			continue
		}
		seen[l.prop] = true
		ls := listsOf(l.prop)
		var names []string
		for _, l := range ls {
			names = append(names, l.name)
		}
		prop := l.prop
		r = append(r, &Harness{Prop: prop, Name: "one-in-many-" + prop, ShardDepth: 3,
			Rule: "lists of 2..17 and about 32, 64, 128 (thorough: 2..34 and up to 257) elements (" + strings.Join(names, ", ") + ") with each of the 20 kinds of expressions at each position (long lists: first, second, middle, last two), or with one object at that and at the first, the last or the next position",
			Body: func(c *C) {
				l := ls[c.Choose("list", len(ls))]
				n, p := c.listSize()
				g := &condGen{}
				xs := make([]X, n)
				for i := range xs {
					xs[i] = g.x(i % 2)
				}
				switch k := c.Choose("element", nKinds+3); k {
				case nKinds:
					xs[p] = xs[0]
				case nKinds + 1:
					xs[p] = xs[n-1]
				case nKinds + 2:
					xs[p] = xs[(p+1)%n]
				default:
					xs[p] = g.x(k)
				}
				if prop == "C13" || prop == "C14" && l.name == "with items" || l.name == "filter after many" {
					// one object with several aliases is looked at elsewhere
					for i := range xs {
						for j := range xs[:i] {
							if xs[i].id == xs[j].id {
								return
							}
						}
					}
				}
				s := l.mk(xs)
				c.check(s.s, s.err, s.em)
			}})
	}
	texts := []string{"it's", `a\`, `\'`, "\n", "", "é"}
	numbers := []interface{}{0, -1, math.MinInt64, math.MaxInt64, -0.5, 1e300, 5e-324, 1e-7, 123456789.5}
	one := func(c *C, special X, raw interface{}, plain func(i int) (X, interface{})) {
		k := c.Choose("list", len(exprLists)+len(rawLists))
		n, p := c.listSize()
		xs := make([]X, n)
		raws := make([]interface{}, n)
		all := c.Bool("everywhere")
		for i := range xs {
			if i == p || all && i < p {
				xs[i], raws[i] = special, raw
			} else {
				xs[i], raws[i] = plain(i)
			}
		}
		if k < len(exprLists) {
			switch l := exprLists[k]; {
			case l.prop == "C13" || l.name == "with items" || l.name == "filter after many":
				if all {
					return
				}
				fallthrough
			default:
				s := l.mk(xs)
				c.check(s.s, s.err, s.em)
			}
			return
		}
		s := rawLists[k-len(exprLists)](xs, raws)
		c.check(s.s, s.err, s.em)
	}
	r = append(r, &Harness{Prop: "C08", Name: "one-string-in-many", ShardDepth: 3,
		Rule: "everything that takes many expressions or values with a string that needs escapes at one position (or there and at all before), plain strings at the others; lengths and positions as in one-in-many",
		Body: func(c *C) {
			s := texts[c.Choose("string", len(texts))]
			one(c, xStr(s), s, func(i int) (X, interface{}) { return xStr(word(i)), word(i) })
		}}, &Harness{Prop: "C10", Name: "one-number-in-many", ShardDepth: 3,
		Rule: "everything that takes many expressions or values with one of nine unusual numbers at one position (or there and at all before), plain numbers at the others; lengths and positions as in one-in-many",
		Body: func(c *C) {
			v := numbers[c.Choose("number", len(numbers))]
			x := X{}
			switch v := v.(type) {
			case int:
				x = xInt(v)
			case float64:
				x = xFloat(v)
			}
			one(c, x, v, func(i int) (X, interface{}) { return xInt(i + 1), i + 1 })
		}})
	names := func(ls []nameList) func(c *C) {
		return func(c *C) {
			l := ls[c.Choose("list", len(ls))]
			n, p := c.listSize()
			ss := make([]string, n)
			for i := range ss {
				ss[i] = word(i)
			}
			odd := []string{"a b", "a`b", "é", "1a", "A-B", "e\u0301", "`", "NULL"}
			switch k := c.Choose("name", 2*len(odd)+3); k {
			case 2 * len(odd), 2*len(odd) + 1, 2*len(odd) + 2:
				if l.distinct {
					return
				}
				ss[p] = ss[[]int{0, n - 1, (p + 1) % n}[k-2*len(odd)]]
			default:
				s := odd[k%len(odd)]
				if k >= len(odd) {
					for i := 0; i < p; i++ {
						ss[i] = s + word(i)
						if !l.distinct {
							ss[i] = s
						}
					}
				}
				ss[p] = s
			}
			s := l.mk(ss)
			c.check(s.s, s.err, s.em)
		}
	}
	r = append(r, &Harness{Prop: "C09", Name: "one-name-in-many", ShardDepth: 3,
		Rule: "everything that takes many names, with one of eight unusual names at one position (or there and at all before where names may repeat), plain names at the others; or with one name at that and at the first, last or next position; lengths and positions as in one-in-many",
		Body: names(nameLists)})
	for _, o := range []struct {
		prop, what string
		ls         []nameList
	}{{"C11", "labels", nameLists[:2]}, {"C21", "labels of SET and REMOVE", append(append([]nameList{}, nameLists[2]), nameLists[4])}, {"C24", "labels in a filter", nameLists[3:4]},
		{"C12", "types and nodes of relationships and chains", nameLists[5:8]}, {"C14", "names of nodes, of WITH, DELETE, RETURN", nameLists[8:10]}, {"C18", "keys, projected properties", nameLists[10:12]},
		{"C16", "yielded fields", nameLists[12:14]}, {"C13", "aliases", nameLists[14:15]}, {"C04", "UNWIND and what is left", nameLists[15:]}} {
		r = append(r, &Harness{Prop: o.prop, Name: "one-name-in-many-" + o.prop, ShardDepth: 3,
			Rule: "the same as one-name-in-many for " + o.what,
			Body: names(o.ls)})
	}
	return r
}

type nameList struct {
	distinct bool
	mk       func(ss []string) stmt
}

func (w *W) names(ss []string) {
	for i, s := range ss {
		if i > 0 {
			w.sym(",")
		}
		w.name(s)
	}
}

var nameLists = []nameList{
	{false, func(ss []string) stmt {
		n := newN("m", ss, nil)
		return mkS(cy.Match(n.v).ReturningByNamed(n.v), func(w *W) { w.kw("MATCH"); w.n(n); w.kw("RETURN m") })
	}},
	{false, func(ss []string) stmt {
		n := newN("", ss, nil)
		return mkS(cy.Create(n.v), func(w *W) { w.kw("CREATE"); w.n(n) })
	}},
	{false, func(ss []string) stmt {
		n := newN("m", nil, nil)
		return mkS(cy.Match(n.v).SetByNode(n.v, ss...).RemoveByNode(n.v, ss...), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("SET")
			labelsEm("m", ss)(w)
			w.kw("REMOVE")
			labelsEm("m", ss)(w)
		})
	}},
	{false, func(ss []string) stmt {
		n := newN("m", nil, nil)
		return mkS(cy.Match(n.v).Where(n.v.HasLabels(ss...)).ReturningByNamed(n.v), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.where(&Form{op: "atom", em: labelsEm("m", ss)})
			w.kw("RETURN m")
		})
	}},
	{false, func(ss []string) stmt {
		n := newN("m", nil, nil)
		return mkS(cy.Merge(n.v).OnCreate().Set(cy.OperationSetLabel(n.v, ss...)).OnMatch().Set(cy.AProperty("m", "k"), cy.LiteralOf(1), cy.AProperty("m", ss[0]), cy.LiteralOf(2)).ReturningByNamed(n.v), func(w *W) {
			w.kw("MERGE")
			w.n(n)
			w.kw("ON CREATE SET")
			labelsEm("m", ss)(w)
			w.kw("ON MATCH SET m")
			w.of("k")
			w.num(1)
			w.sym(",")
			w.name("m")
			w.sym(".")
			w.name(ss[0])
			w.sym("=")
			w.num(2)
			w.kw("RETURN m")
		})
	}},
	{false, func(ss []string) stmt {
		r := newR(mkN("", nil, nil), 2, mkN("", nil, nil), ss)
		return mkS(cy.Match(r.v).Where(cy.RelationshipPatternConditionCreate(r.v)).Returning(cy.AnAsterisk()), func(w *W) {
			w.kw("MATCH")
			w.r(r)
			w.where(&Form{op: "atom", em: func(w *W) { w.r(r) }})
			w.kw("RETURN")
			w.sym("*")
		})
	}},
	{false, func(ss []string) stmt { // types, names and labels in a chain
		n := newN("", []string{ss[0]}, nil)
		r := newR(n, 0, n, []string{ss[0]})
		rs := []R{r}
		ch := cy.RelationshipChainCreate(r.v)
		for _, s := range ss[1:] {
			n := newN("", []string{s}, nil)
			ch = ch.RelationshipFrom(n.v, s)
			rs = append(rs, R{l: rs[len(rs)-1].r, r: n, dir: 1, types: []string{s}})
		}
		return mkS(cy.Match(ch).Returning(cy.AnAsterisk()), func(w *W) { w.kw("MATCH"); w.ch(Ch{rs: rs}); w.kw("RETURN"); w.sym("*") })
	}},
	{true, func(ss []string) stmt { // names in a chain
		n := newN("", nil, nil)
		r := newR(n, 0, n, nil)
		r.v, r.name = r.v.NamedByString("q"+ss[0]), "q"+ss[0]
		rs := []R{r}
		ch := cy.RelationshipChainCreate(r.v)
		for _, s := range ss {
			n := newN(s, nil, nil)
			ch = ch.RelationshipTo(n.v).NamedC("r" + s)
			rs = append(rs, R{l: rs[len(rs)-1].r, r: n, dir: 0, name: "r" + s})
		}
		return mkS(cy.Match(ch).ReturningByString(ss...), func(w *W) { w.kw("MATCH"); w.ch(Ch{rs: rs}); w.kw("RETURN"); w.names(ss) })
	}},
	{true, func(ss []string) stmt { // named nodes and what is said of them
		var ns []P
		var nm []cy.Named
		var ps []cy.Expression
		for _, s := range ss {
			n := newN(s, nil, nil)
			ns, nm, ps = append(ns, n.p()), append(nm, n.v), append(ps, n.v.Property(s))
		}
		return mkS(cy.Match(pvals(ns)...).WithByNamed(nm...).Returning(ps...), func(w *W) {
			w.kw("MATCH")
			w.ps(ns)
			w.kw("WITH")
			w.names(ss)
			w.kw("RETURN")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name(s)
				w.sym(".")
				w.name(s)
			}
		})
	}},
	{false, func(ss []string) stmt {
		return mkS(cy.WithByString(ss...).DeleteByString(ss...).ReturningDistinctByString(ss...), func(w *W) {
			w.kw("WITH")
			w.names(ss)
			w.kw("DELETE")
			w.names(ss)
			w.kw("RETURN DISTINCT")
			w.names(ss)
		})
	}},
	{true, func(ss []string) stmt { // keys
		var kv []interface{}
		var kvs []KV
		for i, s := range ss {
			kv, kvs = append(kv, s, cy.LiteralOf(i)), append(kvs, KV{s, xInt(i)})
		}
		n := newN("m", nil, kvs)
		return mkS(cy.Match(n.v).Returning(cy.MapOf(kv...), n.v.Project(kv...)), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("RETURN")
			w.mapOf(kvs)
			w.sym(",")
			w.name("m")
			w.mapOf(kvs)
		})
	}},
	{true, func(ss []string) stmt { // projected properties
		var kv []interface{}
		for _, s := range ss {
			kv = append(kv, s)
		}
		return retS(nodeNamed("m").Project(kv...), func(w *W) {
			w.name("m")
			w.sym("{")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.sym(".")
				w.name(s)
			}
			w.sym("}")
		})
	}},
	{true, func(ss []string) stmt { // yielded fields and their aliases
		var as []cy.AliasedExpression
		for _, s := range ss {
			as = append(as, cy.AliasedExpressionCreate(cy.ASymbolic(s), "a"+s))
		}
		return mkS(cy.ACall("f").Yield(as...).ReturningByString(ss...), func(w *W) {
			w.kw("CALL f")
			w.sym("(", ")")
			w.kw("YIELD")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name(s)
				w.kw("AS")
				w.name("a" + s)
			}
			w.kw("RETURN")
			w.names(ss)
		})
	}},
	{true, func(ss []string) stmt {
		return mkS(cy.Match(nodeNamed("m")).Call1("f").YieldString(ss...).ReturningByString(ss...), func(w *W) {
			w.kw("MATCH")
			w.m()
			w.kw("CALL f")
			w.sym("(", ")")
			w.kw("YIELD")
			w.names(ss)
			w.kw("RETURN")
			w.names(ss)
		})
	}},
	{true, func(ss []string) stmt { // aliases
		var as []A
		var vs []cy.Expression
		for _, s := range ss {
			a := A{cy.AliasedExpressionCreate(cy.AProperty("m", s), s), X{}, s}
			as, vs = append(as, a), append(vs, a.v)
		}
		return mkS(cy.With(vs...).Returning(vs...), func(w *W) {
			w.kw("WITH")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name("m")
				w.sym(".")
				w.name(s)
				w.kw("AS")
				w.name(s)
			}
			w.kw("RETURN")
			w.names(ss)
		})
	}},
	{true, func(ss []string) stmt { // UNWIND
		b := cy.Unwind(cy.ASymbolic("m")).As(ss[0])
		for i, s := range ss[1:] {
			b = b.UnwindByString(ss[i]).As(s)
		}
		return mkS(b.Returning(cy.AnAsterisk()), func(w *W) {
			for i, s := range ss {
				w.kw("UNWIND")
				if i == 0 {
					w.name("m")
				} else {
					w.name(ss[i-1])
				}
				w.kw("AS")
				w.name(s)
			}
			w.kw("RETURN")
			w.sym("*")
		})
	}},
	{false, func(ss []string) stmt { // properties
		var kv []cy.Expression
		var ps []cy.Property
		for i, s := range ss {
			kv, ps = append(kv, cy.AProperty(s, "k"), cy.LiteralOf(i)), append(ps, cy.AProperty("m", s))
		}
		return mkS(cy.Match(nodeNamed("m")).Set(kv...).Remove(ps...), func(w *W) {
			w.kw("MATCH")
			w.m()
			w.kw("SET")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name(s)
				w.of("k")
				w.num(i)
			}
			w.kw("REMOVE")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name("m")
				w.sym(".")
				w.name(s)
			}
		})
	}},
	{false, func(ss []string) stmt { // sorted by
		var is []cy.SortItem
		for _, s := range ss {
			is = append(is, cy.Sort(cy.ASymbolic(s)).Descending())
		}
		return mkS(cy.CypherReturning(cy.AnAsterisk()).OrderBySortItem(is...), func(w *W) {
			w.kw("RETURN")
			w.sym("*")
			w.kw("ORDER BY")
			for i, s := range ss {
				if i > 0 {
					w.sym(",")
				}
				w.name(s)
				w.kw("DESC")
			}
		})
	}},
	{true, func(ss []string) stmt { // paths
		var ps []P
		r := newR(mkN("", nil, nil), 0, mkN("", nil, nil), nil)
		for _, s := range ss {
			s := s
			ps = append(ps, P{cy.APath(s).DefinedBy(r.v), func(w *W) { w.name(s); w.sym("="); w.r(r) }})
		}
		return mkS(cy.Match(pvals(ps)...).ReturningByString(ss...), func(w *W) { w.kw("MATCH"); w.ps(ps); w.kw("RETURN"); w.names(ss) })
	}},
	{false, func(ss []string) stmt { // looked up one in the other
		v := cy.Expression(cy.ASymbolic("m"))
		for _, s := range ss {
			v = cy.APropertyByExpression(v, s)
		}
		return retS(v, func(w *W) {
			w.name("m")
			for _, s := range ss {
				w.sym(".")
				w.name(s)
			}
		})
	}},
	{false, func(ss []string) stmt { // comprehensions one in the other
		v := cy.Expression(cy.ASymbolic("m"))
		for _, s := range ss {
			v = cy.CypherListWith(cy.ASymbolic(s)).In(v).Returning(cy.ASymbolic(s))
		}
		return retS(v, func(w *W) {
			for i := len(ss) - 1; i >= 0; i-- {
				w.sym("[")
				w.name(ss[i])
				w.kw("IN")
			}
			w.name("m")
			for _, s := range ss {
				w.sym("|")
				w.name(s)
				w.sym("]")
			}
		})
	}},
}
