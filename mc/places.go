package main

// Places: every position of a statement in which an expression can stand.

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

const nPlaces = 36

// place puts the expression into a statement.
func place(k int, x X) (cy.Statement, error, Em) {
	n := mkN("pn", nil, nil)
	z := xSym("pz")
	p := xProp("pc", "pp")
	kwM := func(w *W) { w.kw("MATCH"); w.n(n) }
	ret := func(w *W) { w.kw("RETURN"); w.x(z) }
	cond := func(v cy.ConditionContainer, em Em) (cy.Condition, *Form) {
		return v.Get(), &Form{op: "atom", em: em}
	}
	retX := func(v cy.Expression, em Em) (cy.Statement, error, Em) {
		s, err := cy.CypherReturning(v).Build()
		return s, err, func(w *W) { w.kw("RETURN"); em(w) }
	}
	where := func(v cy.ConditionContainer, em Em) (cy.Statement, error, Em) {
		c, f := cond(v, em)
		s, err := cy.Match(n.v).Where(c).Returning(z.v).Build()
		return s, err, func(w *W) { kwM(w); w.where(f); ret(w) }
	}
	switch k {
	case 0:
		return retX(x.v, func(w *W) { w.x(x) })
	case 1:
		s, err := cy.CypherReturning(z.v, cy.AliasedExpressionCreate(x.v, "al"), p.v).Build()
		return s, err, func(w *W) {
			w.kw("RETURN")
			w.x(z)
			w.sym(",")
			w.x(x)
			w.kw("AS")
			w.name("al")
			w.sym(",")
			w.x(p)
		}
	case 2:
		return where(p.v.IsEqualTo(x.v), func(w *W) { w.x(p); w.sym("="); w.x(x) })
	case 3:
		return where(x.v.IsNotEqualTo(p.v), func(w *W) { w.x(x); w.sym("<>"); w.x(p) })
	case 4:
		nn := mkN("pm", []string{"L"}, []KV{{"a", x}, {"b", z}})
		s, err := cy.Match(nn.v).Returning(z.v).Build()
		return s, err, func(w *W) { w.kw("MATCH"); w.n(nn); ret(w) }
	case 5:
		r := mkR(n, 0, mkN("", nil, nil), "T")
		r.v = r.v.WithRawProperties("a", z.v, "b", x.v)
		r.props = []KV{{"a", z}, {"b", x}}
		s, err := cy.Match(r.v).Returning(z.v).Build()
		return s, err, func(w *W) { w.kw("MATCH"); w.r(r); ret(w) }
	case 6:
		return retX(cy.ListOf(z.v, x.v, p.v), func(w *W) { w.sym("["); w.xs([]X{z, x, p}); w.sym("]") })
	case 7:
		return retX(cy.MapOf("a", x.v, "b", p.v), func(w *W) { w.mapOf([]KV{{"a", x}, {"b", p}}) })
	case 8:
		return retX(cy.CaseExpression(x.v).When(z.v).Then(p.v), func(w *W) {
			w.kw("CASE")
			w.x(x)
			w.kw("WHEN")
			w.x(z)
			w.kw("THEN")
			w.x(p)
			w.kw("END")
		})
	case 9:
		return retX(cy.CaseExpression(z.v).When(x.v).Then(p.v).ElseDefault(z.v), func(w *W) {
			w.kw("CASE")
			w.x(z)
			w.kw("WHEN")
			w.x(x)
			w.kw("THEN")
			w.x(p)
			w.kw("ELSE")
			w.x(z)
			w.kw("END")
		})
	case 10:
		return retX(cy.GenericCaseExpression().When(p.v.IsNull().Get()).Then(x.v).ElseDefault(z.v), func(w *W) {
			w.kw("CASE WHEN")
			w.x(p)
			w.kw("IS NULL THEN")
			w.x(x)
			w.kw("ELSE")
			w.x(z)
			w.kw("END")
		})
	case 11:
		return retX(cy.CaseExpression(z.v).When(p.v).Then(z.v).ElseDefault(x.v), func(w *W) {
			w.kw("CASE")
			w.x(z)
			w.kw("WHEN")
			w.x(p)
			w.kw("THEN")
			w.x(z)
			w.kw("ELSE")
			w.x(x)
			w.kw("END")
		})
	case 12:
		return retX(cy.Coalesce(p.v, x.v, z.v), func(w *W) { w.kw("coalesce"); w.sym("("); w.xs([]X{p, x, z}); w.sym(")") })
	case 13:
		s, err := cy.Match(n.v).Set(p.v, x.v).Build()
		return s, err, func(w *W) { kwM(w); w.kw("SET"); w.x(p); w.sym("="); w.x(x) }
	case 14:
		s, err := cy.Unwind(x.v).As("u").Returning(z.v).Build()
		return s, err, func(w *W) { w.kw("UNWIND"); w.x(x); w.kw("AS"); w.name("u"); ret(w) }
	case 15:
		s, err := cy.ACall("pa", "pb").WithArgs(x.v, z.v).YieldString("y").Returning(z.v).Build()
		return s, err, func(w *W) {
			w.kw("CALL")
			w.name("pa")
			w.sym(".")
			w.name("pb")
			w.sym("(")
			w.xs([]X{x, z})
			w.sym(")")
			w.kw("YIELD")
			w.name("y")
			ret(w)
		}
	case 16:
		s, err := cy.With(z.v, cy.AliasedExpressionCreate(x.v, "al")).Returning(z.v).Build()
		return s, err, func(w *W) {
			w.kw("WITH")
			w.x(z)
			w.sym(",")
			w.x(x)
			w.kw("AS")
			w.name("al")
			ret(w)
		}
	case 17:
		s, err := cy.CypherReturning(z.v).OrderBy(x.v).Descending().Build()
		return s, err, func(w *W) { ret(w); w.kw("ORDER BY"); w.x(x); w.kw("DESC") }
	case 18:
		return retX(cy.CypherValueAtByExpression(z.v, x.v), func(w *W) { w.x(z); w.sym("["); w.x(x); w.sym("]") })
	case 19:
		return retX(cy.CypherListWith(cy.ASymbolic("v")).In(x.v).Where(p.v.IsNull().Get()).Returning(z.v), func(w *W) {
			w.sym("[")
			w.name("v")
			w.kw("IN")
			w.x(x)
			w.kw("WHERE")
			w.x(p)
			w.kw("IS NULL")
			w.sym("|")
			w.x(z)
			w.sym("]")
		})
	case 20:
		return retX(cy.CypherListWith(cy.ASymbolic("v")).In(z.v).Returning(x.v), func(w *W) {
			w.sym("[")
			w.name("v")
			w.kw("IN")
			w.x(z)
			w.sym("|")
			w.x(x)
			w.sym("]")
		})
	case 21:
		return where(cy.ConditionWrap(cy.PredicateAll("v").In(x.v).Where(p.v.IsNull().Get())), func(w *W) {
			w.kw("all")
			w.sym("(")
			w.name("v")
			w.kw("IN")
			w.x(x)
			w.kw("WHERE")
			w.x(p)
			w.kw("IS NULL")
			w.sym(")")
		})
	case 22:
		return retX(mkN("q", nil, nil).v.Project("a", x.v, "b"), func(w *W) {
			w.name("q")
			w.sym("{")
			w.name("a")
			w.sym(":")
			w.x(x)
			w.sym(",", ".")
			w.name("b")
			w.sym("}")
		})
	case 23:
		s, err := cy.Merge(n.v).OnCreate().Set(p.v, x.v).OnMatch().Set(p.v, x.v).Build()
		return s, err, func(w *W) {
			w.kw("MERGE")
			w.n(n)
			w.kw("ON CREATE SET")
			w.x(p)
			w.sym("=")
			w.x(x)
			w.kw("ON MATCH SET")
			w.x(p)
			w.sym("=")
			w.x(x)
		}
	case 24:
		in, err := cy.Match(n.v).Returning(x.v).Build()
		if err != nil {
			return in, err, func(w *W) {}
		}
		s, err := cy.ACallByStatement(in).Returning(z.v).Build()
		return s, err, func(w *W) {
			w.kw("CALL")
			w.sym("{")
			kwM(w)
			w.kw("RETURN")
			w.x(x)
			w.sym("}")
			ret(w)
		}
	case 25:
		a, err := cy.CypherReturning(z.v).Build()
		if err != nil {
			return a, err, func(w *W) {}
		}
		b, err := cy.CypherReturning(x.v).Build()
		if err != nil {
			return b, err, func(w *W) {}
		}
		u := cy.UnionAll(a, b)
		return u, u.GetError(), func(w *W) { ret(w); w.kw("UNION ALL RETURN"); w.x(x) }
	case 26:
		in := atomC(p.v.Gt(x.v).Get(), func(w *W) { w.x(p); w.sym(">"); w.x(x) })
		return where(cy.ConditionWrap(cy.Match(mkN("e", nil, nil).v).Where(in.v).AsCondition()), func(w *W) {
			w.kw("EXISTS")
			w.sym("{")
			w.kw("MATCH")
			w.n(mkN("e", nil, nil))
			w.where(in.f)
			w.sym("}")
		})
	case 27:
		return retX(p.v.Add(x.v).Get(), func(w *W) { w.sym("("); w.x(p); w.sym("+"); w.x(x); w.sym(")") })
	case 28:
		return where(p.v.StartWiths(x.v), func(w *W) { w.x(p); w.kw("STARTS WITH"); w.x(x) })
	case 29:
		return where(p.v.In(cy.ListOf(x.v, x.v)), func(w *W) {
			w.x(p)
			w.kw("IN")
			w.sym("[")
			w.x(x)
			w.sym(",")
			w.x(x)
			w.sym("]")
		})
	case 30:
		r := mkR(n, 1, mkN("pm", nil, nil), "T")
		return retX(cy.ListBasedOn(r.v).Where(p.v.IsEqualTo(x.v).Get()).Returning(x.v), func(w *W) {
			w.sym("[")
			w.r(r)
			w.kw("WHERE")
			w.x(p)
			w.sym("=")
			w.x(x)
			w.sym("|")
			w.x(x)
			w.sym("]")
		})
	case 31:
		return retX(cy.ACall("pa", "pb").WithArgs(z.v, x.v).AsFunction(), func(w *W) {
			w.name("pa")
			w.sym(".")
			w.name("pb")
			w.sym("(")
			w.xs([]X{z, x})
			w.sym(")")
		})
	case 32:
		s, err := cy.Match(n.v).ReturningDistinct(x.v, z.v).Build()
		return s, err, func(w *W) { kwM(w); w.kw("RETURN DISTINCT"); w.xs([]X{x, z}) }
	case 33:
		s, err := cy.Match(n.v).Set(cy.AProperty("pc", "pp").To(x.v)).Returning(z.v).Build()
		return s, err, func(w *W) {
			kwM(w)
			w.kw("SET")
			w.x(p)
			w.sym("=")
			w.x(x)
			ret(w)
		}
	case 34:
		s, err := cy.Match(n.v).With(z.v).Where(x.v.IsEqualTo(x.v).Get()).Returning(z.v).Build()
		f := &Form{op: "atom", em: func(w *W) { w.x(x); w.sym("="); w.x(x) }}
		return s, err, func(w *W) { kwM(w); w.kw("WITH"); w.x(z); w.where(f); ret(w) }
	case 35:
		return retX(cy.CollectDistinct(x.v), func(w *W) { w.kw("collect"); w.sym("("); w.kw("DISTINCT"); w.x(x); w.sym(")") })
	}
	panic("place")
}

// inPlace checks the expression in the place.
func (c *C) inPlace(k int, x X) {
	s, err, em := place(k, x)
	c.check(s, err, em)
}
