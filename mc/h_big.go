package main

// C23: values of unusual size or content, which code may treat in another way than small ones.

import (
	"math"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

func bigFragments() []fragment {
	must := func(s cy.Statement, err error) cy.Statement {
		if err != nil {
			panic(err)
		}
		return s
	}
	var r []fragment
	add := func(name string, mk func(g *G) cy.Statement) {
		r = append(r, fragment{name, func(g *G) interface{} { return mk(g) }, tStmt})
	}
	for _, n := range []int{20, 70, 300, 5000} {
		long := strings.Repeat("x", n)
		name := "texts of length " + word(n)
		add(name, func(g *G) cy.Statement {
			s := g.s() + long
			return must(cy.Match(cy.ANode(s).NamedByString("n"+s).WithRawProperties(s, s)).
				Returning(cy.LiteralOf(s), cy.LiteralOf(s+"'"), cy.LiteralOf("\\"+s), cy.AParam(s), cy.AProperty(s, s)).Build())
		})
		add(name+", to be quoted", func(g *G) cy.Statement {
			s := g.s() + " " + long + "`"
			return must(cy.Match(cy.ANode(s).RelationshipTo(cy.AnyNodeNamed("n"+s), s).NamedByString("r" + s)).
				With(cy.AProperty(s, s).As("a" + s).Get()).Returning(cy.ASymbolic("a" + s)).Build())
		})
	}
	add("many labels", func(g *G) cy.Statement {
		var ls []string
		for i := 0; i < 40; i++ {
			ls = append(ls, g.s())
		}
		a := cy.NewNodeWithLabels(ls[0], ls[1:]...).NamedByString(g.s())
		return must(cy.Match(a.RelationshipTo(cy.NewNodeWithLabels(ls[0], ls[1:]...), ls...)).SetByNode(a, ls...).RemoveByNode(a, ls...).Returning(cy.AnAsterisk()).Build())
	})
	add("a long chain", func(g *G) cy.Statement {
		ch := cy.AnyNodeNamed(g.s()).RelationshipTo(cy.ANode(g.s()), g.s()).RelationshipFrom(cy.AnyNodeNamed(g.s()), g.s())
		for i := 0; i < 30; i++ {
			ch = ch.RelationshipBetween(cy.AnyNodeNamed(g.s()), g.s()).NamedC(g.s()).Length(1, i+2)
		}
		return must(cy.Match(cy.AShortestPath(g.s()).DefinedBy(cy.AnyNodeNamed(g.s()).RelationshipTo(cy.ANode(g.s()), g.s())), ch).Returning(cy.AnAsterisk()).Build())
	})
	add("many items", func(g *G) cy.Statement {
		var xs, ys []cy.Expression
		var kvs []interface{}
		var ss []cy.SortItem
		for i := 0; i < 50; i++ {
			a := cy.AliasedExpressionCreate(g.expr(0), g.s())
			xs, ys = append(xs, a), append(ys, cy.LiteralOf(i))
			ss = append(ss, cy.Sort(a).Descending())
			kvs = append(kvs, g.s(), cy.LiteralOf(g.s()))
		}
		return must(cy.With(xs...).OrderBySortItem(ss...).Returning(cy.ListOf(ys...), cy.MapOf(kvs...), cy.Coalesce(ys...), cy.AnyNodeNamed(g.s()).Project(kvs...)).Build())
	})
	add("many conditions", func(g *G) cy.Statement {
		a, b, x := g.cond(0), g.cond(0), g.cond(0)
		for i := 0; i < 20; i++ {
			a, b = a.And(g.cond(i)).Get(), b.Or(g.cond(0)).Get()
			x = cy.ConditionsNot(x.Xor(g.cond(0)).And(g.cond(0)).Or(g.cond(0)).Get())
		}
		return must(cy.Match(g.node()).Where(a).And(b).Or(x).Returning(cy.AnAsterisk()).Build())
	})
	add("deep expressions", func(g *G) cy.Statement {
		e, f, h := g.expr(0), g.expr(0), g.expr(0)
		for i := 0; i < 30; i++ {
			e, f = cy.ListOf(e, g.expr(0)), cy.MapOf(g.s(), f)
			h = cy.Coalesce(h.Add(g.expr(0)).Get(), g.expr(0))
		}
		return must(cy.CypherReturning(e, f, h).Build())
	})
	add("deep subqueries", func(g *G) cy.Statement {
		s := g.stmt()
		for i := 0; i < 12; i++ {
			s = must(cy.Match(g.node()).Call(s).Returning(cy.ASymbolic(g.s()).As(g.s()).Get()).Build())
		}
		return s
	})
	add("many branches", func(g *G) cy.Statement {
		c := cy.CaseExpression(g.expr(0)).When(g.expr(0)).Then(g.expr(4))
		for i := 0; i < 30; i++ {
			c = c.When(g.expr(0)).Then(cy.LiteralOf(g.s()))
		}
		return must(cy.CypherReturning(c.ElseDefault(g.expr(0))).Build())
	})
	add("a long union", func(g *G) cy.Statement {
		var ss []cy.Statement
		for i := 0; i < 20; i++ {
			ss = append(ss, g.stmt())
		}
		return cy.Union(ss...)
	})
	add("many clauses", func(g *G) cy.Statement {
		w := cy.Match(g.node()).Where(g.cond(0)).With(g.expr(0))
		for i := 0; i < 20; i++ {
			w = w.OptionalMatch(g.rel()).Where(g.cond(0)).With(g.expr(0), cy.AliasedExpressionCreate(g.expr(0), g.s()))
		}
		u := w.Merge(g.node()).OnCreate().Set(cy.AProperty(g.s(), g.s()), g.expr(0))
		for i := 0; i < 20; i++ {
			u = u.OnMatch().Set(cy.AProperty(g.s(), g.s()), g.expr(0))
		}
		return must(u.Returning(cy.AnAsterisk()).Build())
	})
	add("numbers", func(g *G) cy.Statement {
		var xs []cy.Expression
		for _, v := range []interface{}{0, -1, math.MaxInt64, math.MinInt64, 1 << 40, 1.5, -0.25, 1e300, 1e-300, 1e15, 123456789.125, true, false, nil, []cy.Literal{cy.LiteralOf(1), cy.LiteralOf("x")}} {
			xs = append(xs, cy.LiteralOf(v))
		}
		return must(cy.Match(g.rel().Length(3, 700)).Returning(xs...).Skip(1 << 40).Limit(1 << 41).Build())
	})
	add("characters", func(g *G) cy.Statement {
		s := g.s()
		return must(cy.Match(cy.ANode(s+"é`").NamedByString("日本"+s)).Returning(cy.LiteralOf(s+"é'\"\\\n\t\x00\U0001F600"), cy.LiteralOf("\xff'"+s), cy.ASymbolic("_"+s+"ß")).Build())
	})
	add("a long call", func(g *G) cy.Statement {
		var xs []cy.Expression
		var ys []string
		for i := 0; i < 20; i++ {
			xs, ys = append(xs, g.expr(i)), append(ys, g.s())
		}
		return must(cy.ACall(ys...).WithArgs(xs...).YieldString(ys...).Where(g.cond(1)).Returning(cy.ACall(ys...).WithArgs(xs...).AsFunction()).Build())
	})
	add("invalid", func(g *G) cy.Statement {
		s, err := cy.Match(cy.ANode("").NamedByString(g.s())).Where(cy.AProperty(g.s(), "").IsEqualTo(cy.LiteralOf(struct{}{})).Get()).Returning(cy.LiteralOf(math.NaN()), cy.MapOf("k", 1, "k", 2)).Limit(-1).Build()
		if err == nil {
			return s
		}
		return cy.UnionQueryError(err)
	})
	return r
}

var bigsMemo []source

func bigs() []source {
	if bigsMemo == nil {
		for _, f := range bigFragments() {
			bigsMemo = append(bigsMemo, source{f.name, f.make, f.typ})
		}
	}
	return bigsMemo
}

func bigHarnesses() []*Harness {
	const what = "statements of unusual size or content (17 kinds: texts of up to 5000 bytes plain and to be quoted, 40 labels, long chains, many items, conditions, branches, clauses, unions, deep nesting, extreme numbers and characters, errors)"
	pick := func(c *C, all bool) scene {
		a := bigs()[c.Choose("one", len(bigs()))]
		k := 0
		if all {
			k = c.Choose("other", len(bigs())+len(fragments)+2)
		} else {
			k = c.Choose("other", 2)
		}
		j := jobsOf(a.typ, false)[0]
		var sc scene
		switch {
		case k == 0:
			sc = pairScene(a, true, j, j)
		case k == 1:
			sc = pairScene(a, false, j, j)
		default:
			b := append(append([]source{}, bigs()...), sources()[:len(fragments)]...)[k-2]
			sc = scene{key: a.name + " and " + b.name}
			for _, s := range []source{a, b} {
				sc.tasks = append(sc.tasks, sceneTask{s.name, s.make, jobsOf(s.typ, false)[0]})
			}
		}
		sc.names = c.Choose("names", nNames)
		return sc
	}
	return []*Harness{
		{Prop: "C23", Name: "big-values", Bin: "sched", ShardDepth: 3,
			Rule: "two tasks that build and render " + what + ", of their own or shared; names of their own, repeated and in common (quick: values of up to 8000 function starts, names of their own); every schedule with one preemption at a function start",
			Body: func(c *C) {
				sc := pick(c, false)
				if !thorough() && (sc.names != namesOwn || sc.alone(0, 0).points > 8000) {
					return
				}
				c.schedules(sc, 0, 1)
			}},
		{Prop: "C23", Name: "races-big-values", Bin: "race", ShardDepth: 2,
			Rule: "two tasks that build and render " + what + ", one shared, the same kind, any other kind or a small fragment; no preemption, both orders; every pair of conflicting accesses that the library does not order is a race",
			Body: func(c *C) { c.schedules(pick(c, true), 0, 0) }},
	}
}
