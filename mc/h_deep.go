package main

// Towers: expressions in expressions, two kinds of surroundings in turn, to depths at which levels, stacks and
// separators kept by the renderer have grown many times.

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// a layer puts an expression into another one, with others before and behind it
type layer struct {
	prop string
	name string
	wrap func(g *condGen, x X) X
}

func seq(parts ...interface{}) Em {
	return func(w *W) {
		for _, p := range parts {
			switch v := p.(type) {
			case string:
				switch v {
				case "(", ")", "[", "]", "{", "}", ",", "|", "..", "=", ".":
					w.sym(v)
				default:
					w.kw(v)
				}
			case X:
				w.x(v)
			case nameTok:
				w.name(string(v))
			case Em:
				v(w)
			}
		}
	}
}

type nameTok string

var layers = []layer{
	{"C18", "list", func(g *condGen, x X) X {
		a, b := g.x(0), g.x(0)
		return mkX(cy.ListOf(a.v, x.v, b.v), seq("[", a, ",", x, ",", b, "]"))
	}},
	{"C18", "map", func(g *condGen, x X) X {
		a, b := g.x(0), g.x(0)
		return mkX(cy.MapOf("a", a.v, "b", x.v, "c", b.v), func(w *W) { w.mapOf([]KV{{"a", a}, {"b", x}, {"c", b}}) })
	}},
	{"C18", "index", func(g *condGen, x X) X {
		a := g.x(0)
		return mkX(cy.CypherValueAtByExpression(a.v, x.v), seq(a, "[", x, "]"))
	}},
	{"C18", "bounds", func(g *condGen, x X) X {
		a, b := g.x(0), g.x(0)
		return mkX(cy.SubList(a.v, b.v, x.v), seq(a, "[", b, "..", x, "]"))
	}},
	{"C18", "projection", func(g *condGen, x X) X {
		s := g.fresh("v")
		a := g.x(0)
		n := mkN(s, nil, nil)
		return mkX(n.v.Project("a", a.v, "b", x.v, "c"), seq(nameTok(s), "{", nameTok("a"), Em(func(w *W) { w.sym(":") }), a, ",", nameTok("b"),
			Em(func(w *W) { w.sym(":") }), x, ",", ".", nameTok("c"), "}"))
	}},
	{"C19", "coalesce", func(g *condGen, x X) X {
		a, b := g.x(0), g.x(0)
		return mkX(cy.Coalesce(a.v, x.v, b.v), fnEm("coalesce", a, x, b))
	}},
	{"C19", "collect distinct", func(g *condGen, x X) X {
		return mkX(cy.CollectDistinct(x.v), fnDistinctEm("collect", x))
	}},
	{"C19", "range", func(g *condGen, x X) X {
		a, b := g.x(0), g.x(0)
		return mkX(cy.RangeWithStep(a.v, b.v, x.v), fnEm("range", a, b, x))
	}},
	{"C17", "subject", func(g *condGen, x X) X {
		a, b, d := g.x(0), g.x(0), g.x(0)
		return mkX(cy.CaseExpression(x.v).When(a.v).Then(b.v).ElseDefault(d.v), seq("CASE", x, "WHEN", a, "THEN", b, "ELSE", d, "END"))
	}},
	{"C17", "when", func(g *condGen, x X) X {
		a, b, d := g.x(0), g.x(0), g.x(0)
		return mkX(cy.CaseExpression(a.v).When(b.v).Then(d.v).When(x.v).Then(b.v), seq("CASE", a, "WHEN", b, "THEN", d, "WHEN", x, "THEN", b, "END"))
	}},
	{"C17", "then", func(g *condGen, x X) X {
		at := g.atom()
		a, b := g.x(0), g.x(0)
		return mkX(cy.GenericCaseExpression().When(at.v).Then(x.v).When(at.v).Then(a.v).ElseDefault(b.v),
			seq("CASE WHEN", at.em(), "THEN", x, "WHEN", at.em(), "THEN", a, "ELSE", b, "END"))
	}},
	{"C17", "else", func(g *condGen, x X) X {
		a, b, d := g.x(0), g.x(0), g.x(0)
		return mkX(cy.CaseExpression(a.v).When(b.v).Then(d.v).ElseDefault(x.v), seq("CASE", a, "WHEN", b, "THEN", d, "ELSE", x, "END"))
	}},
	{"C20", "source", func(g *condGen, x X) X {
		s := g.fresh("it")
		at := g.atom()
		a, b := g.x(0), g.x(0)
		return mkX(cy.CypherListWith(cy.ASymbolic(s)).In(x.v).Where(at.v).Returning(a.v, b.v),
			seq("[", nameTok(s), "IN", x, "WHERE", at.em(), "|", "[", a, ",", b, "]", "]"))
	}},
	{"C20", "result", func(g *condGen, x X) X {
		s := g.fresh("it")
		a := g.x(0)
		return mkX(cy.CypherListWith(cy.ASymbolic(s)).In(a.v).Returning(x.v), seq("[", nameTok(s), "IN", a, "|", x, "]"))
	}},
	{"C20", "filter", func(g *condGen, x X) X {
		s := g.fresh("it")
		a, b := g.x(0), g.x(0)
		return mkX(cy.CypherListWith(cy.ASymbolic(s)).In(a.v).Where(b.v.In(x.v).Get()).Returning(b.v),
			seq("[", nameTok(s), "IN", a, "WHERE", b, "IN", Em(func(w *W) { w.open(); w.x(x); w.close() }), "|", b, "]"))
	}},
	{"C20", "pattern results", func(g *condGen, x X) X {
		r := mkR(mkN(g.fresh("n"), []string{"L"}, nil), 0, mkN("", nil, nil), "T")
		a, b := g.x(0), g.x(0)
		return mkX(cy.ListBasedOn(r.v).Returning(a.v, x.v, b.v), seq("[", Em(func(w *W) { w.r(r) }), "|", "[", a, ",", x, ",", b, "]", "]"))
	}},
	{"C20", "pattern properties", func(g *condGen, x X) X {
		a := g.x(0)
		r := mkR(mkN(g.fresh("n"), nil, []KV{{"a", a}, {"b", x}}), 0, mkN("", nil, nil), "T")
		return mkX(cy.ListBasedOn(r.v).Returning(a.v), seq("[", Em(func(w *W) { w.r(r) }), "|", a, "]"))
	}},
}

// em is the text of an atom.
func (c CX) em() Em { return c.f.em }

func depths() []int {
	var r []int
	for d := 1; d <= dep(24, 70); d++ {
		r = append(r, d)
	}
	for _, p := range []int{32, 64, 128, 256, 512, 1024, 4096} {
		if p > dep(256, 5000) {
			break
		}
		for d := p - 1; d <= p+1; d++ {
			r = append(r, d)
		}
	}
	return r
}

// towers explores the towers of which a layer belongs to the property.
func (c *C) towers(prop string) {
	var own []layer
	for _, l := range layers {
		if l.prop == prop {
			own = append(own, l)
		}
	}
	a := own[c.Choose("layer", len(own))]
	b := layers[c.Choose("other layer", len(layers))]
	ds := depths()
	d := ds[c.Choose("depth", len(ds))]
	var g condGen
	x := g.x(0)
	c.Log("%s and %s, %d deep", a.name, b.name, d)
	for i := 0; i < d; i++ {
		if i%2 == 0 {
			x = a.wrap(&g, x)
		} else {
			x = b.wrap(&g, x)
		}
	}
	y := g.x(0)
	s, err := cy.CypherReturning(y.v, x.v, y.v).Build()
	c.check(s, err, func(w *W) { w.kw("RETURN"); w.xs([]X{y, x, y}) })
}

func deepHarnesses() []*Harness {
	var r []*Harness
	for _, p := range []struct{ prop, name string }{{"C17", "case-towers"}, {"C18", "map-and-list-towers"}, {"C19", "function-towers"}, {"C20", "comprehension-towers"}} {
		p := p
		r = append(r, &Harness{Prop: p.prop, Name: p.name, ShardDepth: 3,
			Rule: "expressions nested into this property's kinds and every other kind of surrounding (17) in turn, with items before and behind, to every depth up to 24 (thorough: 70) and around every power of two up to 256 (thorough: 4096)",
			Body: func(c *C) { c.towers(p.prop) }})
	}
	r = append(r, operatorTowers())
	return append(r, subqueryTowers()...)
}

// operatorTowers: C07, operators applied to their own results to great depth, on either side.
func operatorTowers() *Harness {
	return &Harness{Prop: "C07", Name: "operator-towers", ShardDepth: 2,
		Rule: "two of all 35 operators applied in turn, each with the tree so far on the left or on the right, to depths 3 to 9 and around 16, 32 and 64 (thorough: every depth up to 70 and around powers of two up to 512)",
		Body: func(c *C) {
			ds := []int{3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}
			if thorough() {
				ds = nil
				for d := 3; d <= 70; d++ {
					ds = append(ds, d)
				}
				for p := 128; p <= 512; p *= 2 {
					ds = append(ds, p-1, p, p+1)
				}
			}
			a, b := opdefs[c.Choose("operator", len(opdefs))], opdefs[c.Choose("other operator", len(opdefs))]
			sides := c.Choose("sides", 4)
			if !a.binary() && sides&1 == 1 || !b.binary() && sides&2 == 2 {
				return
			}
			d := ds[c.Choose("depth", len(ds))]
			t := operandT(0, 0)
			if a.kind >= 4 || b.kind >= 4 {
				t = operandT(14, 0)
			}
			for i := 0; i < d; i++ {
				op, right := a, sides&1 == 1
				if i%2 == 1 {
					op, right = b, sides&2 == 2
				}
				if op.name == "IsEmpty" && t.op == "size()" {
					return // has a text of its own
				}
				o := operandT(i%3, i)
				if op.kind == 5 {
					o = operandT(12, i)
				}
				if !fits(op, t) {
					return
				}
				if right {
					t = apply(op, o, t, i%3 == 0)
				} else {
					t = apply(op, t, o, i%3 == 0)
				}
			}
			c.checkTree(t)
		}}
}

// subqueryTowers: C22, subqueries in subqueries and existential subqueries in existential subqueries.
func subqueryTowers() []*Harness {
	name := func(p string, i int) string { return p + string(rune('a'+i%26)) + string(rune('a'+i/26%26)) }
	return []*Harness{
		{Prop: "C22", Name: "subquery-towers", ShardDepth: 3,
			Rule: "subqueries in subqueries with three of six surroundings in turn, to every depth up to 20 (thorough: 60) and around powers of two up to 64 (thorough: 512); names and aliases declared at every level",
			Body: func(c *C) {
				var ls [3]int
				for i := range ls {
					ls[i] = c.Choose("surroundings", 6)
				}
				d := lengths(dep(20, 60), dep(64, 512), c)
				shared := mkN("sh", []string{"Shared"}, []KV{{"k", xInt(1)}})
				al := mkA(xProp("sh", "x"), "shx")
				must := func(s cy.Statement, err error) cy.Statement {
					if err != nil {
						c.Fail("unexpected error %v", err)
					}
					return s
				}
				q := must(cy.Match(shared.v).Returning(al.v).Build())
				em := Em(func(w *W) { w.kw("MATCH"); w.n(shared); w.kw("RETURN"); w.a(al) })
				for i := 0; i < d; i++ {
					in := em
					sub := func(w *W) { w.kw("CALL"); w.sym("{"); in(w); w.sym("}") }
					own := mkN(name("n", i), []string{name("L", i)}, nil)
					x := xProp(name("v", i), "p")
					k := propC(name("q", i), "k", i)
					switch ls[i%3] {
					case 0:
						q = must(cy.ACallByStatement(q).Returning(x.v).Build())
						em = func(w *W) { sub(w); w.kw("RETURN"); w.x(x) }
					case 1:
						q = must(cy.Match(own.v).Where(k.v).Call(q).Returning(x.v, al.v).Build())
						em = func(w *W) {
							w.kw("MATCH")
							w.n(own)
							w.where(k.f)
							sub(w)
							w.kw("RETURN")
							w.x(x)
							w.sym(",")
							w.a(al)
						}
					case 2:
						q = must(cy.With(x.v).Where(k.v).Call(q).Match(shared.v).ReturningDistinct(x.v).OrderBy(x.v).Descending().Skip(i).Limit(i + 1).Build())
						em = func(w *W) {
							w.kw("WITH")
							w.x(x)
							w.where(k.f)
							sub(w)
							w.kw("MATCH")
							w.n(shared)
							w.kw("RETURN DISTINCT")
							w.x(x)
							w.kw("ORDER BY")
							w.x(x)
							w.kw("DESC SKIP")
							w.num(i)
							w.kw("LIMIT")
							w.num(i + 1)
						}
					case 3:
						q = must(cy.Unwind(x.v).As(name("u", i)).Call(q).With(al.v).Where(k.v).Returning(al.v).Build())
						em = func(w *W) {
							w.kw("UNWIND")
							w.x(x)
							w.kw("AS")
							w.name(name("u", i))
							sub(w)
							w.kw("WITH")
							w.a(al)
							w.where(k.f)
							w.kw("RETURN")
							w.a(al)
						}
					case 4:
						y := must(cy.CypherReturning(x.v).Build())
						q = cy.Union(y, q)
						em = func(w *W) { w.kw("RETURN"); w.x(x); w.kw("UNION"); in(w) }
						// a union in a union is one union: it goes into a subquery
						z, zem := q, em
						q = must(cy.ACallByStatement(z).Returning(x.v).Build())
						em = func(w *W) {
							w.kw("CALL")
							w.sym("{")
							zem(w)
							w.sym("}")
							w.kw("RETURN")
							w.x(x)
						}
					case 5:
						q = must(cy.ACall("p").YieldString(name("y", i)).Call(q).Call(must(cy.Match(own.v).Returning(x.v).Build())).Returning(x.v).Build())
						em = func(w *W) {
							w.kw("CALL")
							w.name("p")
							w.sym("(", ")")
							w.kw("YIELD")
							w.name(name("y", i))
							sub(w)
							w.kw("CALL")
							w.sym("{")
							w.kw("MATCH")
							w.n(own)
							w.kw("RETURN")
							w.x(x)
							w.sym("}")
							w.kw("RETURN")
							w.x(x)
						}
					}
				}
				c.check(q, nil, em)
			}},
		{Prop: "C22", Name: "existential-towers", ShardDepth: 3,
			Rule: "existential subqueries in the filters of existential subqueries, with three of six filters in turn, to every depth up to 12 (thorough: 30) and around powers of two up to 32 (thorough: 128)",
			Body: func(c *C) {
				var ls [3]int
				for i := range ls {
					ls[i] = c.Choose("filter", 6)
				}
				d := lengths(dep(12, 30), dep(32, 128), c)
				e := propC("z", "z", 1)
				for i := 0; i < d; i++ {
					r := mkR(mkN(name("n", i), []string{name("L", i)}, nil), i%3, mkN("", nil, nil), "T")
					k, l := propC(name("q", i), "k", i), propC(name("q", i), "l", i)
					in := e
					var cond cy.Condition
					f := in.f
					m := cy.Match(r.v)
					switch ls[i%3] {
					case 0:
						cond = m.Where(in.v).AsCondition()
					case 1:
						cond = m.Where(in.v.Not().Get()).AsCondition()
						f = fNot(in.f)
					case 2:
						cond = m.Where(k.v).And(in.v).Or(l.v).AsCondition()
						f = fBin("or", fBin("and", k.f, in.f), l.f)
					case 3:
						cond = m.Where(in.v.Or(k.v).Get()).And(l.v).AsCondition()
						f = fBin("and", fBin("or", in.f, k.f), l.f)
					case 4:
						cond = m.Where(k.v.Xor(in.v).Get()).AsCondition()
						f = fBin("xor", k.f, in.f)
					case 5:
						cs := cy.GenericCaseExpression().When(in.v).Then(cy.LiteralTrue()).ElseDefault(cy.LiteralFalse())
						cond = m.Where(cs.IsTrue().Get()).AsCondition()
						f = &Form{op: "atom", em: func(w *W) {
							w.open()
							w.kw("CASE WHEN")
							w.cond(in.f)
							w.kw("THEN TRUE ELSE FALSE END")
							w.close()
							w.sym("=")
							w.kw("TRUE")
						}}
					}
					e = atomC(cond, func(w *W) {
						w.kw("EXISTS")
						w.sym("{")
						w.kw("MATCH")
						w.r(r)
						w.where(f)
						w.sym("}")
					})
				}
				o := mkN("o", nil, nil)
				s, err := cy.Match(o.v).Where(e.v).Returning(cy.ASymbolic("o")).Build()
				c.check(s, err, func(w *W) { w.kw("MATCH"); w.n(o); w.where(e.f); w.kw("RETURN"); w.name("o") })
			}},
	}
}
