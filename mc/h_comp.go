package main

// C20: comprehensions, predicates over lists, exists, existential subqueries.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// patKind is what a pattern comprehension can be based on.
const nPats = 7

type pat struct {
	v     cy.RelationshipPattern
	path  *cy.NamedPath
	name  string
	inner []cy.Named
	names []string
	em    Em
}

func (g *condGen) pat(k int) pat {
	a, b, d := mkN(g.fresh("a"), []string{g.fresh("A")}, nil), mkN(g.fresh("b"), nil, []KV{{"k", g.x(2)}}), mkN(g.fresh("d"), []string{"D"}, nil)
	switch k {
	case 0, 1, 2:
		r := mkR(a, k, b, g.fresh("T"), "U")
		return pat{v: r.v, em: func(w *W) { w.r(r) }, inner: []cy.Named{a.v, b.v}, names: []string{a.name, b.name}}
	case 3:
		r := mkR(a, 0, mkN("", nil, nil)).named(g.fresh("r"))
		return pat{v: r.v, em: func(w *W) { w.r(r) }, inner: []cy.Named{r.v}, names: []string{r.name}}
	case 4, 5:
		r := mkR(a, 0, b, g.fresh("T"))
		q := R{l: b, r: d, dir: 1, types: []string{"U"}}
		ch := r.v.RelationshipFrom(d.v, "U")
		em := func(w *W) { w.ch(Ch{rs: []R{r, q}}) }
		if k == 4 {
			return pat{v: ch, em: em, inner: []cy.Named{d.v, a.v}, names: []string{d.name, a.name}}
		}
		n := g.fresh("h")
		p := cy.APath(n).DefinedBy(ch)
		return pat{path: &p, name: n, em: func(w *W) { w.name(n); w.sym("="); em(w) }, inner: []cy.Named{p}, names: []string{n}}
	case 6:
		r := mkR(a, 2, b, g.fresh("T"))
		n := g.fresh("h")
		p := cy.APathBySymbolic(cy.ASymbolic(n)).DefinedBy(r.v)
		return pat{path: &p, name: n, em: func(w *W) { w.name(n); w.sym("="); w.r(r) }, inner: []cy.Named{p, a.v}, names: []string{n, a.name}}
	}
	panic("pat")
}

func (p pat) based() cy.PatternComprehensionOngoingDefinitionWithPattern {
	if p.path != nil {
		return cy.ListBasedOnNamed(*p.path)
	}
	return cy.ListBasedOn(p.v)
}

func resultEm(xs []X) Em {
	return func(w *W) {
		if len(xs) == 1 {
			w.x(xs[0])
			return
		}
		w.sym("[")
		w.xs(xs)
		w.sym("]")
	}
}

func nameXs(ss []string) []X {
	var r []X
	for _, s := range ss {
		s := s
		r = append(r, X{id: nextID(), em: func(w *W) { w.name(s) }})
	}
	return r
}

// comp makes a pattern comprehension with a filter built by calls and a result.
func (c *C) comp(g *condGen, calls int, kindOf func() int) X {
	p := g.pat(c.Choose("pattern", nPats))
	var f *Form
	first := p.based()
	var cond cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere
	n := c.Choose("filters", calls+1)
	for i := 0; i < n; i++ {
		pattern := c.Bool("pattern filter")
		op := "and"
		if i > 0 && c.Bool("or") {
			op = "or"
		}
		if pattern {
			r := mkR(mkN("", nil, nil), 0, mkN("", nil, nil), g.fresh("W"))
			af := &Form{op: "atom", em: func(w *W) { w.r(r) }}
			switch {
			case i == 0:
				cond, f = first.WherePattern(r.v), af
			case op == "and":
				cond, f = cond.AndPattern(r.v), fBin(op, f, af)
			default:
				cond, f = cond.OrPattern(r.v), fBin(op, f, af)
			}
			continue
		}
		var a Cn
		if i == 0 {
			a = g.cond(c.Choose("condition", nConds))
		} else {
			a = g.cond([]int{0, 3}[c.Choose("condition", 2)])
		}
		switch {
		case i == 0:
			cond, f = first.Where(a.v), a.f
		case op == "and":
			cond, f = cond.And(a.v), fBin(op, f, a.f)
		default:
			cond, f = cond.Or(a.v), fBin(op, f, a.f)
		}
	}
	var v cy.PatternComprehension
	var res []X
	switch k := c.Choose("result", 4); k {
	case 0, 1, 2:
		for i := 0; i <= k; i++ {
			if i == 0 {
				res = append(res, g.x(kindOf()))
			} else {
				res = append(res, g.x(i))
			}
		}
		if n == 0 {
			v = first.Returning(vals(res)...)
		} else {
			v = cond.Returning(vals(res)...)
		}
	case 3:
		res = nameXs(p.names)
		if n == 0 {
			v = first.ReturningByNamed(p.inner...)
		} else {
			v = cond.ReturningByNamed(p.inner...)
		}
	}
	return mkX(v, func(w *W) {
		w.sym("[")
		p.em(w)
		w.where(f)
		w.sym("|")
		resultEm(res)(w)
		w.sym("]")
	})
}

// listComp makes a list comprehension.
func (c *C) listComp(g *condGen, source X, variable string, kindOf func() int) X {
	def := cy.CypherListWith(cy.ASymbolic(variable)).In(source.v)
	var ret cy.OngoingDefinitionWithoutReturn = def
	var f *Form
	if k := c.Choose("filter", nConds+2); k == nConds+1 {
		ret = def.Where(cy.ConditionsNoCondition())
	} else if k > 0 {
		a := g.cond(k - 1)
		ret, f = def.Where(a.v), a.f
	}
	var v cy.ListComprehension
	var res []X
	switch k := c.Choose("result", 6); k {
	case 0:
		v = ret.ReturningDefault()
	case 1, 2, 3:
		for i := 0; i < k; i++ {
			if i == 0 {
				res = append(res, g.x(kindOf()))
			} else {
				res = append(res, g.x(i))
			}
		}
		v = ret.Returning(vals(res)...)
	case 4:
		n := g.fresh("n")
		res = nameXs([]string{n})
		v = ret.ReturningByNamed(cy.AnyNodeNamed(n))
	case 5:
		n := g.fresh("n")
		r, m := g.namedRel()
		res = nameXs([]string{n, m})
		v = ret.ReturningByNamed(cy.AnyNodeNamed(n), r.v)
	}
	return mkX(v, func(w *W) {
		w.sym("[")
		w.name(variable)
		w.kw("IN")
		w.x(source)
		w.where(f)
		if len(res) > 0 {
			w.sym("|")
			resultEm(res)(w)
		}
		w.sym("]")
	})
}

var predNames = []string{"all", "any", "none", "single"}

func (g *condGen) predicate(k int, sym bool, list X, cond Cn) Cn {
	v := g.fresh("v")
	var o cy.OngoingListBasedPredicateFunction
	if sym {
		o = []func(cy.SymbolicName) cy.OngoingListBasedPredicateFunction{cy.PredicateAllBySymbolicName, cy.PredicateAnyBySymbolicName, cy.PredicateNoneBySymbolicName, cy.PredicateSingleBySymbolicName}[k](cy.ASymbolic(v))
	} else {
		o = []func(string) cy.OngoingListBasedPredicateFunction{cy.PredicateAll, cy.PredicateAny, cy.PredicateNone, cy.PredicateSingle}[k](v)
	}
	return atomC(o.In(list.v).Where(cond.v), func(w *W) {
		w.kw(predNames[k])
		w.sym("(")
		w.name(v)
		w.kw("IN")
		w.x(list)
		w.where(cond.f)
		w.sym(")")
	})
}

// asX uses a condition as expression.
func (a Cn) asX() X {
	return mkX(a.v, func(w *W) { w.open(); w.cond(a.f); w.close() })
}

func (c *C) whereOf(a Cn) {
	n := mkN("n", nil, nil)
	st, err := cy.Match(n.v).Where(a.v).Returning(cy.ASymbolic("n")).Build()
	c.check(st, err, func(w *W) { w.kw("MATCH"); w.n(n); w.where(a.f); w.kw("RETURN n") })
}

func compHarnesses() []*Harness {
	any := func(c *C) func() int { return func() int { return c.Choose("kind", nKinds) } }
	plain := func() int { return 0 }
	return shared(1, []*Harness{
		{Prop: "C20", Name: "list-comprehensions", ShardDepth: 2,
			Rule: "list comprehensions over 20 kinds of sources x no filter, 7 kinds of filters, an empty filter x no result, 1 to 3 results (first of every kind), named results",
			Body: func(c *C) {
				var g condGen
				src := g.x(c.Choose("source", nKinds))
				c.checkX(c.listComp(&g, src, g.fresh("v"), any(c)))
			}},
		{Prop: "C20", Name: "pattern-comprehensions", ShardDepth: 3,
			Rule: "pattern comprehensions over 7 patterns and named paths x every sequence of up to 3 (thorough: 4) Where/And/Or calls with conditions and patterns x results (1 to 3, named)",
			Body: func(c *C) {
				var g condGen
				c.checkX(c.comp(&g, dep(3, 4), plain))
			}},
		{Prop: "C20", Name: "pattern-comprehension-results", ShardDepth: 3,
			Rule: "pattern comprehensions over 7 patterns x at most one filter x results of 20 kinds",
			Body: func(c *C) {
				var g condGen
				c.checkX(c.comp(&g, 1, any(c)))
			}},
		{Prop: "C20", Name: "comprehensions-everywhere", ShardDepth: 2,
			Rule: "pattern and list comprehensions with every filter and result in all 36 places of an expression",
			Body: func(c *C) {
				var g condGen
				k := c.Choose("place", nPlaces)
				if c.Bool("list") {
					c.inPlace(k, c.listComp(&g, g.x(0), g.fresh("v"), plain))
					return
				}
				c.inPlace(k, c.comp(&g, 1, plain))
			}},
		{Prop: "C20", Name: "nested-comprehensions", ShardDepth: 3,
			Rule: "list comprehensions with list comprehensions as source and as result, and pattern comprehensions as source",
			Body: func(c *C) {
				var g condGen
				var src X
				if c.Bool("pattern source") {
					src = c.comp(&g, 1, plain)
				} else {
					src = c.listComp(&g, g.x(0), g.fresh("v"), plain)
				}
				v := g.fresh("w")
				switch c.Choose("outer", 3) {
				case 0:
					c.checkX(mkX(cy.CypherListWith(cy.ASymbolic(v)).In(src.v).ReturningDefault(), func(w *W) {
						w.sym("[")
						w.name(v)
						w.kw("IN")
						w.x(src)
						w.sym("]")
					}))
				case 1:
					a, z := g.cond(2), g.x(0)
					c.checkX(mkX(cy.CypherListWith(cy.ASymbolic(v)).In(z.v).Where(a.v).Returning(src.v), func(w *W) {
						w.sym("[")
						w.name(v)
						w.kw("IN")
						w.x(z)
						w.where(a.f)
						w.sym("|")
						w.x(src)
						w.sym("]")
					}))
				case 2:
					a := g.predicate(c.Choose("predicate", 4), c.Bool("symbolic"), src, g.cond(0))
					c.whereOf(a)
				}
			}},
		{Prop: "C20", Name: "predicates", ShardDepth: 2,
			Rule: "all, any, none, single by name and by symbol x 20 kinds of lists x 7 kinds of conditions, as filter, negated, combined and as RETURN item",
			Body: func(c *C) {
				var g condGen
				k := c.Choose("predicate", 4)
				sym := c.Bool("symbolic")
				list := g.x(c.Choose("list", nKinds))
				cond := g.cond(c.Choose("condition", nConds))
				a := g.predicate(k, sym, list, cond)
				b := g.cond(0)
				switch c.Choose("use", 5) {
				case 0:
					c.whereOf(a)
				case 1:
					c.whereOf(Cn{a.v.Not().Get(), fNot(a.f), 0})
				case 2:
					c.whereOf(Cn{a.v.And(b.v).Get(), fBin("and", a.f, b.f), 0})
				case 3:
					c.whereOf(Cn{b.v.Or(a.v).Get(), fBin("or", b.f, a.f), 0})
				case 4:
					c.checkX(a.asX())
				}
			}},
		{Prop: "C20", Name: "nested-predicates", ShardDepth: 3,
			Rule: "predicates inside of predicates (as condition, negated, combined) to depth 3, comprehensions filtered by predicates",
			Body: func(c *C) {
				var g condGen
				var build func(d int) Cn
				build = func(d int) Cn {
					k := c.Choose("predicate", 4)
					in := g.cond(0)
					if d > 1 {
						b := build(d - 1)
						switch c.Choose("inner", 3) {
						case 0:
							in = b
						case 1:
							in = Cn{b.v.Not().Get(), fNot(b.f), 0}
						case 2:
							in = Cn{in.v.Or(b.v).Get(), fBin("or", in.f, b.f), 0}
						}
					}
					return g.predicate(k, d%2 == 0, g.x(0), in)
				}
				a := build(1 + c.Choose("depth", 3))
				if c.Bool("in comprehension") {
					v, z := g.fresh("v"), g.x(0)
					c.checkX(mkX(cy.CypherListWith(cy.ASymbolic(v)).In(z.v).Where(a.v).ReturningDefault(), func(w *W) {
						w.sym("[")
						w.name(v)
						w.kw("IN")
						w.x(z)
						w.where(a.f)
						w.sym("]")
					}))
					return
				}
				c.whereOf(a)
			}},
		{Prop: "C20", Name: "exists", ShardDepth: 1,
			Rule: "exists over properties and 5 patterns, negated and combined, pattern conditions, as filter and as value",
			Body: func(c *C) {
				var g condGen
				one := func() Cn {
					k := c.Choose("of", 6)
					if k == 5 {
						p := g.x(1)
						return atomC(cy.PredicateExists(p.v.(cy.Property)), fnEm("exists", p))
					}
					p := g.pat(k)
					return atomC(cy.PredicateExistsByPattern(p.v), func(w *W) { w.kw("exists"); w.sym("("); p.em(w); w.sym(")") })
				}
				a := one()
				switch c.Choose("use", 5) {
				case 0:
					c.whereOf(a)
				case 1:
					c.whereOf(Cn{a.v.Not().Get(), fNot(a.f), 0})
				case 2:
					b := one()
					c.whereOf(Cn{a.v.And(b.v).Get(), fBin("and", a.f, b.f), 0})
				case 3:
					b := one()
					c.whereOf(Cn{a.v.Xor(b.v).Get(), fBin("xor", a.f, b.f), 0})
				case 4:
					c.checkX(a.asX())
				}
			}},
		{Prop: "C20", Name: "existential-subqueries", ShardDepth: 3,
			Rule: "existential subqueries over 3 matches x every sequence of up to 2 (thorough: 3) filters (simple, compound, nested subqueries) in 8 places",
			Body: func(c *C) { c.existential() }},
		{Prop: "C20", Name: "comprehension-branches", ShardDepth: 2,
			Rule: "from every prefix of a definition of a list or pattern comprehension or predicate two different continuations",
			Body: func(c *C) {
				var g condGen
				switch c.Choose("what", 3) {
				case 0:
					p := g.pat(c.Choose("pattern", nPats))
					base := p.based()
					n := c.Choose("shared filters", 4)
					var cond cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere
					var f *Form
					for i := 0; i < n; i++ {
						a := g.cond(0)
						if i == 0 {
							cond, f = base.Where(a.v), a.f
						} else if c.Bool("or") {
							cond, f = cond.Or(a.v), fBin("or", f, a.f)
						} else {
							cond, f = cond.And(a.v), fBin("and", f, a.f)
						}
					}
					var xs []X
					for i := 0; i < 2; i++ {
						k := cond
						kf := f
						z := g.x(1)
						if n == 0 {
							if c.Bool("own filter") {
								a := g.cond(0)
								k, kf = base.Where(a.v), a.f
							}
						} else if c.Bool("own filter") {
							a := g.cond(0)
							if c.Bool("own or") {
								k, kf = cond.Or(a.v), fBin("or", f, a.f)
							} else {
								k, kf = cond.And(a.v), fBin("and", f, a.f)
							}
						}
						var v cy.Expression
						if k == nil {
							v = base.Returning(z.v)
						} else {
							v = k.Returning(z.v)
						}
						xs = append(xs, mkX(v, func(w *W) {
							w.sym("[")
							p.em(w)
							w.where(kf)
							w.sym("|")
							w.x(z)
							w.sym("]")
						}))
					}
					for _, x := range xs {
						c.checkX(x)
					}
				case 1:
					v, src := g.fresh("v"), g.x(0)
					in := cy.CypherListWith(cy.ASymbolic(v)).In(src.v)
					a := g.cond(c.Choose("condition", nConds))
					b := g.cond(c.Choose("condition", nConds))
					z := g.x(1)
					w1, w2 := in.Where(a.v), in.Where(b.v)
					mk := func(vv cy.Expression, f *Form, res bool) X {
						return mkX(vv, func(w *W) {
							w.sym("[")
							w.name(v)
							w.kw("IN")
							w.x(src)
							w.where(f)
							if res {
								w.sym("|")
								w.x(z)
							}
							w.sym("]")
						})
					}
					xs := []X{mk(w1.ReturningDefault(), a.f, false), mk(w2.Returning(z.v), b.f, true), mk(in.Returning(z.v), nil, true), mk(w1.Returning(z.v), a.f, true), mk(in.ReturningDefault(), nil, false)}
					for _, x := range xs {
						c.checkX(x)
					}
				case 2:
					k := c.Choose("predicate", 4)
					v := g.fresh("v")
					o := []func(string) cy.OngoingListBasedPredicateFunction{cy.PredicateAll, cy.PredicateAny, cy.PredicateNone, cy.PredicateSingle}[k](v)
					l1, l2 := g.x(0), g.x(5)
					a, b := g.cond(c.Choose("condition", nConds)), g.cond(c.Choose("condition", nConds))
					i1, i2 := o.In(l1.v), o.In(l2.v)
					mk := func(vv cy.Condition, l X, f *Form) Cn {
						return atomC(vv, func(w *W) {
							w.kw(predNames[k])
							w.sym("(")
							w.name(v)
							w.kw("IN")
							w.x(l)
							w.where(f)
							w.sym(")")
						})
					}
					for _, x := range []Cn{mk(i1.Where(a.v), l1, a.f), mk(i2.Where(a.v), l2, a.f), mk(i1.Where(b.v), l1, b.f), mk(i1.Where(a.v), l1, a.f)} {
						c.whereOf(x)
					}
				}
			}},
		{Prop: "C20", Name: "long-results", ShardDepth: 1,
			Rule: "list and pattern comprehensions with every number of results and filters up to 130 (thorough: 600)",
			Body: func(c *C) {
				n := 1 + c.Choose("size", dep(130, 600))
				var g condGen
				var res []X
				for i := 0; i < n; i++ {
					res = append(res, xSym(fmt.Sprint("r", i)))
				}
				if c.Bool("pattern") {
					p := g.pat(0)
					a := propC("c", "p", 0)
					k, f := p.based().Where(a.v), a.f
					for i := 1; i < n && i < 130; i++ {
						b := propC("c", "p", i)
						k = k.And(b.v)
						f = fBin("and", f, b.f)
					}
					// the meaning of that many conditions can not be tabulated: compare the text
					x := mkX(k.Returning(vals(res)...), func(w *W) {
						w.sym("[")
						p.em(w)
						w.kw("WHERE")
						if n > 1 {
							w.open()
						}
						for i := 0; i < n && i < 130; i++ {
							if i > 0 {
								w.kw("AND")
							}
							w.name("c")
							w.sym(".")
							w.name("p")
							w.sym("=")
							w.num(i)
						}
						if n > 1 {
							w.close()
						}
						w.sym("|")
						resultEm(res)(w)
						w.sym("]")
					})
					c.checkX(x)
					return
				}
				z := g.x(0)
				c.checkX(mkX(cy.CypherListWith(cy.ASymbolic("v")).In(z.v).Returning(vals(res)...), func(w *W) {
					w.sym("[")
					w.name("v")
					w.kw("IN")
					w.x(z)
					w.sym("|")
					resultEm(res)(w)
					w.sym("]")
				}))
			}},
	}...)
}
