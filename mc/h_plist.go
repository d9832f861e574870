package main

// Long lists of patterns, links and conditions of which one differs.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

const nPatKinds = 9

// pat makes a pattern of the k-th kind with names of its own.
func (g *condGen) onePat(k int) P {
	s := g.fresh("n")
	switch k {
	case 0:
		return newN(s, nil, nil).p()
	case 1:
		return newN("", nil, nil).p()
	case 2:
		return newN(s, []string{"A b", "C"}, []KV{{"k", g.x(3)}}).p()
	case 3:
		return newR(newN(s, nil, nil), 2, newN("", []string{"L"}, nil), []string{"T", "U"}).mod(7, 2).mod(0, g.n).p()
	case 4:
		r := newR(newN("", nil, nil), 1, newN(s, nil, nil), []string{"T"})
		return r.grow(0, newN("", []string{"E"}, nil), "V").lastMod(8, 3).p()
	case 5:
		r := newR(newN("", nil, nil), 0, newN("", nil, nil), nil)
		return P{cy.APath(s).DefinedBy(r.v), func(w *W) { w.name(s); w.sym("="); w.r(r) }}
	case 6:
		r := newR(newN("", nil, nil), 0, newN("", nil, nil), []string{"T"}).mod(2, 0)
		return P{cy.AShortestPath(s).DefinedBy(r.v), func(w *W) {
			w.name(s)
			w.sym("=")
			w.kw("shortestPath")
			w.sym("(")
			w.r(r)
			w.sym(")")
		}}
	case 7: // a chain from a node to itself
		n := newN(s, []string{"L"}, nil)
		return newR(n, 0, n, []string{"T"}).grow(1, n, "U").p()
	}
	return newR(newN(s, nil, nil), 2, newN("", nil, nil), nil).p()
}

func (c *C) mixed(n, p, k, m int, plain, special func(i int) P) []P {
	ps := make([]P, n)
	for i := range ps {
		ps[i] = plain(i)
	}
	switch k {
	case m:
		ps[p] = ps[0]
	case m + 1:
		ps[p] = ps[n-1]
	case m + 2:
		ps[p] = ps[(p+1)%n]
	default:
		ps[p] = special(k)
	}
	return ps
}

func plistHarnesses() []*Harness {
	clause := func(c *C, ps []P) {
		switch c.Choose("clause", 5) {
		case 0:
			s, err := cy.Match(pvals(ps)...).Returning(cy.AnAsterisk()).Build()
			c.check(s, err, func(w *W) { w.kw("MATCH"); w.ps(ps); w.kw("RETURN"); w.sym("*") })
		case 1:
			s, err := cy.Match(newN("", nil, nil).v).OptionalMatch(pvals(ps)...).Where(cy.ASymbolic("m").IsNull().Get()).Returning(cy.AnAsterisk()).Build()
			c.check(s, err, func(w *W) {
				w.kw("MATCH")
				w.sym("(", ")")
				w.kw("OPTIONAL MATCH")
				w.ps(ps)
				w.kw("WHERE m IS NULL RETURN")
				w.sym("*")
			})
		case 2:
			s, err := cy.Create(pvals(ps)...).Build()
			c.check(s, err, func(w *W) { w.kw("CREATE"); w.ps(ps) })
		case 3: // one clause for each
			b := cy.Match(ps[0].v)
			for _, p := range ps[1:] {
				b = b.Match(p.v)
			}
			s, err := b.Returning(cy.AnAsterisk()).Build()
			c.check(s, err, func(w *W) {
				for _, p := range ps {
					w.kw("MATCH")
					w.ps([]P{p})
				}
				w.kw("RETURN")
				w.sym("*")
			})
		case 4:
			in := cy.Match(pvals(ps)...).Where(cy.ASymbolic("m").IsNull().Get())
			s, err := cy.Match(nodeNamed("m")).Where(in.AsCondition()).Returning(cy.AnAsterisk()).Build()
			c.check(s, err, func(w *W) {
				w.kw("MATCH")
				w.m()
				w.kw("WHERE EXISTS")
				w.sym("{")
				w.kw("MATCH")
				w.ps(ps)
				w.kw("WHERE m IS NULL")
				w.sym("}")
				w.kw("RETURN")
				w.sym("*")
			})
		}
	}
	return []*Harness{
		{Prop: "C11", Name: "one-pattern-in-many", ShardDepth: 3,
			Rule: "lists of patterns with each of 9 kinds of patterns at each position, or one object at that and at the first, last or next position; in MATCH, OPTIONAL MATCH with a filter, CREATE, one MATCH after the other, an existential subquery; lengths as in one-in-many",
			Body: func(c *C) {
				n, p := c.listSize()
				g := &condGen{}
				how := c.Choose("plain", 3)
				ps := c.mixed(n, p, c.Choose("pattern", nPatKinds+3), nPatKinds,
					func(i int) P { return g.onePat([]int{0, 2, 4}[how]) }, g.onePat)
				clause(c, ps)
			}},
		{Prop: "C11", Name: "one-node-in-many", ShardDepth: 3,
			Rule: "as many nodes, relationships or links as in one-in-many; the first, the last or the next occurrence of a node at each position: everything of a named node is written at its first occurrence only",
			Body: func(c *C) {
				n, p := c.listSize()
				ns := make([]N, n)
				named := c.Bool("named")
				for i := range ns {
					name := ""
					if named || i%3 == 0 {
						name = word(i)
					}
					ns[i] = newN(name, []string{"L"}, []KV{{"k", xInt(i)}})
				}
				switch c.Choose("same as", 4) {
				case 0:
					ns[p] = ns[0]
				case 1:
					ns[p] = ns[n-1]
				case 2:
					ns[p] = ns[(p+1)%n]
				case 3:
					for i := 0; i < p; i++ {
						ns[i] = ns[p]
					}
				}
				var ps []P
				switch c.Choose("as", 3) {
				case 0:
					for _, n := range ns {
						ps = append(ps, n.p())
					}
				case 1:
					for i, x := range ns {
						ps = append(ps, newR(x, i%3, ns[(i+1)%n], []string{"T"}).p())
					}
				case 2:
					ch := newR(ns[0], 0, ns[1], nil).grow(1, ns[2%n], "T")
					for i := 3; i < n; i++ {
						ch = ch.grow(i%3, ns[i], "T")
					}
					ps = append(ps, ch.p())
				}
				clause(c, ps)
			}},
		{Prop: "C12", Name: "one-link-in-many", ShardDepth: 3,
			Rule: "chains of which one link has one of 10 kinds of details and one or many types, or one node at its end, at the start, or at the end of the link before; lengths as in one-in-many",
			Body: func(c *C) {
				n, p := c.listSize()
				how := c.Choose("link", nMods+5)
				all := c.Bool("detailed")
				e := newN("", nil, nil)
				var ch Ch
				start := newN(word(0), []string{"L"}, nil)
				r := newR(start, 2, e, []string{"T"})
				if n == 2 {
					ch = Ch{cy.RelationshipChainCreate(r.v), []R{r}}
				}
				last := e
				for i := 1; i <= n; i++ {
					x, d, ts := e, 2, []string{"T"}
					if all {
						x, d, ts = newN(word(i), nil, nil), i%3, []string{"T", fmt.Sprint("U", i)}
					}
					if i == p+1 {
						switch how {
						case nMods:
							ts = nil
						case nMods + 1:
							ts = []string{"A", "B c", "D", "E", "F", "G", "H`", "I", "J"}
						case nMods + 2:
							x = start
						case nMods + 3:
							x = last
						case nMods + 4:
							x = newN("end", []string{"A", "B"}, []KV{{"k", xStr("it's")}})
						}
					}
					if ch.rs == nil {
						ch = r.grow(d, x, ts...)
					} else {
						ch = ch.grow(d, x, ts...)
					}
					if i == p+1 && how < nMods {
						ch = ch.lastMod(how, i)
					} else if all {
						ch = ch.lastMod(0, i)
					}
					last = x
				}
				switch c.Choose("used", 4) {
				case 0:
					c.checkP(0, ch.p())
				case 1:
					c.checkP(2, start.p(), ch.p(), ch.p())
				case 2:
					s, err := cy.Match(nodeNamed("m")).Where(cy.RelationshipPatternConditionCreate(ch.v)).Returning(cy.AnAsterisk()).Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.m()
						w.where(&Form{op: "atom", em: func(w *W) { w.ch(ch) }})
						w.kw("RETURN")
						w.sym("*")
					})
				case 3:
					c.checkX(mkX(cy.ListBasedOn(ch.v).Returning(cy.AProperty("m", "k")), func(w *W) {
						w.sym("[")
						w.ch(ch)
						w.sym("|")
						w.name("m")
						w.sym(".")
						w.name("k")
						w.sym("]")
					}))
				}
			}},
		{Prop: "C14", Name: "one-sort-item-in-many", ShardDepth: 3,
			Rule: "orderings of RETURN and WITH in which one of many sort items is descending, ascending, of another kind, or the very object at the first, last or next position, with or without SKIP and LIMIT; lengths as in one-in-many",
			Body: func(c *C) {
				n, p := c.listSize()
				g := &condGen{}
				type item struct {
					v   cy.SortItem
					of  X
					dir string
				}
				is := make([]item, n)
				for i := range is {
					x := g.x(i % 2)
					is[i] = item{cy.Sort(x.v), x, ""}
				}
				x := g.x(1)
				switch k := c.Choose("item", nKinds+5); k {
				case nKinds:
					is[p] = item{cy.Sort(x.v).Descending(), x, "DESC"}
				case nKinds + 1:
					is[p] = item{cy.Sort(x.v).Ascending(), x, "ASC"}
				case nKinds + 2:
					is[p] = is[0]
				case nKinds + 3:
					is[p] = is[n-1]
				case nKinds + 4:
					is[p] = is[(p+1)%n]
				default:
					x = g.x(k)
					is[p] = item{cy.Sort(x.v).Descending(), x, "DESC"}
				}
				var vs []cy.SortItem
				for _, i := range is {
					vs = append(vs, i.v)
				}
				order := func(w *W) {
					w.kw("ORDER BY")
					for i, x := range is {
						if i > 0 {
							w.sym(",")
						}
						w.x(x.of)
						w.kw(x.dir)
					}
				}
				switch c.Choose("of", 3) {
				case 0:
					s, err := cy.Match(nodeNamed("m")).Returning(cy.AnAsterisk()).OrderBySortItem(vs...).Build()
					c.check(s, err, func(w *W) { w.kw("MATCH"); w.m(); w.kw("RETURN"); w.sym("*"); order(w) })
				case 1:
					s, err := cy.Match(nodeNamed("m")).ReturningDistinct(cy.AnAsterisk()).OrderBySortItem(vs...).Skip(n).Limit(p + 1).Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.m()
						w.kw("RETURN DISTINCT")
						w.sym("*")
						order(w)
						w.kw("SKIP")
						w.num(n)
						w.kw("LIMIT")
						w.num(p + 1)
					})
				case 2:
					s, err := cy.Match(nodeNamed("m")).With(cy.AnAsterisk()).OrderBySortItem(vs...).Skip(n).Limit(p + 1).ReturningByString("m").OrderBySortItem(vs...).Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.m()
						w.kw("WITH")
						w.sym("*")
						order(w)
						w.kw("SKIP")
						w.num(n)
						w.kw("LIMIT")
						w.num(p + 1)
						w.kw("RETURN m")
						order(w)
					})
				}
			}},
		{Prop: "C15", Name: "one-query-in-many", ShardDepth: 3,
			Rule: "unions of as many queries as in one-in-many, one of which has a filter, many patterns, an ordering, a subquery, an update or is a union itself, or is the very object at the first, last or next position; both kinds; also below a subquery",
			Body: func(c *C) {
				n, p := c.listSize()
				k := c.Choose("query", 10)
				g := &condGen{}
				type query struct {
					s  cy.Statement
					em Em
				}
				must := func(s cy.Statement, err error, em Em) query {
					if err != nil {
						c.Fail("unexpected error %v", err)
					}
					return query{s, em}
				}
				plain := func() query {
					x := g.x(1)
					s, err := cy.CypherReturning(x.v).Build()
					return must(s, err, func(w *W) { w.kw("RETURN"); w.x(x) })
				}
				qs := make([]query, n)
				for i := range qs {
					qs[i] = plain()
				}
				v := atomC(cy.AProperty("m", "k").IsNull().Get(), func(w *W) { w.name("m"); w.sym("."); w.name("k"); w.kw("IS NULL") })
				all := c.Bool("all")
				word := map[bool]string{true: "UNION ALL", false: "UNION"}
				union := func(all bool, qs ...query) query {
					var ss []cy.Statement
					for _, q := range qs {
						ss = append(ss, q.s)
					}
					u := cy.Union(ss...)
					if all {
						u = cy.UnionAll(ss...)
					}
					return must(u, u.GetError(), func(w *W) {
						for i, q := range qs {
							if i > 0 {
								w.kw(word[all])
							}
							q.em(w)
						}
					})
				}
				switch k {
				case 0:
					s, err := cy.Match(nodeNamed("m")).Where(v.v).Returning(cy.AnAsterisk()).Build()
					qs[p] = must(s, err, func(w *W) { w.kw("MATCH"); w.m(); w.where(v.f); w.kw("RETURN"); w.sym("*") })
				case 1:
					ps := []P{g.onePat(2), g.onePat(3), g.onePat(4)}
					s, err := cy.Match(pvals(ps)...).Returning(cy.AnAsterisk()).Build()
					qs[p] = must(s, err, func(w *W) { w.kw("MATCH"); w.ps(ps); w.kw("RETURN"); w.sym("*") })
				case 2:
					s, err := cy.With(cy.AnAsterisk()).Where(v.v).Returning(cy.AnAsterisk()).OrderBySortItem(cy.Sort(cy.ASymbolic("m")).Descending()).Skip(1).Limit(2).Build()
					qs[p] = must(s, err, func(w *W) {
						w.kw("WITH")
						w.sym("*")
						w.where(v.f)
						w.kw("RETURN")
						w.sym("*")
						w.kw("ORDER BY m DESC SKIP")
						w.num(1)
						w.kw("LIMIT")
						w.num(2)
					})
				case 3:
					in := plain()
					s, err := cy.ACallByStatement(in.s).Returning(cy.AnAsterisk()).Build()
					qs[p] = must(s, err, func(w *W) {
						w.kw("CALL")
						w.sym("{")
						in.em(w)
						w.sym("}")
						w.kw("RETURN")
						w.sym("*")
					})
				case 4:
					s, err := cy.Merge(nodeNamed("m")).OnCreate().Set(cy.AProperty("m", "k"), cy.LiteralOf(1)).Returning(cy.AnAsterisk()).Build()
					qs[p] = must(s, err, func(w *W) {
						w.kw("MERGE")
						w.m()
						w.kw("ON CREATE SET m")
						w.of("k")
						w.num(1)
						w.kw("RETURN")
						w.sym("*")
					})
				case 5:
					if p > 0 {
						return // a union that is not the first may be refused
					}
					qs[p] = union(all, plain(), plain(), plain())
				case 6:
					in := union(!all, plain(), plain(), plain())
					s, err := cy.ACallByStatement(in.s).Returning(cy.AnAsterisk()).Build()
					qs[p] = must(s, err, func(w *W) {
						w.kw("CALL")
						w.sym("{")
						in.em(w)
						w.sym("}")
						w.kw("RETURN")
						w.sym("*")
					})
				case 7:
					qs[p] = qs[0]
				case 8:
					qs[p] = qs[n-1]
				case 9:
					qs[p] = qs[(p+1)%n]
				}
				q := union(all, qs...)
				if c.Bool("below") {
					s, err := cy.Match(nodeNamed("q")).Call(q.s).Returning(cy.AnAsterisk()).Build()
					c.check(s, err, func(w *W) {
						w.kw("MATCH")
						w.sym("(")
						w.name("q")
						w.sym(")")
						w.kw("CALL")
						w.sym("{")
						q.em(w)
						w.sym("}")
						w.kw("RETURN")
						w.sym("*")
					})
					return
				}
				c.check(q.s, q.s.GetError(), q.em)
			}},
		{Prop: "C06", Name: "one-condition-in-many", ShardDepth: 3,
			Rule: "conditions of which one of many is of each of the 27 kinds, a negation, a combination, the empty condition; joined by AND, OR, XOR or in turns, step by step or on the statement; or one object at that and the first, the last or the next position; lengths as in one-in-many",
			Body: func(c *C) {
				n, p := c.listSize()
				op := c.Choose("operator", 5)
				k := c.Choose("condition", nCondKinds+8)
				g := &condGen{}
				cs := make([]CX, n)
				for i := range cs {
					cs[i] = g.atom()
				}
				switch k {
				case nCondKinds:
					cs[p] = g.atom().not(0)
				case nCondKinds + 1:
					cs[p] = g.atom().chain("or", g.atom(), true)
				case nCondKinds + 2:
					cs[p] = g.atom().chain("and", g.atom(), false)
				case nCondKinds + 3:
					cs[p] = g.atom().chain("xor", g.atom(), true).not(0)
				case nCondKinds + 4:
					cs[p] = cxEmpty()
				case nCondKinds + 5:
					cs[p] = cs[0]
				case nCondKinds + 6:
					cs[p] = cs[n-1]
				case nCondKinds + 7:
					cs[p] = cs[(p+1)%n]
				default:
					cs[p] = g.kind(k)
				}
				ops := []string{"and", "or", "xor"}
				x := cs[0]
				for i, y := range cs[1:] {
					o := ""
					switch op {
					case 3:
						o = ops[i%2]
					case 4:
						o = ops[i%3]
					default:
						o = ops[op]
					}
					x = x.chain(o, y, true)
				}
				c.checkWhere(x)
			}},
	}
}
