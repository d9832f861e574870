package main

// C13: aliases and where they occur again.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// aliases is the pool: two expressions, what looks like the first one, and aliases of them.
type aliases struct {
	x, twin, y        X
	a, b, c, again, t A
	g                 condGen
	defined           map[int]map[string]bool
}

func (g *condGen) aliasKind(k int) X {
	g.n++
	kw := func(s string) Em { return func(w *W) { w.kw(s) } }
	switch k {
	case nKinds:
		return mkX(cy.LiteralTrue(), kw("true"))
	case nKinds + 1:
		return mkX(cy.LiteralFalse(), kw("false"))
	case nKinds + 2:
		return mkX(cy.ConditionsIsTrue(), kw("true"))
	}
	if k > nKinds+2 {
		return ofShared(k - nKinds - 3)
	}
	return g.x(k)
}

// the parts that look-alikes have in common
var common struct {
	n    N
	r    R
	x, y X
}

func newCommon() {
	common.n = mkN("cn", []string{"L"}, nil)
	common.r = mkR(mkN("", nil, nil), 0, mkN("", nil, nil), "T").named("cr")
	common.x, common.y = xSym("cx"), xProp("cy", "p")
}

const nOfShared = 22
const nAliasKinds = nKinds + 3 + nOfShared

// ofShared makes an expression of the common parts: two of them are different objects of the same parts.
func ofShared(k int) X {
	n, r, x, y := common.n, common.r, common.x, common.y
	dot := func(a, b string) Em { return func(w *W) { w.name(a); w.sym("."); w.name(b) } }
	switch k {
	case 0:
		return mkX(n.v.Property("p"), dot("cn", "p"))
	case 1:
		return mkX(r.v.Property("p"), dot("cr", "p"))
	case 2:
		return mkX(cy.APropertyByExpression(x.v, "p"), func(w *W) { w.x(x); w.sym("."); w.name("p") })
	case 3:
		return mkX(cy.Labels(n.v), nmEm("labels", "cn"))
	case 4:
		return mkX(cy.Count(n.v), nmEm("count", "cn"))
	case 5:
		return mkX(cy.Coalesce(x.v, y.v), fnEm("coalesce", x, y))
	case 6:
		return mkX(cy.ListOf(x.v, y.v), func(w *W) { w.sym("["); w.xs([]X{x, y}); w.sym("]") })
	case 7:
		return mkX(cy.MapOf("k", x.v), func(w *W) { w.mapOf([]KV{{"k", x}}) })
	case 8:
		return mkX(x.v.Add(y.v).Get(), func(w *W) { w.open(); w.x(x); w.sym("+"); w.x(y); w.close() })
	case 9:
		return mkX(n.v.Project("a"), func(w *W) { w.name("cn"); w.sym("{", "."); w.name("a"); w.sym("}") })
	case 10:
		e := mkX(x.v.IsNull().Get(), func(w *W) { w.open(); w.x(x); w.kw("IS NULL"); w.close() })
		e.operator = true
		return e
	case 11:
		return mkX(cy.CypherValueAt(x.v, 1), func(w *W) { w.x(x); w.sym("["); w.num(1); w.sym("]") })
	case 12:
		return mkX(cy.ASubList(x.v, 1, 2), func(w *W) {
			w.x(x)
			w.sym("[")
			w.num(1)
			w.sym("..")
			w.num(2)
			w.sym("]")
		})
	case 13:
		return mkX(cy.CaseExpression(x.v).When(y.v).Then(x.v), func(w *W) {
			w.kw("CASE")
			w.x(x)
			w.kw("WHEN")
			w.x(y)
			w.kw("THEN")
			w.x(x)
			w.kw("END")
		})
	case 14:
		return mkX(cy.CypherListWith(cy.ASymbolic("it")).In(x.v).Returning(y.v), func(w *W) {
			w.sym("[")
			w.name("it")
			w.kw("IN")
			w.x(x)
			w.sym("|")
			w.x(y)
			w.sym("]")
		})
	case 15:
		return mkX(cy.ListBasedOn(r.v).Returning(x.v), func(w *W) { w.sym("["); w.r(r); w.sym("|"); w.x(x); w.sym("]") })
	case 16:
		return mkX(cy.FunctionType(r.v), nmEm("type", "cr"))
	case 17:
		return mkX(cy.CountDistinctByExpression(x.v), func(w *W) { w.kw("count"); w.sym("("); w.kw("DISTINCT"); w.x(x); w.sym(")") })
	case 18:
		return mkX(n.v.Labels(), nmEm("labels", "cn"))
	case 19:
		e := mkX(x.v.IsNotEqualTo(y.v).Get(), func(w *W) { w.open(); w.x(x); w.sym("<>"); w.x(y); w.close() })
		e.operator = true
		return e
	case 20:
		return mkX(cy.IdByNode(n.v), nmEm("id", "cn"))
	case 21:
		return mkX(cy.Avg(y.v), fnEm("avg", y))
	}
	panic("of shared")
}

func newAliases(kind int) *aliases {
	s := &aliases{defined: map[int]map[string]bool{}}
	newCommon()
	g1, g2 := s.g, s.g
	s.x, s.twin = g1.aliasKind(kind), g2.aliasKind(kind)
	s.g.n = 100
	s.y = s.g.x(1)
	s.a, s.b, s.c, s.again, s.t = mkA(s.x, "a"), mkA(s.y, "b"), mkA(s.x, "c"), mkA(s.x, "a"), mkA(s.twin, "t")
	return s
}

const nAliasItems = 10

// item gives what stands at a position. It is nil when that is not specified: an alias at a place where it can not be
// defined, an expression that has two aliases.
func (s *aliases) item(k int, defines bool) *X {
	one := func(x X) *X {
		if len(s.defined[x.id]) > 1 {
			return nil
		}
		return &x
	}
	al := func(a A) *X {
		x := a.x()
		if s.defined[a.of.id][a.alias] {
			return &x
		}
		if !defines {
			return nil
		}
		if len(s.defined[a.of.id]) > 1 {
			return nil
		}
		if s.defined[a.of.id] == nil {
			s.defined[a.of.id] = map[string]bool{}
		}
		s.defined[a.of.id][a.alias] = true
		return &x
	}
	switch k {
	case 0:
		return al(s.a)
	case 1:
		return one(s.x)
	case 2:
		return one(s.twin)
	case 3:
		return al(s.b)
	case 4:
		return one(s.y)
	case 5, 6:
		in := one(s.x)
		if k == 6 {
			if !s.defined[s.x.id]["a"] {
				return nil
			}
			in = al(s.a)
		}
		if in == nil {
			return nil
		}
		z := xSym("z")
		x := mkX(cy.Coalesce(in.v, z.v), fnEm("coalesce", *in, z))
		return &x
	case 7:
		return al(s.c)
	case 8:
		return al(s.again)
	case 9:
		return al(s.t)
	}
	panic("item")
}

// aliasPositions in their order in the text.
const nAliasPositions = 10

// aliasProgram puts items at positions.
func (c *C) aliasProgram(at map[int]X) {
	z := xSym("z")
	var s sb
	items := func(ps ...int) []X {
		var r []X
		for _, p := range ps {
			if x, ok := at[p]; ok {
				r = append(r, x)
			}
		}
		if len(r) == 0 {
			r = []X{z}
		}
		return r
	}
	m := mkN("m", nil, nil)
	s.patterns(0, []P{m.p()})
	order := func(p int) {
		if x, ok := at[p]; ok {
			s.call("OrderBy", x.v)
			s.ems = append(s.ems, func(w *W) { w.kw("ORDER BY"); w.x(x) })
		}
	}
	s.exprs("With", "WITH", items(0, 1)...)
	if x, ok := at[2]; ok {
		s.call("OrderBySortItem", cy.Sort(x.v).Descending())
		s.ems = append(s.ems, func(w *W) { w.kw("ORDER BY"); w.x(x); w.kw("DESC") })
	}
	if x, ok := at[3]; ok {
		s.call("Where", x.v.IsEqualTo(z.v).Get())
		s.ems = append(s.ems, func(w *W) {
			w.where(&Form{op: "atom", em: func(w *W) { w.open(); w.x(x); w.close(); w.sym("="); w.x(z) }})
		})
	}
	if x, ok := at[4]; ok {
		s.call("Unwind", x.v)
		s.call("As", "u")
		s.ems = append(s.ems, func(w *W) { w.kw("UNWIND"); w.x(x); w.kw("AS"); w.name("u") })
	}
	_, x5 := at[5]
	_, x6 := at[6]
	if x5 || x6 {
		if x5 {
			s.exprs("WithDistinct", "WITH DISTINCT", items(5)...)
		} else {
			s.exprs("With", "WITH", z)
		}
		if x6 {
			x := at[6]
			n := mkN("n", []string{"L"}, []KV{{"k", x}})
			s.patterns(1, []P{n.p()})
		}
	}
	s.exprs("Returning", "RETURN", items(7, 8)...)
	order(9)
	c.checkSB(&s)
}

// sortedPositions chooses positions in order.
func (c *C) positions(max int) []int {
	var ps []int
	next := 0
	for len(ps) < max && next < nAliasPositions {
		k := c.Choose("position", nAliasPositions-next+1)
		if k == 0 {
			break
		}
		next += k - 1
		ps = append(ps, next)
		next++
	}
	return ps
}

func definesAt(p int) bool { return p == 0 || p == 1 || p == 5 || p == 7 || p == 8 }

func aliasHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C13", Name: "alias-occurrences", ShardDepth: 3,
			Rule: "up to 4 (thorough: 5) of 10 positions (WITH items, its ORDER BY and WHERE, UNWIND, WITH DISTINCT, node properties, RETURN items, ORDER BY) x 10 items (alias, its expression, an expression that looks alike, a second expression with and without alias, both nested in a function, a second alias of the expression, another object with the same alias, an alias of the look-alike)",
			Body: func(c *C) {
				s := newAliases(1)
				at := map[int]X{}
				for _, p := range c.positions(dep(4, 5)) {
					x := s.item(c.Choose("item", nAliasItems), definesAt(p))
					if x == nil {
						return
					}
					at[p] = *x
				}
				c.aliasProgram(at)
			}},
		{Prop: "C13", Name: "aliases-of-kinds", ShardDepth: 3,
			Rule: "aliases of 45 kinds of expressions at one of the defining positions, then the alias, its expression or one that looks alike at every other two positions",
			Body: func(c *C) {
				s := newAliases(c.Choose("kind", nAliasKinds))
				at := map[int]X{}
				ps := c.positions(3)
				for i, p := range ps {
					k := 0
					if i > 0 {
						k = []int{0, 1, 2, 5, 8}[c.Choose("item", 5)]
					}
					x := s.item(k, definesAt(p))
					if x == nil {
						return
					}
					at[p] = *x
				}
				c.aliasProgram(at)
			}},
		{Prop: "C13", Name: "aliases-in-places", ShardDepth: 2,
			Rule: "an alias defined by WITH, then the alias or its expression in 14 kinds of other expressions behind it at 3 positions, for 45 kinds of expressions",
			Body: func(c *C) {
				s := newAliases(c.Choose("kind", nAliasKinds))
				k := c.Choose("place", nNested)
				item := c.Choose("item", 3)
				x := *s.item(item, false2(s))
				z := xSym("z")
				v, em := nested(k, x)
				var b sb
				b.exprs("With", "WITH", z, s.a.x())
				pos := c.Choose("position", 3)
				if k == 0 && pos == 2 && item < 2 {
					// an alias of an alias
					return
				}
				switch pos {
				case 0:
					b.exprs("Returning", "RETURN", mkX(v, em))
				case 1:
					b.exprs("Returning", "RETURN", z, mkX(v, em), s.a.x())
				case 2:
					b.exprs("With", "WITH", mkA(mkX(v, em), "other").x())
					b.exprs("Returning", "RETURN", s.a.x())
				}
				c.checkSB(&b)
			}},
		{Prop: "C13", Name: "aliases-and-subqueries", ShardDepth: 1,
			Rule: "an alias defined in a subquery and referenced behind it, and the other way round, with its object and its expression, one or two levels",
			Body: func(c *C) {
				s := newAliases(c.Choose("kind", nAliasKinds))
				if s.y.id == s.x.id {
					return // two aliases of one expression
				}
				z := xSym("z")
				var in, out sb
				in.exprs("With", "WITH", z)
				in.exprs("Returning", "RETURN", s.a.x(), mkA(s.y, "b").x())
				levels := 1 + c.Choose("levels", 2)
				cur := in
				for i := 0; i < levels; i++ {
					st, err := cur.b.(interface {
						Build() (cy.Statement, error)
					}).Build()
					if err != nil {
						c.Fail("unexpected error %v", err)
						return
					}
					ems := cur.ems
					out = sb{b: cy.ACallByStatement(st), ems: []Em{func(w *W) {
						w.kw("CALL")
						w.sym("{")
						for _, e := range ems {
							e(w)
						}
						w.sym("}")
					}}}
					items := [][]X{{s.a.x()}, {s.x}, {s.a.x(), s.b.x()}, {s.twin, s.x}}[c.Choose("items", 4)]
					out.exprs("Returning", "RETURN", items...)
					cur = out
				}
				c.checkSB(&out)
			}},
		{Prop: "C13", Name: "many-aliases", ShardDepth: 1,
			Rule: "every number of aliases up to 200 (thorough: 1000) in WITH, all of them referenced by object, by expression, in ORDER BY, in reverse; expressions alike without alias in between",
			Body: func(c *C) {
				n := 1 + c.Choose("aliases", dep(200, 1000))
				if n > 7 && sharing() {
					return // two aliases of one expression
				}
				var as, back []X
				for i := 0; i < n; i++ {
					x := xProp("n", fmt.Sprint("p", i%7))
					as = append(as, mkA(x, fmt.Sprint("a", i)).x())
					switch i % 3 {
					case 0:
						back = append(back, x)
					case 1:
						back = append(back, as[i])
					case 2:
						back = append(back, xProp("n", fmt.Sprint("p", i%7)))
					}
				}
				if c.Bool("reverse") {
					for i, j := 0, len(back)-1; i < j; i, j = i+1, j-1 {
						back[i], back[j] = back[j], back[i]
					}
				}
				var s sb
				s.exprs("With", "WITH", as...)
				s.exprs("Returning", "RETURN", back...)
				c.checkSB(&s)
			}},
		{Prop: "C13", Name: "node-aliases", ShardDepth: 1,
			Rule: "nodes, symbols, functions, conditions and containers given an alias by As, used as item and in ORDER BY again",
			Body: func(c *C) {
				var x X
				var a cy.AliasedExpression
				as := func(e cy.ExpressionContainer) cy.AliasedExpression { return e.Get().(cy.AliasedExpression) }
				switch c.Choose("of", 7) {
				case 0:
					n := mkN("n", []string{"L"}, nil)
					x, a = X{id: nextID(), em: func(w *W) { w.name("n") }}, n.v.As("al")
				case 1:
					x = xSym("v")
					a = as(x.v.As("al"))
				case 2:
					x = xProp("v", "p")
					a = as(x.v.As("al"))
				case 3:
					y := xProp("v", "p")
					f := cy.Count(cy.AnyNodeNamed("n"))
					_ = y
					x, a = mkX(f, nmEm("count", "n")), as(f.As("al"))
				case 4:
					y := xProp("v", "p")
					o := y.v.Add(cy.LiteralOf(1))
					x, a = mkX(o.Get(), func(w *W) { w.open(); w.x(y); w.sym("+"); w.num(1); w.close() }), as(o.Get().As("al"))
				case 5:
					x = mkX(cy.LiteralOf("s"), func(w *W) { w.str("s") })
					a = as(x.v.As("al"))
				case 6:
					y := xSym("v")
					p := mkX(cy.MapProjectionCreate(cy.ASymbolic("v"), "k"), func(w *W) { w.x(y); w.sym("{", "."); w.name("k"); w.sym("}") })
					x, a = p, as(p.v.As("al"))
				}
				al := A{a, x, "al"}
				var s sb
				s.patterns(0, []P{mkN("n", nil, nil).p()})
				switch c.Choose("use", 4) {
				case 0:
					s.exprs("Returning", "RETURN", al.x())
				case 1:
					s.exprs("Returning", "RETURN", xSym("q"), al.x(), xSym("r"), al.x())
				case 2:
					s.exprs("With", "WITH", al.x())
					s.exprs("Returning", "RETURN", al.x(), mkX(a.AsName(), func(w *W) { w.name("al") }))
				case 3:
					s.exprs("Returning", "RETURN", al.x())
					y := al.x()
					s.call("OrderBy", y.v)
					s.ems = append(s.ems, func(w *W) { w.kw("ORDER BY"); w.x(y) })
				}
				c.checkSB(&s)
			}},
	}...)
}

// false2 marks the alias a as defined: it stands in the WITH before.
func false2(s *aliases) bool {
	s.defined[s.x.id] = map[string]bool{"a": true}
	return false
}

// nested puts an expression into another one.
const nNested = 14

func nested(k int, x X) (cy.Expression, Em) {
	z := xSym("z")
	p := xProp("pc", "pp")
	switch k {
	case 0:
		return x.v, x.em2()
	case 1:
		return cy.Coalesce(z.v, x.v, x.v), fnEm("coalesce", z, x, x)
	case 2:
		return cy.ListOf(x.v, p.v, x.v), func(w *W) { w.sym("["); w.xs([]X{x, p, x}); w.sym("]") }
	case 3:
		return cy.MapOf("k", x.v, "l", x.v), func(w *W) { w.mapOf([]KV{{"k", x}, {"l", x}}) }
	case 4:
		return cy.CaseExpression(x.v).When(x.v).Then(x.v).ElseDefault(x.v), func(w *W) {
			w.kw("CASE")
			w.x(x)
			w.kw("WHEN")
			w.x(x)
			w.kw("THEN")
			w.x(x)
			w.kw("ELSE")
			w.x(x)
			w.kw("END")
		}
	case 5:
		return cy.MapProjectionCreate(cy.ASymbolic("z"), "k", x.v), func(w *W) {
			w.x(z)
			w.sym("{")
			w.name("k")
			w.sym(":")
			w.x(x)
			w.sym("}")
		}
	case 6:
		return cy.CypherListWith(cy.ASymbolic("i")).In(x.v).Returning(x.v), func(w *W) {
			w.sym("[")
			w.name("i")
			w.kw("IN")
			w.x(x)
			w.sym("|")
			w.x(x)
			w.sym("]")
		}
	case 7:
		r := mkR(mkN("", nil, nil), 0, mkN("", []string{"L"}, []KV{{"k", x}}), "T")
		return cy.ListBasedOn(r.v).Returning(x.v), func(w *W) { w.sym("["); w.r(r); w.sym("|"); w.x(x); w.sym("]") }
	case 8:
		return cy.SubList(z.v, x.v, x.v), func(w *W) {
			w.x(z)
			w.sym("[")
			w.x(x)
			w.sym("..")
			w.x(x)
			w.sym("]")
		}
	case 9:
		c := cy.PredicateAll("i").In(x.v).Where(p.v.IsEqualTo(z.v).Get())
		return c, func(w *W) {
			w.open()
			w.kw("all")
			w.sym("(")
			w.name("i")
			w.kw("IN")
			w.x(x)
			w.kw("WHERE")
			w.x(p)
			w.sym("=")
			w.x(z)
			w.sym(")")
			w.close()
		}
	case 10:
		return cy.CountDistinctByExpression(x.v), fnDistinctEm("count", x)
	case 11:
		return cy.ListOf(cy.ListOf(cy.Coalesce(x.v))), func(w *W) {
			w.sym("[", "[")
			fnEm("coalesce", x)(w)
			w.sym("]", "]")
		}
	case 12:
		return z.v.IsNotEqualTo(x.v).Get(), func(w *W) {
			w.open()
			w.x(z)
			w.sym("<>")
			w.open()
			w.x(x)
			w.close()
			w.close()
		}
	case 13:
		return x.v.IsNull().Get(), func(w *W) {
			w.open()
			w.open()
			w.x(x)
			w.close()
			w.kw("IS NULL")
			w.close()
		}
	}
	panic("nested")
}

// em2 emits it by its alias when it has one.
func (x X) em2() Em { return func(w *W) { w.x(x) } }
