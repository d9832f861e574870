package main

// Kinds of expressions to put into the slots of other expressions.

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

const nKinds = 20

// kind makes an expression of the k-th kind with names of its own.
func (g *condGen) x(k int) X {
	s := g.fresh("v")
	z := xSym(s)
	switch k {
	case 0:
		return z
	case 1:
		return xProp(s, g.fresh("p"))
	case 2:
		return xInt(number(g.n))
	case 3:
		return xStr(s + "'")
	case 4:
		return xParam(s)
	case 5:
		y := xInt(number(g.n))
		return mkX(cy.ListOf(y.v, z.v), func(w *W) { w.sym("["); w.xs([]X{y, z}); w.sym("]") })
	case 6:
		return mkX(cy.MapOf("k", z.v), func(w *W) { w.mapOf([]KV{{"k", z}}) })
	case 7:
		y := xProp(g.fresh("v"), "p")
		return mkX(cy.Coalesce(z.v, y.v), fnEm("coalesce", z, y))
	case 8:
		y := xInt(number(g.n))
		return mkX(cy.CaseExpression(z.v).When(y.v).Then(y.v).ElseDefault(z.v), func(w *W) {
			w.kw("CASE")
			w.x(z)
			w.kw("WHEN")
			w.x(y)
			w.kw("THEN")
			w.x(y)
			w.kw("ELSE")
			w.x(z)
			w.kw("END")
		})
	case 9:
		y := xInt(number(g.n))
		return mkX(z.v.Subtract(y.v).Get(), func(w *W) { w.sym("("); w.x(z); w.sym("-"); w.x(y); w.sym(")") })
	case 10:
		n := number(g.n)
		return mkX(cy.ASubList(z.v, 1, n), func(w *W) {
			w.x(z)
			w.sym("[")
			w.num(1)
			w.sym("..")
			w.num(n)
			w.sym("]")
		})
	case 11:
		return mkX(cy.CypherListWith(cy.ASymbolic("it")).In(z.v).Returning(cy.AProperty("it", "p")), func(w *W) {
			w.sym("[")
			w.name("it")
			w.kw("IN")
			w.x(z)
			w.sym("|")
			w.name("it")
			w.sym(".")
			w.name("p")
			w.sym("]")
		})
	case 12:
		return mkX(mkN(s, nil, nil).v.Project("a", "b"), func(w *W) {
			w.name(s)
			w.sym("{", ".")
			w.name("a")
			w.sym(",", ".")
			w.name("b")
			w.sym("}")
		})
	case 13:
		return mkX(cy.LiteralOf(nil), func(w *W) { w.kw("NULL") })
	case 14:
		f := float64(number(g.n)) + 0.25
		return xFloat(f)
	case 15:
		return mkX(cy.CountDistinctByExpression(z.v), func(w *W) { w.kw("count"); w.sym("("); w.kw("DISTINCT"); w.x(z); w.sym(")") })
	case 16:
		r := mkR(mkN("", []string{"L"}, nil), 0, mkN("", nil, nil), "T")
		return mkX(cy.ListBasedOn(r.v).Returning(z.v), func(w *W) { w.sym("["); w.r(r); w.sym("|"); w.x(z); w.sym("]") })
	case 17:
		return mkX(cy.LiteralOf(true), func(w *W) { w.kw("true") })
	case 18:
		return xInt(-number(g.n))
	case 19:
		x := mkX(z.v.IsNotNull().Get(), func(w *W) { w.open(); w.x(z); w.kw("IS NOT NULL"); w.close() })
		x.operator = true
		return x
	}
	panic("kind")
}

func fnEm(name string, xs ...X) Em {
	return func(w *W) { w.kw(name); w.sym("("); w.xs(xs); w.sym(")") }
}

func fnDistinctEm(name string, xs ...X) Em {
	return func(w *W) { w.kw(name); w.sym("("); w.kw("DISTINCT"); w.xs(xs); w.sym(")") }
}

// slots hands out expressions: the ones named by the two special slots get the chosen kinds, all others are plain.
type slots struct {
	g            condGen
	a, b         int // special slots
	ka, kb       int
	i            int
	seenA, seenB bool
}

func (s *slots) next() X {
	i := s.i
	s.i++
	switch i {
	case s.a:
		s.seenA = true
		return s.g.x(s.ka)
	case s.b:
		s.seenB = true
		return s.g.x(s.kb)
	}
	return s.g.x(0)
}

// twoSlots chooses two different of n slots and their kinds. With n = 1 there is only one.
func (c *C) twoSlots(n int) *slots {
	s := &slots{a: -1, b: -1}
	if n == 0 {
		return s
	}
	s.a = c.Choose("slot", n)
	s.ka = c.Choose("kind", nKinds)
	if s.a+1 < n {
		s.b = s.a + 1 + c.Choose("other slot", n-s.a-1)
		s.kb = c.Choose("other kind", nKinds)
	}
	return s
}

// oneSlot chooses one of n slots and its kind.
func (c *C) oneSlot(n int) *slots {
	s := &slots{a: -1, b: -1}
	if n == 0 {
		return s
	}
	s.a = c.Choose("slot", n)
	s.ka = c.Choose("kind", nKinds)
	return s
}

// condX is a condition of the k-th kind: simple, negated, compound, about patterns, always true.
const nConds = 7

func (g *condGen) cond(k int) Cn {
	a := g.atom()
	switch k {
	case 0:
		return Cn{a.v, a.f, nextID()}
	case 1:
		b := g.atom()
		return Cn{a.v.And(b.v).Get(), fBin("and", a.f, b.f), nextID()}
	case 2:
		b := g.atom()
		return Cn{a.v.Or(b.v).Get(), fBin("or", a.f, b.f), nextID()}
	case 3:
		return Cn{a.v.Not().Get(), fNot(a.f), nextID()}
	case 4:
		return patC(mkR(mkN("", nil, nil), 0, mkN("", nil, nil), g.fresh("T")))
	case 5:
		b, d := g.atom(), g.atom()
		return Cn{a.v.Or(b.v.And(d.v).Get()).Get(), fBin("or", a.f, fBin("and", b.f, d.f)), nextID()}
	case 6:
		b := g.atom()
		return Cn{a.v.Xor(b.v).Get(), fBin("xor", a.f, b.f), nextID()}
	}
	panic("cond")
}
