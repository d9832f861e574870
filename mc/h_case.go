package main

// C17: CASE.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type caseModel struct {
	v       cy.Case
	end     cy.CaseEnding
	subject *X
	when    []func(w *W)
	then    []X
	els     *X
}

func (m *caseModel) em(w *W) {
	w.open()
	w.kw("CASE")
	if m.subject != nil {
		w.x(*m.subject)
	}
	for i := range m.when {
		w.kw("WHEN")
		m.when[i](w)
		w.kw("THEN")
		w.x(m.then[i])
	}
	if m.els != nil {
		w.kw("ELSE")
		w.x(*m.els)
	}
	w.kw("END")
	w.close()
}

func newCase(subject *X) *caseModel {
	if subject == nil {
		return &caseModel{v: cy.GenericCaseExpression()}
	}
	return &caseModel{v: cy.CaseExpression(subject.v), subject: subject}
}

func (m *caseModel) branch(when cy.Expression, em func(w *W), then X) {
	var o cy.OngoingWhenThen
	if m.end == nil {
		o = m.v.When(when)
	} else {
		o = m.end.When(when)
	}
	m.end = o.Then(then.v)
	m.when = append(m.when, em)
	m.then = append(m.then, then)
}

func (m *caseModel) elseDo(x X) {
	if m.end == nil {
		m.end = m.v.ElseDefault(x.v)
	} else {
		m.end = m.end.ElseDefault(x.v)
	}
	m.els = &x
}

func (m *caseModel) x() X { return mkX(m.end, m.em) }

func whenCond(c Cn) (cy.Expression, func(w *W)) { return c.v, func(w *W) { w.cond(c.f) } }
func whenX(x X) (cy.Expression, func(w *W))     { return x.v, func(w *W) { w.x(x) } }

func caseHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C17", Name: "case-shapes", ShardDepth: 3,
			Rule: "simple and generic CASE with up to 4 (thorough: 6) branches, without ELSE, with ELSE after any branch, and with ELSE twice; every pair of slots filled with every pair of 20 kinds of expressions",
			Body: func(c *C) {
				subj := c.Bool("subject")
				n := 1 + c.Choose("branches", dep(4, 6))
				e := c.Choose("else", n+2) // 0 none, i after branch i, n+1 after all and after the first
				count := 2 * n
				if subj {
					count++
				}
				if e > 0 {
					count++
				}
				var s *slots
				if n > 2 {
					s = c.oneSlot(count)
				} else {
					s = c.twoSlots(count)
				}
				var sx *X
				if subj {
					x := s.next()
					sx = &x
				}
				m := newCase(sx)
				for i := 0; i < n; i++ {
					w := s.next()
					t := s.next()
					v, em := whenX(w)
					m.branch(v, em, t)
					if e == i+1 || e == n+1 && i == 0 {
						m.elseDo(s.g.x(1))
					}
				}
				if e == n+1 {
					m.elseDo(s.next())
				}
				c.checkX(m.x())
			}},
		{Prop: "C17", Name: "case-conditions", ShardDepth: 2,
			Rule: "generic and simple CASE of up to 3 branches with every combination of 7 kinds of conditions as WHEN, with and without ELSE",
			Body: func(c *C) {
				var g condGen
				subj := c.Bool("subject")
				var sx *X
				if subj {
					x := g.x(c.Choose("kind", nKinds))
					sx = &x
				}
				m := newCase(sx)
				n := 1 + c.Choose("branches", 3)
				for i := 0; i < n; i++ {
					v, em := whenCond(g.cond(c.Choose("condition", nConds)))
					m.branch(v, em, g.x(0))
				}
				if c.Bool("else") {
					m.elseDo(g.x(2))
				}
				c.checkX(m.x())
			}},
		{Prop: "C17", Name: "case-everywhere", ShardDepth: 1,
			Rule: "simple and generic CASE with and without ELSE in all 36 places of an expression and as filter of every clause that takes one, alone, negated and combined",
			Body: func(c *C) {
				var g condGen
				k := c.Choose("place", nPlaces+6)
				var sx *X
				if c.Bool("subject") {
					x := g.x(0)
					sx = &x
				}
				m := newCase(sx)
				n := 1 + c.Choose("branches", 3)
				for i := 0; i < n; i++ {
					if sx == nil && c.Bool("condition") {
						v, em := whenCond(g.cond(c.Choose("which", nConds)))
						m.branch(v, em, g.x(1))
					} else {
						v, em := whenX(g.x(1))
						m.branch(v, em, g.x(0))
					}
				}
				if c.Bool("else") {
					m.elseDo(g.x(2))
				}
				if k < nPlaces {
					c.inPlace(k, m.x())
					return
				}
				c.caseFilter(k-nPlaces, m, &g)
			}},
		{Prop: "C17", Name: "case-in-case", ShardDepth: 3,
			Rule: "CASE nested in every slot of a CASE to depth 3 (thorough: 4), simple and generic, with and without ELSE",
			Body: func(c *C) {
				var g condGen
				var build func(d int) *caseModel
				build = func(d int) *caseModel {
					slot := func(name string) X {
						if d > 1 && c.Bool(name) {
							return build(d - 1).x()
						}
						return g.x(0)
					}
					var sx *X
					if c.Bool("subject") {
						x := slot("in subject")
						sx = &x
					}
					m := newCase(sx)
					v, em := whenX(slot("in when"))
					m.branch(v, em, slot("in then"))
					if c.Bool("else") {
						m.elseDo(slot("in else"))
					}
					return m
				}
				if thorough() {
					c.checkX(build(2 + c.Choose("deeper", 2)).x())
					return
				}
				c.checkX(build(2).x())
			}},
		{Prop: "C17", Name: "deep-cases", ShardDepth: 2,
			Rule: "chains of up to 6 (thorough: 8) CASE expressions, each in one of the four slots of the next",
			Body: func(c *C) {
				var g2 condGen
				x := g2.x(0)
				n := 1 + c.Choose("nesting", dep(6, 8))
				for i := 0; i < n; i++ {
					in := x
					var m *caseModel
					switch c.Choose("slot", 4) {
					case 0:
						m = newCase(&in)
						v, em := whenX(g2.x(2))
						m.branch(v, em, g2.x(0))
					case 1:
						m = newCase(nil)
						v, em := whenX(in)
						m.branch(v, em, g2.x(0))
						m.elseDo(g2.x(1))
					case 2:
						m = newCase(nil)
						v, em := whenX(g2.x(1))
						m.branch(v, em, in)
					case 3:
						z := g2.x(0)
						m = newCase(&z)
						v, em := whenX(g2.x(1))
						m.branch(v, em, g2.x(0))
						m.elseDo(in)
					}
					x = m.x()
				}
				c.checkX(x)
			}},
		{Prop: "C17", Name: "case-branches", ShardDepth: 2,
			Rule: "from every prefix of a CASE of up to 5 branches (with and without ELSE) two different continuations, rendered in both orders",
			Body: func(c *C) {
				var g condGen
				var sx *X
				if c.Bool("subject") {
					x := g.x(0)
					sx = &x
				}
				m := newCase(sx)
				n := c.Choose("shared", 6)
				for i := 0; i < n; i++ {
					v, em := whenX(g.x(1))
					m.branch(v, em, g.x(0))
				}
				if n > 0 && c.Bool("shared else") {
					m.elseDo(g.x(2))
				}
				var ms []*caseModel
				for i := 0; i < 2; i++ {
					k := *m
					k.when = append([]func(w *W){}, m.when...)
					k.then = append([]X{}, m.then...)
					own := 1 + c.Choose("own", 2)
					for j := 0; j < own; j++ {
						v, em := whenX(g.x(1))
						k.branch(v, em, g.x(0))
					}
					if c.Bool("own else") {
						k.elseDo(g.x(2))
					}
					ms = append(ms, &k)
				}
				if n > 0 {
					ms = append(ms, m)
				}
				first := c.Bool("order")
				if first {
					ms[0], ms[1] = ms[1], ms[0]
				}
				for _, k := range ms {
					c.checkX(k.x())
				}
			}},
		{Prop: "C17", Name: "long-cases", ShardDepth: 1,
			Rule: "CASE with every number of branches up to 260 (thorough: 1100), simple and generic, with and without ELSE",
			Body: func(c *C) {
				n := 1 + c.Choose("branches", dep(260, 1100))
				var g condGen
				var sx *X
				if c.Bool("subject") {
					x := g.x(0)
					sx = &x
				}
				m := newCase(sx)
				for i := 0; i < n; i++ {
					k, r := xStr(fmt.Sprint("k", i)), xInt(i)
					v, em := whenX(k)
					m.branch(v, em, r)
				}
				if c.Bool("else") {
					m.elseDo(g.x(1))
				}
				c.checkX(m.x())
			}},
	}...)
}

func (c *C) caseFilter(k int, m *caseModel, g *condGen) {
	n := mkN("n", nil, nil)
	f := &Form{op: "atom", em: m.em}
	a := g.atom()
	v := cy.Condition(m.end)
	switch k {
	case 1:
		v, f = m.end.Not().Get(), fNot(f)
	case 2:
		v, f = m.end.And(a.v).Get(), fBin("and", f, a.f)
	case 3:
		v, f = a.v.Or(m.end).Get(), fBin("or", a.f, f)
	case 4:
		b := g.atom()
		v, f = a.v.Or(b.v).And(m.end).Get(), fBin("and", fBin("or", a.f, b.f), f)
	case 5:
		st, err := cy.Match(n.v).With(n.v.As("x")).Where(m.end).Returning(cy.ASymbolic("x")).Build()
		c.check(st, err, func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("WITH n AS x")
			w.where(f)
			w.kw("RETURN x")
		})
		return
	}
	st, err := cy.Match(n.v).Where(v).Returning(cy.ASymbolic("n")).Build()
	c.check(st, err, func(w *W) { w.kw("MATCH"); w.n(n); w.where(f); w.kw("RETURN n") })
}
