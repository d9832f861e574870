package main

// C06: conditions.

import (
	"reflect"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// CX is a condition under construction: the value, what the calls mean, and what the recorded finding makes of it.
type CX struct {
	v  cy.Condition
	bx cy.ConditionContainer // the same as container
	f  *Form
	a  *alt
}

// alt describes the text of a condition that suffers from the finding and-chain.or(compound).and: a flat list of units.
type alt struct {
	f     *Form // not a list
	op    string
	terms []altTerm
	empty bool
}

type altTerm struct {
	op string // "" for the operator of the list
	f  *Form
}

func altAtom(f *Form) *alt { return &alt{f: f} }

var altEmpty = &alt{empty: true}

func (a *alt) list() bool { return a.f == nil }

// meaning of the flat text.
func (a *alt) meaning() *Form {
	if a.empty {
		return fEmpty
	}
	if !a.list() {
		return a.f
	}
	var ors *Form
	var xors, ands *Form
	for i, t := range a.terms {
		op := t.op
		if op == "" {
			op = a.op
		}
		switch {
		case i == 0:
			ands = t.f
		case op == "and":
			ands = fBin("and", ands, t.f)
		case op == "xor":
			xors = fBin("xor", xors, ands)
			ands = t.f
		default:
			ors = fBin("or", ors, fBin("xor", xors, ands))
			xors, ands = nil, t.f
		}
	}
	return fBin("or", ors, fBin("xor", xors, ands))
}

func (a *alt) isEmpty() bool { return a.empty || a.list() && len(a.terms) == 0 }

func altCreate(l *alt, op string, r *alt) *alt {
	return altAdd(altAdd(&alt{op: op}, op, l), op, r)
}

// altAdd chains x to the list s.
func altAdd(s *alt, op string, x *alt) *alt {
	if x.isEmpty() {
		return s
	}
	if s.empty {
		s = &alt{op: op}
	}
	n := &alt{op: s.op, terms: append([]altTerm(nil), s.terms...)}
	if len(n.terms) < 2 {
		n.op = op
	}
	if x.list() {
		switch {
		case n.op == op && op == x.op:
			flat := true
			for _, t := range x.terms {
				if t.op != "" && t.op != op {
					flat = false
				}
			}
			if flat {
				n.terms = append(n.terms, x.terms...)
			} else {
				n.terms = append(n.terms, altTerm{op, x.meaning()})
			}
			return n
		case n.op == op || n.op == "and" && op == "or":
			n.terms = append(n.terms, altTerm{op, x.meaning()})
			return n
		}
		return altCreate(s, op, x)
	}
	if n.op == op {
		n.terms = append(n.terms, altTerm{"", x.meaning()})
		return n
	}
	return altCreate(s, op, x)
}

func altChain(s *alt, op string, x *alt) *alt {
	if s.list() {
		return altAdd(s, op, x)
	}
	return altCreate(s, op, x)
}

func cxOf(c Cn) CX {
	return CX{c.v, cy.ConditionWrap(c.v), c.f, altAtom(c.f)}
}

func cxEmpty() CX {
	return CX{cy.ConditionsNoCondition(), cy.ConditionWrap(cy.ConditionsNoCondition()), fEmpty, altEmpty}
}

// chain calls And, Or or Xor, on the condition or on its container.
func (x CX) chain(op string, y CX, onContainer bool) CX {
	var r cy.ConditionContainer
	if onContainer {
		switch op {
		case "and":
			r = x.bx.And(y.v)
		case "or":
			r = x.bx.Or(y.v)
		default:
			r = x.bx.Xor(y.v)
		}
	} else {
		switch op {
		case "and":
			r = x.v.And(y.v)
		case "or":
			r = x.v.Or(y.v)
		default:
			r = x.v.Xor(y.v)
		}
	}
	return CX{r.Get(), r, fBin(op, x.f, y.f), altChain(x.a, op, y.a)}
}

func (x CX) pattern(op string, r R, onContainer bool) CX {
	var k cy.ConditionContainer
	if onContainer {
		switch op {
		case "and":
			k = x.bx.AndPattern(r.v)
		case "or":
			k = x.bx.OrPattern(r.v)
		default:
			k = x.bx.XorPattern(r.v)
		}
	} else {
		switch op {
		case "and":
			k = x.v.AndPattern(r.v)
		case "or":
			k = x.v.OrPattern(r.v)
		default:
			k = x.v.XorPattern(r.v)
		}
	}
	y := &Form{op: "atom", em: func(w *W) { w.r(r) }}
	return CX{k.Get(), k, fBin(op, x.f, y), altChain(x.a, op, altAtom(y))}
}

func (x CX) not(how int) CX {
	var r cy.ConditionContainer
	switch how {
	case 0:
		r = x.v.Not()
	case 1:
		r = x.bx.Not()
	default:
		r = cy.ConditionWrap(cy.ConditionsNot(x.v))
	}
	return CX{r.Get(), r, fNot(x.f), altAtom(fNot(x.a.meaning()))}
}

// checkCond compares a statement that contains conditions; em gets the formula to be used for the condition x.
func (c *C) checkCond(s cy.Statement, err error, x CX, em func(f *Form) Em) {
	before := len(c.fails)
	c.check(s, err, em(x.f))
	if len(c.fails) == before || err != nil {
		return
	}
	text, err := render(s, nil)
	if err != nil {
		return
	}
	m := x.a.meaning()
	if m.empty() {
		return
	}
	w := newW()
	em(m)(w)
	if w.diff(text) == "" {
		c.sig = "and-chain.or(compound).and"
	}
}

// checkWhere checks the condition as filter of a MATCH.
func (c *C) checkWhere(x CX) {
	n := mkN("n", nil, nil)
	s, err := cy.Match(n.v).Where(x.v).Returning(cy.ASymbolic("n")).Build()
	c.checkCond(s, err, x, func(f *Form) Em {
		return func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.where(f)
			w.kw("RETURN")
			w.name("n")
		}
	})
}

type condGen struct{ n int }

func (g *condGen) fresh(p string) string {
	g.n++
	if s, ok := pooled(p); ok {
		return s
	}
	return p + string(rune('a'+g.n%26)) + string(rune('a'+g.n/26%26))
}

// own gives a name that never repeats.
func (g *condGen) own(p string) string {
	g.n++
	return p + string(rune('a'+g.n%26)) + string(rune('a'+g.n/26%26))
}

func (g *condGen) atom() CX { g.n++; return cxOf(propC(g.fresh("c"), "p", number(g.n))) }

var bops = []string{"and", "or", "xor"}

// operand makes an argument of And, Or and Xor.
func (g *condGen) operand(k int) CX {
	switch k {
	case 0:
		return g.atom()
	case 1, 2, 3:
		return g.atom().chain(bops[k-1], g.atom(), k == 2)
	case 4:
		return cxEmpty()
	case 5:
		return g.atom().not(0)
	case 6:
		return cxEmpty().chain("and", g.atom().chain("or", g.atom(), true), true)
	case 7:
		return g.atom().chain("and", g.atom(), true).chain("or", g.atom(), false)
	case 8:
		return g.atom().chain("or", cxEmpty(), true)
	case 9:
		return g.atom().chain("or", g.atom(), true).chain("and", g.atom(), true)
	case 10:
		return g.atom().chain("or", g.atom(), true).not(1)
	}
	panic("operand")
}

func (g *condGen) start(k int) CX {
	switch k {
	case 0:
		return g.atom()
	case 1:
		return cxEmpty()
	case 2:
		return g.atom().not(2)
	case 3:
		return CX{cy.ConditionsIsTrue(), cy.ConditionWrap(cy.ConditionsIsTrue()), &Form{op: "true"}, altAtom(&Form{op: "true"})}
	}
	return g.atom().chain("or", g.atom(), true)
}

// via decides on what the calls are made.
func via(mode, i int) bool { return mode == 1 || mode == 2 && i%2 == 0 }

func condHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C06", Name: "condition-histories", ShardDepth: 3,
			Rule: "every history of up to 3 (thorough: 4) and/or/xor/not calls with 11 kinds of operands (atoms, compounds of each kind, empty and emptied ones, negations), from 5 kinds of conditions, on conditions and containers",
			Body: func(c *C) {
				g := &condGen{}
				mode := c.Choose("on", 2)
				x := g.start(c.Choose("start", 5))
				n := 0
				for d := dep(3, 4); n < d; n++ {
					k := c.Choose("call", 3*11+2)
					if k == 34 {
						break
					}
					if k == 33 {
						if x.f.empty() {
							return // nothing to negate
						}
						c.Log("not")
						x = x.not(c.pick(mode))
						continue
					}
					c.Log("%s operand %d", bops[k%3], k/3)
					x = x.chain(bops[k%3], g.operand(k/3), via(mode, n))
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "long-condition-histories", ShardDepth: 3,
			Rule: "every history of up to 5 (thorough: 6) and/or/xor/not calls with atoms, ands and ors as operands, from an atom and from the empty condition",
			Body: func(c *C) {
				g := &condGen{}
				mode := c.Choose("on", 2) + 1
				x := g.start(c.Choose("start", 2))
				for i, d := 0, dep(5, 6); i < d; i++ {
					k := c.Choose("call", 3*3+2)
					if k == 10 {
						break
					}
					if k == 9 {
						if x.f.empty() {
							return
						}
						c.Log("not")
						x = x.not(i % 3)
						continue
					}
					c.Log("%s operand %d", bops[k%3], k/3)
					x = x.chain(bops[k%3], g.operand(k/3), via(mode, i))
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "long-condition-chains", ShardDepth: 4,
			Rule: "two calls out of and/or/xor repeated alternately in turns of 1, 2, 3 or all on one condition, on conditions and on containers, with atoms and with every fourth operand a compound, for every number of calls up to 40 (thorough: 140) and around powers of two up to 256 (thorough: 1024)",
			Body: func(c *C) {
				g := &condGen{}
				a, b := bops[c.Choose("first", 3)], bops[c.Choose("second", 3)]
				turn := []int{1, 2, 3, 5000}[c.Choose("turn", 4)]
				if turn == 5000 && a != b {
					return
				}
				comp := c.Choose("compounds", 4)
				mode := c.Choose("on", 2)
				n := lengths(dep(40, 140), dep(256, 1024), c)
				x := g.start(c.Choose("start", 2))
				for i := 0; i < n; i++ {
					o := g.atom()
					if comp > 0 && i%4 == 3 {
						o = o.chain(bops[comp-1], g.atom(), false)
					}
					op := a
					if i/turn%2 == 1 {
						op = b
					}
					x = x.chain(op, o, mode == 1)
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "condition-towers", ShardDepth: 4,
			Rule: "conditions nested by three calls in turn out of: and/or/xor with the condition so far as operand or as the condition called, not; every depth up to 16 (thorough: 40) and around powers of two up to 64 (thorough: 512)",
			Body: func(c *C) {
				g := &condGen{}
				var ls [3]int
				for i := range ls {
					ls[i] = c.Choose("layer", 7)
				}
				n := lengths(dep(16, 40), dep(64, 512), c)
				x := g.atom()
				for i := 0; i < n; i++ {
					switch l := ls[i%3]; {
					case l < 3:
						x = g.atom().chain(bops[l], x, i%2 == 0)
					case l < 6:
						x = x.chain(bops[l-3], g.atom(), i%2 == 0)
					default:
						x = x.not(i % 3)
					}
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "one-operand-chains", ShardDepth: 4,
			Rule: "every sequence of up to 8 (thorough: 10) and/or/xor calls with atoms, and two runs of equal calls of up to 8 and 5",
			Body: func(c *C) {
				g := &condGen{}
				x := g.start(c.Choose("start", 2))
				if c.Bool("repeated") {
					a, b := bops[c.Choose("first", 3)], bops[c.Choose("second", 3)]
					na, nb := c.Choose("first times", 8)+1, c.Choose("second times", 6)
					for i := 0; i < na; i++ {
						x = x.chain(a, g.atom(), i%2 == 0)
					}
					for i := 0; i < nb; i++ {
						x = x.chain(b, g.atom(), i%2 == 1)
					}
					c.checkWhere(x)
					return
				}
				for i, d := 0, dep(8, 10); i < d; i++ {
					k := c.Choose("call", 4)
					if k == 3 {
						break
					}
					x = x.chain(bops[k], g.atom(), i%2 == 0)
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "condition-trees", ShardDepth: 3,
			Rule: "all binary trees of and/or/xor of height 3 over atoms and negations (thorough: with negations at every level)",
			Body: func(c *C) {
				g := &condGen{}
				mode := c.Choose("on", 2)
				var tree func(h int) CX
				tree = func(h int) CX {
					n := 4
					if h == 0 {
						n = 1
					}
					k := c.Choose("tree", n)
					var x CX
					if k == 0 {
						x = g.atom()
						if h > 0 && thorough() && c.Bool("not") {
							x = x.not(0)
						}
						return x
					}
					l := tree(h - 1)
					r := tree(h - 1)
					x = l.chain(bops[k-1], r, mode == 1)
					if h == 3 || thorough() && h == 2 {
						if c.Bool("not") {
							x = x.not(1)
						}
					}
					return x
				}
				x := tree(3)
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "condition-kinds", ShardDepth: 3,
			Rule: "every kind of condition as the condition called and as the operand, with every pair of calls",
			Body: func(c *C) {
				g := &condGen{}
				on := c.Bool("on container")
				k1 := c.Choose("kind", nCondKinds)
				x := g.kind(k1)
				op := c.Choose("call", 4)
				if op == 3 {
					x = x.not(c.Choose("how", 3))
				} else {
					x = x.chain(bops[op], g.kind(c.Choose("operand kind", nCondKinds)), on)
				}
				switch op2 := c.Choose("call", 5); op2 {
				case 3:
					x = x.not(c.Choose("how", 3))
				case 4:
				default:
					x = x.chain(bops[op2], g.atom(), on)
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "pattern-calls", ShardDepth: 3,
			Rule: "every history of up to 4 (thorough: 5) and/or/xor/not and their pattern variants, with relationships and chains, from atoms, patterns and the empty condition",
			Body: func(c *C) {
				g := &condGen{}
				mode := c.Choose("on", 2)
				var x CX
				switch c.Choose("start", 3) {
				case 0:
					x = g.atom()
				case 1:
					x = cxEmpty()
				default:
					x = cxOf(patC(g.rel(0)))
				}
				for i, d := 0, dep(4, 5); i < d; i++ {
					k := c.Choose("call", 8)
					if k == 7 {
						break
					}
					switch {
					case k < 3:
						x = x.chain(bops[k], g.atom(), via(mode, i))
					case k < 6:
						x = x.pattern(bops[k-3], g.rel(i), via(mode, i))
					default:
						if x.f.empty() {
							return
						}
						x = x.not(i % 3)
					}
				}
				c.checkWhere(x)
			}},
		{Prop: "C06", Name: "where-chains", ShardDepth: 3,
			Rule: "every history of up to 4 (thorough: 5) where, and, or calls and their pattern variants with 6 kinds of operands on the where chains of MATCH, OPTIONAL MATCH, WITH and both kinds of CALL",
			Body: func(c *C) { c.whereChain() }},
		{Prop: "C06", Name: "condition-places", ShardDepth: 3,
			Rule: "compound conditions of every kind in every place a condition or expression can have: CASE WHEN, comprehension filters, predicates, RETURN, function arguments, operands",
			Body: func(c *C) { c.condPlace() }},
	}...)
}

func (c *C) pick(mode int) int { return mode }

func (g *condGen) rel(k int) R {
	l := mkN(g.fresh("n"), nil, nil)
	r := mkN("", []string{g.fresh("L")}, nil)
	return mkR(l, k%3, r, g.fresh("T"))
}

const nCondKinds = 27

// kind makes a condition of every kind the API offers.
func (g *condGen) kind(k int) CX {
	c := g.fresh("k")
	x := cy.AProperty(c, "p")
	px := func(w *W) { w.name(c); w.sym("."); w.name("p") }
	bin := func(v cy.ConditionContainer, op string) CX {
		return cxOf(atomC(v.Get(), func(w *W) {
			px(w)
			if strings.ToUpper(op) != strings.ToLower(op) {
				w.kw(op)
			} else {
				w.sym(op)
			}
			w.num(3)
		}))
	}
	post := func(v cy.ConditionContainer, op string) CX {
		return cxOf(atomC(v.Get(), func(w *W) { px(w); w.kw(op) }))
	}
	l := cy.LiteralOf(3)
	switch k {
	case 0:
		return bin(x.IsEqualTo(l), "=")
	case 1:
		return bin(x.IsNotEqualTo(l), "<>")
	case 2:
		return bin(x.Lt(l), "<")
	case 3:
		return bin(x.Lte(l), "<=")
	case 4:
		return bin(x.Gt(l), ">")
	case 5:
		return bin(x.Gte(l), ">=")
	case 6:
		return bin(x.Matches(l), "=~")
	case 7:
		return bin(x.StartWiths(l), "STARTS WITH")
	case 8:
		return bin(x.EndsWith(l), "ENDS WITH")
	case 9:
		return bin(x.Contains(l), "CONTAINS")
	case 10:
		return bin(x.In(l), "IN")
	case 11:
		return post(x.IsNull(), "IS NULL")
	case 12:
		return post(x.IsNotNull(), "IS NOT NULL")
	case 13:
		return cxOf(patC(g.rel(g.n)))
	case 14:
		r := g.rel(g.n)
		v := cy.ConditionsNotByPattern(r.v)
		a := &Form{op: "atom", em: func(w *W) { w.r(r) }}
		return cxOf(Cn{v, fNot(a), 0})
	case 15:
		n := mkN(c, nil, nil)
		return cxOf(atomC(n.v.HasLabels("A", "B c"), func(w *W) { w.name(c); w.sym(":"); w.name("A"); w.sym(":"); w.name("B c") }))
	case 16:
		return CX{cy.ConditionsIsTrue(), cy.ConditionWrap(cy.ConditionsIsTrue()), &Form{op: "true"}, altAtom(&Form{op: "true"})}
	case 17:
		return CX{cy.ConditionsIsFalse(), cy.ConditionWrap(cy.ConditionsIsFalse()), &Form{op: "false"}, altAtom(&Form{op: "false"})}
	case 18, 19, 20, 21:
		fn := []string{"all", "any", "none", "single"}[k-18]
		in := g.atom()
		b := []func(string) cy.OngoingListBasedPredicateFunction{cy.PredicateAll, cy.PredicateAny, cy.PredicateNone, cy.PredicateSingle}[k-18]
		return cxOf(atomC(b("v").In(x).Where(in.v), func(w *W) {
			w.kw(fn)
			w.sym("(")
			w.name("v")
			w.kw("IN")
			px(w)
			w.kw("WHERE")
			w.cond(in.f)
			w.sym(")")
		}))
	case 22:
		return cxOf(atomC(cy.PredicateExists(x), func(w *W) { w.kw("exists"); w.sym("("); px(w); w.sym(")") }))
	case 23:
		r := g.rel(g.n)
		return cxOf(atomC(cy.PredicateExistsByPattern(r.v), func(w *W) { w.kw("exists"); w.sym("("); w.r(r); w.sym(")") }))
	case 24:
		in := g.atom()
		n := mkN("e"+c, []string{"E"}, nil)
		return cxOf(atomC(cy.Match(n.v).Where(in.v).AsCondition(), func(w *W) {
			w.kw("EXISTS")
			w.sym("{")
			w.kw("MATCH")
			w.n(n)
			w.where(in.f)
			w.sym("}")
		}))
	case 25:
		return cxOf(atomC(x.IsTrue().Get(), func(w *W) { px(w); w.sym("="); w.kw("true") }))
	case 26:
		return cxOf(atomC(x.IsEmpty().Get(), func(w *W) {
			w.kw("size")
			w.sym("(")
			px(w)
			w.sym(")", "=")
			w.num(0)
		}))
	}
	panic("kind")
}

func (c *C) whereChain() {
	g := &condGen{}
	b := &B{st: &St{}}
	k := c.Choose("clause", 7)
	switch k {
	case 0, 1:
		b = root(0)
	case 2:
		b = root(2)
	case 3:
		b = root(5)
	case 4:
		b = settle(root(12))
	case 5:
		b, _ = c.stepTo(root(0), "Call1", 0)
		b = settle(b)
	case 6:
		b, _ = c.stepTo(root(0), "With", 0)
	}
	x := cxEmpty()
	missing := false
	set := func(name string, args ...interface{}) {
		var vs []reflect.Value
		for _, a := range args {
			vs = append(vs, rv(a))
		}
		if !b.has(name) {
			missing = true
			return
		}
		b.v = b.v.MethodByName(name).Call(vs)[0]
	}
	operand := func() CX {
		return g.operand([]int{0, 2, 1, 4, 5, 6}[c.Choose("operand", 6)])
	}
	switch c.Choose("first", 4) {
	case 0:
		x = operand()
		set("Where", x.v)
	case 1:
		x = operand()
		set("WhereConditionContainer", x.bx)
	case 2:
		r := g.rel(0)
		set("WherePattern", r.v)
		f := &Form{op: "atom", em: func(w *W) { w.r(r) }}
		x = CX{f: f, a: altAtom(f)}
	case 3:
		set("Where", cy.ConditionsNoCondition())
	}
	if missing {
		return // this stage does not offer the call
	}
	for i, d := 0, dep(3, 4); i < d; i++ {
		k := c.Choose("call", 5)
		if k == 4 {
			break
		}
		switch k {
		case 0, 1:
			y := operand()
			set([]string{"And", "Or"}[k], y.v)
			x = CX{f: fBin(bops[k], x.f, y.f), a: altChain(x.a, bops[k], y.a)}
		default:
			r := g.rel(i)
			set([]string{"AndPattern", "OrPattern"}[k-2], r.v)
			f := &Form{op: "atom", em: func(w *W) { w.r(r) }}
			x = CX{f: fBin(bops[k-2], x.f, f), a: altChain(x.a, bops[k-2], altAtom(f))}
		}
	}
	if missing {
		return
	}
	cl := len(b.st.cl) - 1
	b = b.finish()
	st := b.st
	c.checkCond(b.stmt, b.err, x, func(f *Form) Em {
		s := st.clone()
		s.cl[cl].where = f
		return func(w *W) { w.st(s) }
	})
}

func (c *C) condPlace() {
	g := &condGen{}
	x := g.operand([]int{0, 1, 2, 3, 5, 6, 7, 9, 10}[c.Choose("condition", 9)])
	if c.Bool("chained") {
		op := c.Choose("call", 3)
		k := []int{0, 1, 3, 5}[c.Choose("operand", 4)]
		x = x.chain(bops[op], g.operand(k), c.Bool("on container"))
	}
	v := func(f func(w *W, c *Form)) func(f *Form) Em {
		return func(g *Form) Em { return func(w *W) { f(w, g) } }
	}
	ret := func(e cy.Expression, f func(w *W, c *Form)) {
		s, err := cy.CypherReturning(e).Build()
		c.checkCond(s, err, x, v(func(w *W, c *Form) { w.kw("RETURN"); f(w, c) }))
	}
	px := cy.AProperty("z", "p")
	switch c.Choose("place", 14) {
	case 0:
		ret(x.v, func(w *W, c *Form) { w.cond(c) })
	case 1:
		ret(cy.AliasedExpressionCreate(x.v, "al"), func(w *W, c *Form) { w.cond(c); w.kw("AS"); w.name("al") })
	case 2:
		ret(cy.GenericCaseExpression().When(x.v).Then(px), func(w *W, c *Form) {
			w.kw("CASE WHEN")
			w.cond(c)
			w.kw("THEN")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.kw("END")
		})
	case 3:
		ret(cy.GenericCaseExpression().When(px.IsNull().Get()).Then(x.v).ElseDefault(x.v), func(w *W, c *Form) {
			w.kw("CASE WHEN")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.kw("IS NULL THEN")
			w.cond(c)
			w.kw("ELSE")
			w.cond(c)
			w.kw("END")
		})
	case 4:
		ret(cy.CypherListWith(cy.ASymbolic("v")).In(px).Where(x.v).Returning(cy.ASymbolic("v")), func(w *W, c *Form) {
			w.sym("[")
			w.name("v")
			w.kw("IN")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.kw("WHERE")
			w.cond(c)
			w.sym("|")
			w.name("v")
			w.sym("]")
		})
	case 5, 6, 7, 8:
		k := c.Choose("predicate", 4)
		fn := []string{"all", "any", "none", "single"}[k]
		b := []func(cy.SymbolicName) cy.OngoingListBasedPredicateFunction{cy.PredicateAllBySymbolicName, cy.PredicateAnyBySymbolicName, cy.PredicateNoneBySymbolicName, cy.PredicateSingleBySymbolicName}[k]
		ret(b(cy.ASymbolic("v")).In(px).Where(x.v), func(w *W, c *Form) {
			w.kw(fn)
			w.sym("(")
			w.name("v")
			w.kw("IN")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.kw("WHERE")
			w.cond(c)
			w.sym(")")
		})
	case 9:
		ret(cy.Coalesce(x.v, px), func(w *W, c *Form) {
			w.name("coalesce")
			w.sym("(")
			w.cond(c)
			w.sym(",")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.sym(")")
		})
	case 10:
		ret(cy.ListOf(x.v, px), func(w *W, c *Form) {
			w.sym("[")
			w.cond(c)
			w.sym(",")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.sym("]")
		})
	case 11:
		ret(cy.MapOf("k", x.v), func(w *W, c *Form) {
			w.sym("{")
			w.name("k")
			w.sym(":")
			w.cond(c)
			w.sym("}")
		})
	case 12:
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), "T")
		ret(cy.ListBasedOn(r.v).Where(x.v).Returning(px), func(w *W, c *Form) {
			w.sym("[")
			w.r(r)
			w.kw("WHERE")
			w.cond(c)
			w.sym("|")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.sym("]")
		})
	case 13:
		s, err := cy.Match(mkN("m", nil, nil).v).Set(px, x.v).Build()
		c.checkCond(s, err, x, v(func(w *W, c *Form) {
			w.kw("MATCH")
			w.n(mkN("m", nil, nil))
			w.kw("SET")
			w.name("z")
			w.sym(".")
			w.name("p")
			w.sym("=")
			w.cond(c)
		}))
	}
}

// lengths chooses a number of repetitions: every one up to a bound and those around powers of two behind it.
func lengths(all, pow int, c *C) int {
	var ns []int
	for n := 1; n <= all; n++ {
		ns = append(ns, n)
	}
	for p := 8; p <= pow; p *= 2 {
		for n := p - 1; n <= p+1; n++ {
			if n > all {
				ns = append(ns, n)
			}
		}
	}
	return ns[c.Choose("times", len(ns))]
}
