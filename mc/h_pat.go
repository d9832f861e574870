package main

// C11, C12, C13: nodes, relationships, aliases and where they occur again.

import (
	"fmt"
	"reflect"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// sb makes a statement clause by clause.
type sb struct {
	b   interface{}
	ems []Em
}

func (s *sb) call(name string, args ...interface{}) bool {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	if s.b == nil {
		s.b = reflect.ValueOf(map[string]interface{}{
			"Match": cy.Match, "OptionalMatch": cy.AnOptionalMatch, "Create": cy.Create, "Merge": cy.Merge, "With": cy.With, "Returning": cy.CypherReturning,
		}[name]).Call(in)[0].Interface()
		return true
	}
	m := reflect.ValueOf(s.b).MethodByName(name)
	if !m.IsValid() {
		return false
	}
	s.b = m.Call(in)[0].Interface()
	return true
}

var clauseNames = []string{"Match", "OptionalMatch", "Create", "Merge"}
var clauseKws = []string{"MATCH", "OPTIONAL MATCH", "CREATE", "MERGE"}

func (s *sb) patterns(kind int, ps []P) bool {
	var args []interface{}
	for _, p := range ps {
		args = append(args, p.v)
	}
	if !s.call(clauseNames[kind], args...) {
		return false
	}
	s.ems = append(s.ems, func(w *W) { w.kw(clauseKws[kind]); w.ps(ps) })
	return true
}

func (s *sb) exprs(name, kw string, xs ...X) bool {
	var args []interface{}
	for _, x := range xs {
		args = append(args, x.v)
	}
	if !s.call(name, args...) {
		return false
	}
	s.ems = append(s.ems, func(w *W) { w.kw(kw); w.xs(xs) })
	return true
}

func (s *sb) em(w *W) {
	for _, e := range s.ems {
		e(w)
	}
}

func (c *C) checkSB(s *sb) {
	st, err := s.b.(interface {
		Build() (cy.Statement, error)
	}).Build()
	c.check(st, err, s.em)
}

// --- nodes ---------------------------------------------------------------------------------------------------------

// nodePool is a handful of nodes: named with everything, without a name, named only, and derived ones.
func nodePool() []N {
	a := mkN("a", []string{"A", "A2"}, []KV{{"k", xInt(1)}})
	u := mkN("", []string{"U"}, []KV{{"k", xInt(2)}})
	c := mkN("c", nil, nil)
	b := N{a.v.NamedByString("b"), nextID(), "b", a.labels, a.props}
	p := []KV{{"q", xStr("p")}}
	a2 := N{a.v.WithRawProperties(kvArgs(p)...), nextID(), "a", a.labels, p}
	a3 := mkN("a", []string{"Other"}, nil)
	n := N{u.v.Named(cy.ASymbolic("n")), nextID(), "n", u.labels, u.props}
	return []N{a, u, c, b, a2, a3, n}
}

const nPool = 7

// shape puts the nodes into one pattern of 1, 2 or 3 nodes.
func shape(ns []N, dir int) P {
	switch len(ns) {
	case 1:
		return ns[0].p()
	case 2:
		return mkR(ns[0], dir, ns[1], "T").p()
	}
	r := mkR(ns[0], dir, ns[1], "T")
	rs := []R{r}
	var ch cy.RelationshipChain
	for i := 2; i < len(ns); i++ {
		q := mkR(ns[i-1], (dir+i)%3, ns[i], fmt.Sprint("T", i))
		if i == 2 {
			switch q.dir {
			case 0:
				ch = r.v.RelationshipTo(ns[i].v, q.types...)
			case 1:
				ch = r.v.RelationshipFrom(ns[i].v, q.types...)
			case 2:
				ch = r.v.RelationshipBetween(ns[i].v, q.types...)
			}
		} else {
			switch q.dir {
			case 0:
				ch = ch.RelationshipTo(ns[i].v, q.types...)
			case 1:
				ch = ch.RelationshipFrom(ns[i].v, q.types...)
			case 2:
				ch = ch.RelationshipBetween(ns[i].v, q.types...)
			}
		}
		rs = append(rs, q)
	}
	return Ch{ch, rs}.p()
}

// other places of patterns
const nPatPlaces = 13

// inPatPlace puts a pattern behind a statement that has declared some nodes.
func (c *C) inPatPlace(k int, s *sb, p P) {
	rp, isRel := p.v.(cy.RelationshipPattern)
	star := X{id: nextID(), v: cy.AnAsterisk(), em: func(w *W) { w.sym("*") }}
	cond := func(v cy.Condition, em Em) {
		if !s.call("Where", v) {
			return
		}
		f := &Form{op: "atom", em: em}
		s.ems = append(s.ems, func(w *W) { w.where(f) })
		s.exprs("Returning", "RETURN", star)
		c.checkSB(s)
	}
	expr := func(v cy.Expression, em Em) {
		if s.exprs("Returning", "RETURN", mkX(v, em)) {
			c.checkSB(s)
		}
	}
	if !isRel && (k < 11) {
		return
	}
	rel, isSingle := p.v.(cy.Relationship)
	switch k {
	case 0:
		cond(cy.RelationshipPatternConditionCreate(rp), p.em)
	case 1:
		cond(cy.PredicateExistsByPattern(rp), func(w *W) { w.kw("exists"); w.sym("("); p.em(w); w.sym(")") })
	case 2:
		a := propC("q", "p", 1)
		f := fBin("and", a.f, &Form{op: "atom", em: p.em})
		if !s.call("Where", a.v.AndPattern(rp).Get()) {
			return
		}
		s.ems = append(s.ems, func(w *W) { w.where(f) })
		s.exprs("Returning", "RETURN", star)
		c.checkSB(s)
	case 3:
		expr(cy.SizeByPattern(rp), func(w *W) { w.kw("size"); w.sym("("); p.em(w); w.sym(")") })
	case 4:
		z := xSym("z")
		expr(cy.ListBasedOn(rp).Returning(z.v), func(w *W) { w.sym("["); p.em(w); w.sym("|"); w.x(z); w.sym("]") })
	case 5:
		z := xSym("z")
		np := cy.APath("h").DefinedBy(rp)
		expr(cy.ListBasedOnNamed(np).Returning(z.v), func(w *W) {
			w.sym("[")
			w.name("h")
			w.sym("=")
			p.em(w)
			w.sym("|")
			w.x(z)
			w.sym("]")
		})
	case 6:
		np := cy.APath("h").DefinedBy(rp)
		if !s.patterns(0, []P{{np, func(w *W) { w.name("h"); w.sym("="); p.em(w) }}}) {
			return
		}
		expr(star.v, star.em)
	case 7:
		if !isSingle {
			return
		}
		np := cy.AShortestPath("h").DefinedBy(rel)
		if !s.patterns(1, []P{{np, func(w *W) {
			w.name("h")
			w.sym("=")
			w.kw("shortestPath")
			w.sym("(")
			p.em(w)
			w.sym(")")
		}}}) {
			return
		}
		expr(star.v, star.em)
	case 8:
		sub := cy.Match(rp)
		ac, ok := sub.(interface{ AsCondition() cy.Condition })
		if !ok {
			return
		}
		cond(ac.AsCondition(), func(w *W) { w.kw("EXISTS"); w.sym("{"); w.kw("MATCH"); p.em(w); w.sym("}") })
	case 9:
		if !s.call("Where", cy.ConditionsNotByPattern(rp)) {
			return
		}
		f := fNot(&Form{op: "atom", em: p.em})
		s.ems = append(s.ems, func(w *W) { w.where(f) })
		s.exprs("Returning", "RETURN", star)
		c.checkSB(s)
	case 10:
		z := xSym("z")
		x := xSym("x")
		expr(cy.CaseExpression(x.v).When(cy.SizeByPattern(rp)).Then(z.v), func(w *W) {
			w.kw("CASE")
			w.x(x)
			w.kw("WHEN size")
			w.sym("(")
			p.em(w)
			w.sym(")")
			w.kw("THEN")
			w.x(z)
			w.kw("END")
		})
	case 11:
		// behind a WITH
		x := xSym("x")
		if !s.exprs("With", "WITH", x) || !s.patterns(0, []P{p}) {
			return
		}
		expr(star.v, star.em)
	case 12:
		// all of it in a subquery
		st, err := s.b.(cyReturning).Returning(star.v).Build()
		if err != nil {
			c.Fail("unexpected error %v", err)
			return
		}
		ems := s.ems
		t := &sb{b: cy.ACallByStatement(st), ems: []Em{func(w *W) {
			w.kw("CALL")
			w.sym("{")
			for _, e := range ems {
				e(w)
			}
			w.kw("RETURN")
			w.sym("*")
			w.sym("}")
		}}}
		if t.exprs("Returning", "RETURN", star) {
			c.checkSB(t)
		}
	}
}

type cyReturning interface {
	Returning(...cy.Expression) cy.OngoingReadingAndReturn
}

// derive gives a node with something changed.
const nDerive = 5

func derive(n N, k, i int) N {
	d := n
	d.id = nextID()
	switch k {
	case 0:
		d.name = fmt.Sprint("n", i)
		d.v = n.v.NamedByString(d.name)
	case 1:
		d.name = fmt.Sprint("m", i)
		d.v = n.v.Named(cy.ASymbolic(d.name))
	case 2:
		d.props = []KV{{fmt.Sprint("k", i), xInt(i)}}
		d.v = n.v.WithRawProperties(kvArgs(d.props)...)
	case 3:
		d.props = []KV{{fmt.Sprint("k", i), xInt(i)}, {"l", xSym("v")}}
		d.v = n.v.WithProperties(cy.MapOf(kvArgs(d.props)...))
	case 4:
		d.props = nil
		d.v = n.v.WithRawProperties()
	}
	return d
}

func nodeBase(k int) N {
	e := func(v cy.Node, name string, labels []string, props []KV) N {
		return N{v, nextID(), name, labels, props}
	}
	p := []KV{{"a", xInt(7)}}
	switch k {
	case 0:
		return e(cy.AnyNode(), "", nil, nil)
	case 1:
		return e(cy.AnyNodeNamed("x"), "x", nil, nil)
	case 2:
		return e(cy.ANode("A"), "", []string{"A"}, nil)
	case 3:
		return e(cy.NewNodeWithLabels("A", "B"), "", []string{"A", "B"}, nil)
	case 4:
		return e(cy.NewNodeWithLabels("A", "B", "C"), "", []string{"A", "B", "C"}, nil)
	case 5:
		return e(cy.NewNodeWithProperties("A", cy.MapOf("a", 7)), "", []string{"A"}, p)
	case 6:
		return e(cy.NewNodeWithProperties("A", cy.MapOf("a", 7), "B", "C"), "", []string{"A", "B", "C"}, p)
	case 7:
		return e(cy.NewNodeWithLabels("B", "A", "A"), "", []string{"B", "A", "A"}, nil)
	}
	panic("node")
}

const nBases = 8

// --- relationships -----------------------------------------------------------------------------------------------

const nMods = 10

// mod applies a modifier.
func (r R) mod(k, i int) R {
	switch k {
	case 0:
		r.name = fmt.Sprint("r", i)
		r.v = r.v.NamedByString(r.name)
	case 1:
		r.name = fmt.Sprint("s", i)
		r.v = r.v.Named(r.name)
	default:
		r = r.modC(k, i)
		switch k {
		case 2:
			r.v = r.v.Unbounded()
		case 3, 4:
			r.v = r.v.Min(r.min)
		case 5, 6:
			r.v = r.v.Max(r.max)
		case 7:
			r.v = r.v.Length(r.min, r.max)
		case 8:
			r.v = r.v.WithRawProperties(kvArgs(r.props)...)
		case 9:
			r.v = r.v.WithProperties(cy.MapOf(kvArgs(r.props)...))
		}
	}
	return r
}

// modC only changes the description.
func (r R) modC(k, i int) R {
	setMin := func(n int) {
		r.min = n
		if r.lk == 3 || r.lk == 4 {
			r.lk = 4
		} else {
			r.lk = 2
		}
	}
	setMax := func(n int) {
		r.max = n
		if r.lk == 2 || r.lk == 4 {
			r.lk = 4
		} else {
			r.lk = 3
		}
	}
	switch k {
	case 0:
		r.name = fmt.Sprint("r", i)
	case 1:
		r.name = fmt.Sprint("s", i)
	case 2:
		r.lk = 1
	case 3:
		setMin(i + 1)
	case 4:
		setMin(0)
	case 5:
		setMax(10 + i)
	case 6:
		setMax(10 * (i + 1))
	case 7:
		setMin(i)
		setMax(20 + i)
	case 8:
		r.props = []KV{{fmt.Sprint("k", i), xInt(i)}}
	case 9:
		r.props = []KV{{fmt.Sprint("k", i), xInt(i)}, {"l", xStr("x")}}
	}
	return r
}

// lastMod applies a modifier to the last relationship of a chain.
func (ch Ch) lastMod(k, i int) Ch {
	rs := append([]R(nil), ch.rs...)
	l := &rs[len(rs)-1]
	*l = l.modC(k, i)
	v := ch.v
	switch k {
	case 0, 1:
		v = v.NamedC(l.name)
	case 2:
		v = v.Unbounded()
	case 3, 4:
		v = v.Min(l.min)
	case 5, 6:
		v = v.Max(l.max)
	case 7:
		v = v.Length(l.min, l.max)
	case 8:
		v = v.PropertiesRaw(kvArgs(l.props)...)
	case 9:
		v = v.Properties(cy.MapOf(kvArgs(l.props)...))
	}
	return Ch{v, rs}
}

// grow adds a relationship to a node.
func (ch Ch) grow(dir int, n N, types ...string) Ch {
	l := ch.rs[len(ch.rs)-1].r
	q := R{l: l, r: n, dir: dir, types: types}
	v := ch.v
	switch dir {
	case 0:
		v = v.RelationshipTo(n.v, types...)
	case 1:
		v = v.RelationshipFrom(n.v, types...)
	case 2:
		v = v.RelationshipBetween(n.v, types...)
	}
	return Ch{v, append(append([]R(nil), ch.rs...), q)}
}

func (r R) grow(dir int, n N, types ...string) Ch {
	q := R{l: r.r, r: n, dir: dir, types: types}
	var v cy.RelationshipChain
	switch dir {
	case 0:
		v = r.v.RelationshipTo(n.v, types...)
	case 1:
		v = r.v.RelationshipFrom(n.v, types...)
	case 2:
		v = r.v.RelationshipBetween(n.v, types...)
	}
	return Ch{v, []R{r, q}}
}

// checkP compares patterns.
func (c *C) checkP(kind int, ps ...P) {
	var s sb
	s.patterns(kind, ps)
	if kind < 2 {
		s.exprs("Returning", "RETURN", X{id: nextID(), v: cy.AnAsterisk(), em: func(w *W) { w.sym("*") }})
	}
	c.checkSB(&s)
}

var typeLists = [][]string{nil, {"T"}, {"T", "U"}, {"U", "T", "V"}, {"T", "T"}}

func patHarnesses() []*Harness {
	nodes := func() []N {
		return []N{mkN("", nil, nil), mkN("b", []string{"L"}, []KV{{"k", xInt(1)}}), mkN("", []string{"M"}, nil)}
	}
	return shared(1, []*Harness{
		{Prop: "C11", Name: "occurrences", ShardDepth: 3,
			Rule: "every arrangement of up to 4 (thorough: 5) occurrences out of 7 nodes (named with labels and properties, without name, name only, renamed, other properties, same name, named later) over patterns of 1 to 3 nodes, joined in one clause or by MATCH, OPTIONAL MATCH, CREATE, MERGE, WITH and MATCH",
			Body: func(c *C) {
				pool := nodePool()
				n := 1 + c.Choose("occurrences", dep(4, 5))
				var groups [][]N
				for i := 0; i < n; i++ {
					x := pool[c.Choose("node", nPool)]
					if i > 0 && len(groups[len(groups)-1]) < 3 && c.Bool("joined") {
						groups[len(groups)-1] = append(groups[len(groups)-1], x)
					} else {
						groups = append(groups, []N{x})
					}
				}
				var s sb
				kind := c.Choose("clause", dep(2, 4))
				if kind == 1 {
					kind = 2
				}
				var ps []P
				for i, g := range groups {
					if i > 0 {
						// a MERGE has one pattern only
						join := c.Choose("join", 6)
						if join > 0 {
							if !s.patterns(kind, ps) {
								return
							}
							ps = nil
							if join == 5 {
								if !s.exprs("With", "WITH", xSym("z")) {
									return
								}
								kind = 0
							} else {
								kind = join - 1
							}
						}
					}
					ps = append(ps, shape(g, i%3))
				}
				if !s.patterns(kind, ps) {
					return
				}
				if !s.exprs("Returning", "RETURN", xSym("z")) {
					return
				}
				c.checkSB(&s)
			}},
		{Prop: "C11", Name: "occurrences-in-places", ShardDepth: 3,
			Rule: "two nodes out of 7 declared by MATCH, patterns of 1 to 3 nodes out of 7 in 13 places (filter, exists, size, comprehension, named and shortest path, existential subquery, CASE, behind WITH, in a subquery)",
			Body: func(c *C) {
				pool := nodePool()
				var s sb
				a, b := pool[c.Choose("one", nPool)], pool[c.Choose("two", nPool)]
				if c.Bool("related") {
					s.patterns(0, []P{shape([]N{a, b}, 0)})
				} else {
					s.patterns(0, []P{a.p(), b.p()})
				}
				n := 1 + c.Choose("size", 3)
				var ns []N
				for i := 0; i < n; i++ {
					if i == 2 && !thorough() {
						ns = append(ns, pool[(c.Choose("node", 2)+1)%nPool])
						continue
					}
					ns = append(ns, pool[c.Choose("node", nPool)])
				}
				c.inPatPlace(c.Choose("place", nPatPlaces), &s, shape(ns, n%3))
			}},
		{Prop: "C11", Name: "derived-nodes", ShardDepth: 3,
			Rule: "8 constructors x every sequence of up to 3 (thorough: 4) of naming (by string, symbol), properties (raw, map, none); the result, all nodes on the way and both twice in one statement",
			Body: func(c *C) {
				n := nodeBase(c.Choose("constructor", nBases))
				all := []N{n}
				d := c.Choose("steps", dep(4, 5))
				for i := 0; i < d; i++ {
					k := c.Choose("step", nDerive)
					n = derive(n, k, i)
					all = append(all, n)
				}
				var ps []P
				kind := 0
				switch c.Choose("use", 5) {
				case 0:
					ps = []P{n.p()}
				case 1:
					for _, x := range all {
						ps = append(ps, x.p())
					}
				case 2:
					for i := len(all) - 1; i >= 0; i-- {
						ps = append(ps, all[i].p())
					}
				case 3:
					ps = []P{n.p(), n.p(), mkR(n, 0, n, "T").p(), n.p()}
				case 4:
					kind = 2
					ps = []P{shape(all, 0)}
				}
				c.checkP(kind, ps...)
			}},
		{Prop: "C11", Name: "derived-apart", ShardDepth: 2,
			Rule: "two nodes derived from each constructor by every pair of sequences of up to 2 steps, both in one statement in both orders and again",
			Body: func(c *C) {
				base := nodeBase(c.Choose("constructor", nBases))
				mk := func(o int) N {
					n := base
					d := c.Choose("steps", 3)
					for i := 0; i < d; i++ {
						n = derive(n, c.Choose("step", nDerive), o+i)
					}
					if d == 0 {
						return base
					}
					return n
				}
				a, b := mk(0), mk(10)
				if c.Bool("related") {
					c.checkP(0, mkR(a, 0, b, "T").p(), mkR(b, 1, a, "U").p())
				} else {
					c.checkP(0, a.p(), b.p(), b.p(), a.p())
				}
				c.checkP(2, base.p())
			}},
		{Prop: "C11", Name: "many-nodes", ShardDepth: 1,
			Rule: "every number of different nodes up to 300 (thorough: 1500), each once or twice in one statement, named or derived from one node",
			Body: func(c *C) {
				n := 1 + c.Choose("nodes", dep(300, 1500))
				base := mkN("", []string{"L", "M"}, []KV{{"k", xInt(1)}})
				var ps []P
				var ns []N
				der, twice, again := c.Bool("derived"), c.Bool("twice"), c.Bool("same name")
				for i := 0; i < n; i++ {
					name := fmt.Sprint("n", i)
					if again {
						name = "n"
					}
					x := N{base.v.NamedByString(name), nextID(), name, base.labels, base.props}
					if !der {
						x = mkN(name, []string{fmt.Sprint("L", i)}, nil)
					}
					ns = append(ns, x)
					ps = append(ps, x.p())
				}
				if twice {
					for _, x := range ns {
						ps = append(ps, x.p())
					}
				}
				c.checkP(0, ps...)
			}},
		{Prop: "C11", Name: "labels", ShardDepth: 1,
			Rule: "every list of up to 4 labels out of 3 and every number of labels up to 200, with and without name and properties, twice",
			Body: func(c *C) {
				var ls []string
				if c.Bool("many") {
					n := 5 + c.Choose("number", dep(196, 1000))
					for i := 0; i < n; i++ {
						ls = append(ls, fmt.Sprint("L", i))
					}
				} else {
					n := 1 + c.Choose("labels", 4)
					for i := 0; i < n; i++ {
						ls = append(ls, []string{"A", "B", "a b"}[c.Choose("label", 3)])
					}
				}
				name := ""
				if c.Bool("named") {
					name = "n"
				}
				var props []KV
				if c.Bool("properties") {
					props = []KV{{"k", xSym("v")}}
				}
				n := mkN(name, ls, props)
				c.checkP(0, n.p(), n.p())
			}},

		{Prop: "C12", Name: "modifiers", ShardDepth: 3,
			Rule: "3 directions x 5 lists of types x every sequence of up to 4 (thorough: 5) out of 10 modifiers (names, unbounded, minimum, zero, maximum, length, properties)",
			Body: func(c *C) {
				ns := nodes()
				r := mkR(ns[0], c.Choose("direction", 3), ns[1], typeLists[c.Choose("types", dep(3, 5))]...)
				d := c.Choose("modifiers", dep(5, 6))
				for i := 0; i < d; i++ {
					r = r.mod(c.Choose("modifier", nMods), i)
				}
				c.checkP(0, r.p())
			}},
		{Prop: "C12", Name: "modifier-prefixes", ShardDepth: 3,
			Rule: "every prefix of every sequence of up to 3 (thorough: 4) modifiers rendered after all were built, and every pair of continuations of it",
			Body: func(c *C) {
				ns := nodes()
				r := mkR(ns[0], c.Choose("direction", 3), ns[2], "T")
				all := []R{r}
				d := c.Choose("modifiers", dep(4, 5))
				for i := 0; i < d; i++ {
					r = r.mod(c.Choose("modifier", nMods), i)
					all = append(all, r)
				}
				all = append(all, r.mod(c.Choose("one", nMods), 20))
				all = append(all, r.mod((c.Choose("other", 3)*3+2)%nMods, 30))
				all = append(all, r)
				var ps []P
				for _, x := range all {
					ps = append(ps, x.p())
				}
				c.checkP(0, ps...)
			}},
		{Prop: "C12", Name: "chains", ShardDepth: 4,
			Rule: "chains of 2 or 3 (thorough: 4) relationships x directions x types (none, two) x up to 1 (2 for the last; thorough: 2) modifiers on each when it is the last one",
			Body: func(c *C) {
				ns := nodes()
				types := func() []string { return typeLists[c.Choose("types", 2)*2] }
				r := mkR(ns[0], c.Choose("direction", 3), ns[1], types()...)
				if k := c.Choose("modifier", nMods+1); k > 0 {
					r = r.mod(k-1, 0)
				}
				n := 2 + c.Choose("length", 2)
				var ch Ch
				for i := 1; i < n; i++ {
					dir := c.Choose("direction", 3)
					t := typeLists[(dir+i)%len(typeLists)]
					if i == 1 {
						ch = r.grow(dir, ns[2], t...)
					} else {
						ch = ch.grow(dir, ns[(i+1)%3], t...)
					}
					if n == 2 || (i == 1 && thorough()) || i == n-1 {
						max := 3
						if n == 3 && !thorough() {
							max = 2
						}
						m := c.Choose("modifiers", max)
						for j := 0; j < m; j++ {
							ch = ch.lastMod(c.Choose("modifier", nMods), 10*i+j)
						}
					}
				}
				c.checkP(0, ch.p())
			}},
		{Prop: "C12", Name: "chain-prefixes", ShardDepth: 3,
			Rule: "every sequence of up to 4 (thorough: 5) steps (grow in 3 directions, 5 modifiers) on a relationship, all intermediate chains rendered afterwards in one statement and on their own, the last two continued twice",
			Body: func(c *C) {
				ns := nodes()
				mods := []int{1, 2, 3, 5, 8}
				r := mkR(ns[0], 0, ns[1], "T")
				all := []P{r.p()}
				var ch Ch
				grown := false
				d := 1 + c.Choose("steps", dep(4, 5))
				for i := 0; i < d; i++ {
					k := c.Choose("step", 8)
					switch {
					case k < 3 && !grown:
						ch = r.grow(k, ns[(i+2)%3], fmt.Sprint("G", i))
						grown = true
						all = append(all, ch.p())
					case k < 3:
						// both continuations of the same chain
						o := ch.grow((k+1)%3, ns[i%3], fmt.Sprint("H", i))
						ch = ch.grow(k, ns[(i+2)%3], fmt.Sprint("G", i))
						all = append(all, o.p(), ch.p())
					case grown:
						o := ch.lastMod(mods[(k-2)%5], 50+i)
						ch = ch.lastMod(mods[k-3], i)
						all = append(all, o.p(), ch.p())
					default:
						o := r.mod(mods[(k-2)%5], 50+i)
						r = r.mod(mods[k-3], i)
						all = append(all, o.p(), r.p())
					}
				}
				c.checkP(0, all...)
				for _, p := range all {
					c.checkP(2, p)
				}
			}},
		{Prop: "C12", Name: "relationships-in-places", ShardDepth: 3,
			Rule: "relationships with 3 directions x 3 lists of types x up to 2 modifiers and chains of 2 with up to 2 modifiers in 13 places and in MATCH, OPTIONAL MATCH, CREATE, MERGE",
			Body: func(c *C) {
				ns := nodes()
				r := mkR(ns[0], c.Choose("direction", 3), ns[1], typeLists[c.Choose("types", 3)]...)
				chain := c.Bool("chain")
				d := c.Choose("modifiers", 3)
				var p P
				if chain {
					ch := r.grow(c.Choose("direction", 3), ns[2], "Z")
					for i := 0; i < d; i++ {
						ch = ch.lastMod(c.Choose("modifier", nMods), i)
					}
					p = ch.p()
				} else {
					for i := 0; i < d; i++ {
						r = r.mod(c.Choose("modifier", nMods), i)
					}
					p = r.p()
				}
				k := c.Choose("place", nPatPlaces+4)
				if k >= nPatPlaces {
					c.checkP(k-nPatPlaces, p)
					return
				}
				var s sb
				s.patterns(0, []P{mkN("other", nil, nil).p()})
				c.inPatPlace(k, &s, p)
			}},
		{Prop: "C12", Name: "long-chains", ShardDepth: 1,
			Rule: "chains of every length up to 150 (thorough: 600) with names and lengths on all, and every number of types up to 150 (thorough: 600), all prefixes kept",
			Body: func(c *C) {
				n := 2 + c.Choose("length", dep(150, 600))
				a, b := mkN("", nil, nil), mkN("", []string{"B"}, nil)
				if c.Bool("types") {
					var ts []string
					for i := 0; i < n; i++ {
						ts = append(ts, fmt.Sprint("T", i))
					}
					r := mkR(a, n%3, b, ts...)
					c.checkP(0, r.p())
					c.checkP(0, r.grow(1, a, ts...).lastMod(2, 1).p())
					return
				}
				r := mkR(a, 0, b, "T").mod(0, 0)
				ch := r.grow(1, a, "U")
				half := ch
				for i := 2; i < n; i++ {
					ch = ch.grow(i%3, b, fmt.Sprint("T", i)).lastMod(0, i).lastMod(i%8+2, i)
					if i == n/2 {
						half = ch
					}
				}
				other := half.grow(0, b, "other")
				c.checkP(0, ch.p())
				c.checkP(0, half.p())
				c.checkP(0, other.p())
			}},
		{Prop: "C12", Name: "lengths", ShardDepth: 1,
			Rule: "minimum, maximum and both out of -0..12, 99, 100, 65536, 2^31 for relationships and chains",
			Body: func(c *C) {
				ls := []int{0, 1, 2, 3, 9, 10, 11, 12, 99, 100, 65536, 1 << 31}
				a := mkN("", nil, nil)
				r := mkR(a, c.Choose("direction", 3), a)
				lo, hi := ls[c.Choose("minimum", len(ls))], ls[c.Choose("maximum", len(ls))]
				k := c.Choose("set", 4)
				set := func(r R) R {
					switch k {
					case 0:
						r.lk, r.min = 2, lo
					case 1:
						r.lk, r.max = 3, hi
					default:
						r.lk, r.min, r.max = 4, lo, hi
					}
					return r
				}
				if c.Bool("chain") {
					ch := r.grow(1, a, "U")
					ch.rs[1] = set(ch.rs[1])
					switch k {
					case 0:
						ch.v = ch.v.Min(lo)
					case 1:
						ch.v = ch.v.Max(hi)
					case 2:
						ch.v = ch.v.Length(lo, hi)
					case 3:
						ch.v = ch.v.Max(hi).Min(lo)
					}
					c.checkP(0, ch.p())
					return
				}
				r = set(r)
				switch k {
				case 0:
					r.v = r.v.Min(lo)
				case 1:
					r.v = r.v.Max(hi)
				case 2:
					r.v = r.v.Length(lo, hi)
				case 3:
					r.v = r.v.Max(hi).Min(lo)
				}
				c.checkP(0, r.p())
			}},
	}...)
}
