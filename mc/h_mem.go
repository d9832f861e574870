package main

// What the memory management does between the calls is part of the history: collections, memory that is used again,
// stacks that move and any number of other elements.

import (
	"fmt"
	"runtime"
	"runtime/debug"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

const nGaps = 4

var sink []interface{}

// gap is what happens between two calls.
func (c *C) gap() { gap(c.Choose("meanwhile", nGaps)) }

func litter(n int) {
	for i := 0; i < n; i++ {
		a := cy.AnyNodeNamed("x")
		b := cy.ASymbolic("y")
		sink = append(sink[:0], a, b, cy.LiteralOf(i), cy.AProperty("p", "q"), b.IsNull(), cy.AliasedExpressionCreate(b, "z"), a.RelationshipTo(a, "T"), cy.MapOf("k", b), cy.ListOf(b))
	}
	sink = nil
}

func deepStack(n int) int {
	var b [512]byte
	b[n%512] = byte(n)
	if n == 0 {
		return int(b[0])
	}
	return deepStack(n-1) + int(b[n%512])
}

func gap(k int) {
	switch k {
	case 1: // a collection, and the memory is used for something else
		runtime.GC()
		litter(150)
	case 2: // elements nobody uses
		litter(20)
	case 3: // collections only, and the stack grows, moves and shrinks
		deepStack(2000)
		runtime.GC()
	}
}

// separateHarness: elements made at different times are different elements.
func separateHarness() *Harness {
	return &Harness{Prop: "C02", Name: "separate-elements", ShardDepth: 3,
		Rule: "for every kind of expression, with collections, used memory, moved stacks or other elements between any two calls: two elements with an alias each, used again, next to elements of the same kind without alias",
		Body: func(c *C) {
			k := c.Choose("kind", nKinds)
			g := &condGen{}
			a := g.x(k)
			c.gap()
			aa := mkA(a, "al1")
			c.gap()
			b := g.x(k)
			ba := mkA(b, "al2")
			c.gap()
			d := g.x(k)
			x := []X{aa.x(), ba.x(), a, d, b}
			bd := cy.CypherReturning(vals(x)...)
			c.gap()
			s, err := bd.Build()
			if c.Bool("collect before rendering") {
				gap(1)
			}
			c.check(s, err, func(w *W) { w.kw("RETURN"); w.xs(x) })
		}}
}

// separateNodes: the same for nodes, and nodes made from other nodes.
func separateNodes() *Harness {
	return &Harness{Prop: "C02", Name: "separate-nodes", ShardDepth: 3,
		Rule: "nodes with the same name, labels or a common origin, with collections, used memory, moved stacks or other elements between any two calls, in patterns, relationships and filters of one statement",
		Body: func(c *C) {
			a := mkN("n", []string{"A", "B"}, nil)
			c.gap()
			var b N
			switch c.Choose("second", 4) {
			case 0:
				b = mkN("n", []string{"A", "B"}, nil)
			case 1:
				b = mkN("n", []string{"C"}, []KV{{"k", xInt(1)}})
			case 2:
				b = N{a.v.NamedByString("m"), nextID(), "m", a.labels, nil}
			case 3:
				b = N{a.v.WithRawProperties("k", cy.LiteralOf(1)), nextID(), "n", a.labels, []KV{{"k", xInt(1)}}}
			}
			c.gap()
			r := mkR(a, 0, b, "T").named("r")
			c.gap()
			d := mkN("n", []string{"D"}, nil)
			m := cy.Match(r.v, d.v)
			c.gap()
			m2 := m.Match(mkR(d, 1, a, "U").v)
			c.gap()
			s, err := m2.Returning(a.v.Property("p")).Build()
			u := mkR(d, 1, a, "U")
			c.check(s, err, func(w *W) {
				w.kw("MATCH")
				w.ps([]P{r.p(), d.p()})
				w.kw("MATCH")
				w.r(u)
				w.kw("RETURN")
				w.name("n")
				w.sym(".")
				w.name("p")
			})
		}}
}

// manyHarness: many elements at the same time, the first of them made before a collection.
func manyHarness() *Harness {
	return &Harness{Prop: "C02", Name: "many-elements", ShardDepth: 2, Rule: "for every kind of expression and for nodes: one element, a collection or other elements, then thousands of the same kind, all in one statement with the first one's alias",
		Body: func(c *C) {
			k := c.Choose("kind", nKinds+1)
			how := c.Choose("meanwhile", nGaps)
			n := []int{300, 3000, 20000}[c.Choose("number", dep(2, 3))]
			g := &condGen{}
			if k == nKinds {
				first := mkN("n", []string{"F"}, nil)
				gap(how)
				var ps []P
				ps = append(ps, first.p())
				for i := 0; i < n; i++ {
					ps = append(ps, mkN("n", []string{fmt.Sprint("L", i)}, nil).p())
					if i%1000 == 999 {
						runtime.GC()
					}
				}
				ps = append(ps, first.p(), ps[1], ps[n])
				s, err := cy.Match(pvals(ps)...).Returning(cy.AnAsterisk()).Build()
				c.check(s, err, func(w *W) { w.kw("MATCH"); w.ps(ps); w.kw("RETURN"); w.sym("*") })
				return
			}
			a := g.x(k)
			aa := mkA(a, "al")
			gap(how)
			xs := []X{aa.x()}
			for i := 0; i < n; i++ {
				xs = append(xs, g.x(k))
				if i%1000 == 999 {
					runtime.GC()
				}
			}
			xs = append(xs, a, xs[1], aa.x())
			s, err := cy.CypherReturning(vals(xs)...).Build()
			c.check(s, err, func(w *W) { w.kw("RETURN"); w.xs(xs) })
		}}
}

// countHarness: any number of other elements between two.
func countHarness() *Harness {
	return &Harness{Prop: "C02", Name: "counts", ShardDepth: 1,
		Rule: "two nodes and two aliased expressions with exactly k other elements made between them, for all k up to a bound and around all powers of two up to 2^17",
		Body: func(c *C) {
			var ks []int
			lim, near := dep(1100, 5000), dep(24, 200)
			for k := 0; k < lim; k++ {
				ks = append(ks, k)
			}
			for p := 2048; p <= 1<<17; p *= 2 {
				for k := p - near; k <= p+near; k++ {
					if k >= lim {
						ks = append(ks, k)
					}
				}
			}
			n := ks[c.Choose("number", len(ks))]
			kind := c.Choose("elements", 2)
			c.Log("%d elements between", n)
			between := func() {
				for i := 0; i < n; i++ {
					cy.ASymbolic("x")
				}
			}
			if kind == 0 {
				a := mkN("a", []string{"A"}, nil)
				between()
				b := mkN("b", []string{"B"}, nil)
				s, err := cy.Match(a.v, b.v).Match(a.v).Returning(cy.AnAsterisk()).Build()
				c.check(s, err, func(w *W) {
					w.kw("MATCH")
					w.ps([]P{a.p(), b.p()})
					w.kw("MATCH")
					w.n(a)
					w.kw("RETURN")
					w.sym("*")
				})
				return
			}
			x := xSym("x")
			al := mkA(x, "al")
			between()
			y := xSym("y")
			z := mkA(xProp("c", "p"), "am")
			xs := []X{al.x(), y, z.x(), x, z.of}
			s, err := cy.CypherReturning(vals(xs)...).Build()
			c.check(s, err, func(w *W) { w.kw("RETURN"); w.xs(xs) })
		}}
}

// farCountHarness: counters that have gone round.
func farCountHarness() *Harness {
	return &Harness{Prop: "C02", Name: "far-counts", ShardDepth: 1,
		Rule: "a named node and an aliased expression, then about 2^k (k = 17 to 23; thorough: to 28) or 10^k (k = 5 to 7; thorough: to 8) other elements, then 150 nodes and 150 expressions with an alias, all in one statement: none is taken for the first ones",
		Body: func(c *C) {
			var ks []int
			for k := 17; k <= dep(23, 28); k++ {
				ks = append(ks, 1<<uint(k))
			}
			for k, p := 5, 100000; k <= dep(7, 8); k, p = k+1, p*10 {
				ks = append(ks, p)
			}
			n := ks[c.Choose("elements", len(ks))]
			// an element may move a counter behind the identities once or twice
			step := c.Choose("steps per element", 2) + 1
			c.Log("%d elements between", n)
			a := mkN("a", []string{"A"}, nil)
			x := xSym("x")
			al := mkA(x, "al")
			for i := 0; i < n/step-40; i++ {
				cy.ASymbolic("x")
			}
			ps := []P{a.p()}
			var ns []N
			xs := []X{al.x()}
			for i := 0; i < 150; i++ {
				b := mkN(fmt.Sprint("b", i), []string{"B"}, nil)
				ns = append(ns, b)
				ps = append(ps, b.p())
				xs = append(xs, mkA(xProp("c", fmt.Sprint("p", i)), fmt.Sprint("am", i)).x(), xSym(fmt.Sprint("y", i)))
			}
			xs = append(xs, x)
			s, err := cy.Match(pvals(ps)...).Match(a.v).Returning(vals(xs)...).Build()
			c.check(s, err, func(w *W) {
				w.kw("MATCH")
				w.ps(ps)
				w.kw("MATCH")
				w.n(a)
				w.kw("RETURN")
				w.xs(xs)
			})
		}}
}

// collectorHarness: whole programs under a collector that runs all the time.
func collectorHarness() *Harness {
	return &Harness{Prop: "C02", Name: "collector", ShardDepth: 1, Serial: false,
		Rule: "every function and every call on its value up to a depth, run while the collector runs all the time, and with a collection after every call; compared with the undisturbed run",
		Body: func(c *C) {
			p := c.chooseProg(dep(1, 2))
			mode := c.Choose("mode", 2)
			g := &G{p: "n", cycle: 4}
			want := g.observe(p.run(g))
			h := &G{p: "n", cycle: 4}
			c.Log("%s", p)
			if mode == 0 {
				old := debug.SetGCPercent(1)
				got := h.observe(p.run(h))
				debug.SetGCPercent(old)
				c.same("the program, while the collector runs,", got, want)
				return
			}
			x := h.start(p.f, p.v)
			gap(1)
			for _, s := range p.steps {
				x = h.call(x, s)
				gap(1)
			}
			s, err := h.complete(x)
			gap(1)
			c.same("the program with collections after every call", show(s, err), want)
		}}
}

func memHarnesses() []*Harness {
	return []*Harness{separateHarness(), separateNodes(), manyHarness(), countHarness(), farCountHarness(), collectorHarness()}
}
