package main

import (
	"reflect"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// subStatement makes a statement that returns something.
func (c *C) subStatement(depth int) (cy.Statement, *St, bool) {
	b := root(c.Choose("sub root", nRoots))
	b = c.walk(b, depth, profile{methods: anyMethod, maxVariants: 1})
	if b.done {
		if b.st.last().kind != "RETURN" && !(len(b.st.cl) == 1 && b.st.last().kind == "CALL" && len(b.st.last().yields) > 0 && b.st.last().where.empty()) {
			return nil, nil, false
		}
	} else {
		for i := 0; i < 4 && !b.done; i++ {
			for _, m := range []string{"Ascending", "As", "YieldString", "Set", "Returning", "Build"} {
				if b.has(m) && !(m == "Set" && b.st.on == "") {
					b = b.do(step{m, 0})
					break
				}
			}
		}
		if !b.done {
			return nil, nil, false
		}
		if b.st.last().kind != "RETURN" {
			return nil, nil, false
		}
	}
	if b.err != nil {
		c.Fail("unexpected error %v", b.err)
		return nil, nil, false
	}
	return b.stmt, b.st, true
}

type subCaller interface {
	Call(cy.Statement) cy.OngoingReadingWithoutWhere
}

func (c *C) subquery() {
	s, st, ok := c.subStatement(dep(2, 3))
	if !ok {
		return
	}
	var b *B
	switch k := c.Choose("outer", 8); k {
	case 0:
		b = &B{st: (&St{}).add(Clause{kind: "SUB", sub: st}), v: iface(cy.ACallByStatement(s)), n: 500}
	default:
		b = settle(root([]int{0, 0, 2, 5, 9, 12, 14, 15}[k]))
		b.n = 500
		if k == 1 {
			b, _ = c.stepTo(b, "Where", 0)
		}
		if k == 7 {
			b = settle(b.do(step{"Call1", 0}))
		}
		caller, isCaller := b.v.Interface().(subCaller)
		if !isCaller {
			return
		}
		b.v = iface(caller.Call(s))
		b.st = b.st.add(Clause{kind: "SUB", sub: st})
	}
	switch c.Choose("then", 6) {
	case 1:
		b, _ = c.stepTo(b, "Where", 0)
		_ = b
		return // a filter directly after a subquery has no clause to belong to
	case 2:
		b, _ = c.stepTo(b, "Match", 0)
		b, _ = c.stepTo(b, "Where", 0)
	case 3:
		b, _ = c.stepTo(b, "With", 1)
		b, _ = c.stepTo(b, "Where", 0)
	case 4:
		b, _ = c.stepTo(b, "Set", 0)
	case 5:
		b, _ = c.stepTo(b, "Call", 0)
		b, _ = c.stepTo(b, "Unwind", 0)
	}
	c.checkB(b)
}

func (c *C) nestedSubqueries() {
	shared := mkN("sh", []string{"Shared"}, []KV{{"k", xInt(1)}})
	al := mkA(xProp("sh", "x"), "shx")
	var build func(level int) (cy.Statement, Em)
	depth := c.Choose("levels", dep(4, 5)) + 1
	n := 0
	fresh := func(p string) string { n++; return p + string(rune('a'+n%26)) + string(rune('a'+n/26)) }
	must := func(s cy.Statement, err error) cy.Statement {
		if err != nil {
			c.Fail("unexpected error %v", err)
		}
		return s
	}
	build = func(level int) (cy.Statement, Em) {
		x := xProp(fresh("v"), "p")
		if level == 0 {
			switch c.Choose("innermost", 3) {
			case 0:
				s := must(cy.Match(shared.v).Returning(x.v, al.v).Build())
				return s, func(w *W) {
					w.kw("MATCH")
					w.n(shared)
					w.kw("RETURN")
					w.x(x)
					w.sym(",")
					w.a(al)
				}
			case 1:
				s := must(cy.ACall("db", "labels").YieldString("l").Build())
				return s, func(w *W) {
					w.kw("CALL")
					w.name("db")
					w.sym(".")
					w.name("labels")
					w.sym("(", ")")
					w.kw("YIELD")
					w.name("l")
				}
			}
			a := must(cy.CypherReturning(x.v).Build())
			b := must(cy.Match(shared.v).Returning(al.v).Build())
			return cy.UnionAll(a, b), func(w *W) {
				w.kw("RETURN")
				w.x(x)
				w.kw("UNION ALL MATCH")
				w.n(shared)
				w.kw("RETURN")
				w.a(al)
			}
		}
		in, em := build(level - 1)
		if in == nil {
			panic("no statement")
		}
		sub := func(w *W) {
			w.kw("CALL")
			w.sym("{")
			em(w)
			w.sym("}")
		}
		own := mkN(fresh("n"), []string{"Own"}, nil)
		switch c.Choose("surroundings", 5) {
		case 0:
			s := must(cy.Match(own.v).Call(in).Returning(x.v).Build())
			return s, func(w *W) {
				w.kw("MATCH")
				w.n(own)
				sub(w)
				w.kw("RETURN")
				w.x(x)
			}
		case 1:
			s := must(cy.With(x.v).Call(in).Match(shared.v).Returning(al.v, x.v).Build())
			return s, func(w *W) {
				w.kw("WITH")
				w.x(x)
				sub(w)
				w.kw("MATCH")
				w.n(shared)
				w.kw("RETURN")
				w.a(al)
				w.sym(",")
				w.x(x)
			}
		case 2:
			s := must(cy.ACallByStatement(in).Returning(x.v).OrderBy(x.v).Descending().Limit(2).Build())
			return s, func(w *W) {
				sub(w)
				w.kw("RETURN")
				w.x(x)
				w.kw("ORDER BY")
				w.x(x)
				w.kw("DESC LIMIT")
				w.num(2)
			}
		case 3:
			r := mkR(own, 0, shared, "T")
			k := propC("q", "k", 4)
			k2 := propC("q", "k", 5)
			s := must(cy.Match(r.v).Where(k.v).Call(in).With(x.v).Where(k2.v).ReturningDistinct(x.v).Build())
			return s, func(w *W) {
				w.kw("MATCH")
				w.r(r)
				w.where(k.f)
				sub(w)
				w.kw("WITH")
				w.x(x)
				w.where(k2.f)
				w.kw("RETURN DISTINCT")
				w.x(x)
			}
		}
		a := must(cy.ACallByStatement(in).Returning(x.v).Build())
		y := xSym(fresh("y"))
		b := must(cy.Match(own.v).Returning(y.v).Build())
		return cy.Union(a, b), func(w *W) {
			sub(w)
			w.kw("RETURN")
			w.x(x)
			w.kw("UNION MATCH")
			w.n(own)
			w.kw("RETURN")
			w.x(y)
		}
	}
	s, em := build(depth)
	c.check(s, nil, em)
	if c.Bool("rendered again") {
		c.check(s, nil, em)
	}
}

// existsCond makes an existential subquery.
func (c *C) existsCond(level int, n *int) Cn {
	fresh := func(p string) string {
		*n++
		if s, ok := pooled(p); ok {
			return s
		}
		return p + string(rune('a'+*n%26)) + string(rune('a'+*n/26))
	}
	var ps []P
	nd := func() N { return mkN(fresh("n"), []string{fresh("L")}, nil) }
	switch c.Choose("match", 3) {
	case 0:
		ps = []P{nd().p()}
	case 1:
		ps = []P{mkR(mkN(fresh("n"), nil, nil), 0, nd(), "T").p()}
	case 2:
		ps = []P{nd().p(), mkR(nd(), 2, nd()).p()}
	}
	m := cy.Match(pvals(ps)...)
	var f *Form
	arg := func() Cn {
		k := 2
		if level > 0 {
			k = 3
		}
		switch c.Choose("operand", k) {
		case 0:
			return propC(fresh("c"), "p", *n)
		case 1:
			a, b := propC(fresh("c"), "p", *n), propC(fresh("d"), "p", *n)
			return Cn{a.v.Or(b.v).Get(), fBin("or", a.f, b.f), 0}
		}
		return c.existsCond(level-1, n)
	}
	calls := c.Choose("filters", dep(3, 4))
	var cond cy.Condition
	if calls == 0 {
		cond = m.AsCondition()
	} else {
		a := arg()
		w := m.Where(a.v)
		f = a.f
		for i := 1; i < calls; i++ {
			a := arg()
			if c.Bool("or") {
				w = w.Or(a.v)
				f = fBin("or", f, a.f)
			} else {
				w = w.And(a.v)
				f = fBin("and", f, a.f)
			}
		}
		cond = w.AsCondition()
	}
	return atomC(cond, func(w *W) {
		w.kw("EXISTS")
		w.sym("{")
		w.kw("MATCH")
		w.ps(ps)
		w.where(f)
		w.sym("}")
	})
}

func (c *C) existential() {
	n := 0
	e := c.existsCond(dep(1, 2), &n)
	p := propC("z", "z", 1)
	own := mkN("m", []string{"M"}, nil)
	switch c.Choose("place", 8) {
	case 0:
		s, err := cy.Match(own.v).Where(e.v).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) { w.kw("MATCH"); w.n(own); w.where(e.f); w.kw("RETURN"); w.name("m") })
	case 1:
		s, err := cy.Match(own.v).Where(e.v.Not().Get()).And(p.v).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.n(own)
			w.where(fBin("and", fNot(e.f), p.f))
			w.kw("RETURN")
			w.name("m")
		})
	case 2:
		s, err := cy.Match(own.v).Where(p.v.Or(e.v).Get()).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.n(own)
			w.where(fBin("or", p.f, e.f))
			w.kw("RETURN")
			w.name("m")
		})
	case 3:
		s, err := cy.With(cy.ASymbolic("m")).Where(e.v).And(p.v).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) {
			w.kw("WITH")
			w.name("m")
			w.where(fBin("and", e.f, p.f))
			w.kw("RETURN")
			w.name("m")
		})
	case 4:
		s, err := cy.Match(own.v).Where(e.v.Xor(p.v).Get()).Set(cy.AProperty("m", "x"), cy.LiteralOf(1)).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.n(own)
			w.where(fBin("xor", e.f, p.f))
			w.kw("SET")
			w.name("m")
			w.sym(".")
			w.name("x")
			w.sym("=")
			w.num(1)
		})
	case 5:
		s, err := cy.ACall("p").YieldString("m").Where(e.v).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) {
			w.kw("CALL")
			w.name("p")
			w.sym("(", ")")
			w.kw("YIELD")
			w.name("m")
			w.where(e.f)
			w.kw("RETURN")
			w.name("m")
		})
	case 6:
		s, err := cy.Match(own.v).Where(cy.ConditionsNoCondition().And(e.v).Get()).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) { w.kw("MATCH"); w.n(own); w.where(e.f); w.kw("RETURN"); w.name("m") })
	case 7:
		// the match the condition was made from goes on as a statement
		mm := cy.Match(own.v).Where(p.v)
		cond := mm.AsCondition()
		s, err := mm.And(e.v).Returning(cy.ASymbolic("m")).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.n(own)
			w.where(fBin("and", p.f, e.f))
			w.kw("RETURN")
			w.name("m")
		})
		s, err = cy.Match(cy.AnyNodeNamed("o")).Where(cond).Returning(cy.ASymbolic("o")).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.n(mkN("o", nil, nil))
			w.where(&Form{op: "atom", em: func(w *W) {
				w.kw("EXISTS")
				w.sym("{")
				w.kw("MATCH")
				w.n(own)
				w.where(p.f)
				w.sym("}")
			}})
			w.kw("RETURN")
			w.name("o")
		})
	}
}

// query makes one query of a union.
func (c *C) query(kind int, i int) (cy.Statement, Em) {
	nm := string(rune('a' + i%26))
	if i >= 26 {
		nm += string(rune('a' + i/26))
	}
	x := xProp(nm, "p")
	node := mkN(nm, []string{"N"}, nil)
	cond := propC(nm, "q", i)
	var s cy.Statement
	var err error
	var em Em
	switch kind {
	case 0:
		s, err = cy.Match(node.v).Returning(x.v).Build()
		em = func(w *W) { w.kw("MATCH"); w.n(node); w.kw("RETURN"); w.x(x) }
	case 1:
		s, err = cy.CypherReturning(x.v).Build()
		em = func(w *W) { w.kw("RETURN"); w.x(x) }
	case 2:
		s, err = cy.Match(node.v).Where(cond.v).With(x.v).ReturningDistinct(x.v).OrderBy(x.v).Descending().Skip(i + 1).Limit(i + 2).Build()
		em = func(w *W) {
			w.kw("MATCH")
			w.n(node)
			w.where(cond.f)
			w.kw("WITH")
			w.x(x)
			w.kw("RETURN DISTINCT")
			w.x(x)
			w.kw("ORDER BY")
			w.x(x)
			w.kw("DESC SKIP")
			w.num(i + 1)
			w.kw("LIMIT")
			w.num(i + 2)
		}
	case 3:
		s, err = cy.ACall("p", nm).YieldString("x").Build()
		em = func(w *W) {
			w.kw("CALL")
			w.name("p")
			w.sym(".")
			w.name(nm)
			w.sym("(", ")")
			w.kw("YIELD")
			w.name("x")
		}
	case 4:
		in, _ := cy.Match(node.v).Returning(x.v).Build()
		s, err = cy.ACallByStatement(in).Returning(x.v).Build()
		em = func(w *W) {
			w.kw("CALL")
			w.sym("{")
			w.kw("MATCH")
			w.n(node)
			w.kw("RETURN")
			w.x(x)
			w.sym("}")
			w.kw("RETURN")
			w.x(x)
		}
	case 5:
		s, err = cy.Create(node.v).Returning(x.v).Build()
		em = func(w *W) { w.kw("CREATE"); w.n(node); w.kw("RETURN"); w.x(x) }
	case 6:
		s, err = cy.Unwind(x.v).As("u").Returning(cy.ASymbolic("u")).Build()
		em = func(w *W) {
			w.kw("UNWIND")
			w.x(x)
			w.kw("AS")
			w.name("u")
			w.kw("RETURN")
			w.name("u")
		}
	case 7:
		s, err = cy.Merge(node.v).OnCreate().Set(x.v, cy.LiteralOf(i)).Returning(x.v).Build()
		em = func(w *W) {
			w.kw("MERGE")
			w.n(node)
			w.kw("ON CREATE SET")
			w.x(x)
			w.sym("=")
			w.num(i)
			w.kw("RETURN")
			w.x(x)
		}
	}
	if err != nil {
		c.Fail("unexpected error %v", err)
	}
	return s, em
}

func unionOf(all bool, ss ...cy.Statement) cy.Statement {
	if all {
		return cy.UnionAll(ss...)
	}
	return cy.Union(ss...)
}

func unionEm(all bool, ems []Em) Em {
	return func(w *W) {
		for i, e := range ems {
			if i > 0 {
				w.kw("UNION")
				if all {
					w.kw("ALL")
				}
			}
			e(w)
		}
	}
}

func (c *C) unions() {
	all := c.Bool("all")
	n := c.Choose("queries", dep(5, 6))
	var ss []cy.Statement
	var ems []Em
	for i := 0; i < n; i++ {
		k := c.Choose("query", dep(5, 8)+1)
		if k == dep(5, 8) {
			// one of the queries before once more
			if i == 0 {
				return
			}
			j := c.Choose("again", i)
			ss, ems = append(ss, ss[j]), append(ems, ems[j])
			continue
		}
		s, em := c.query(k, i)
		ss = append(ss, s)
		ems = append(ems, em)
	}
	mode := c.Choose("mode", 7)
	if n < 2 {
		if mode > 0 {
			return
		}
		u := unionOf(all, ss...)
		c.wantErr(u, u.GetError(), "union of fewer than two queries")
		return
	}
	switch mode {
	case 0:
		u := unionOf(all, ss...)
		c.check(u, u.GetError(), unionEm(all, ems))
	case 1:
		// one by one
		u := unionOf(all, ss[0], ss[1])
		for _, s := range ss[2:] {
			u = unionOf(all, u, s)
		}
		c.check(u, u.GetError(), unionEm(all, ems))
	case 2:
		// mixing kinds
		u := unionOf(!all, unionOf(all, ss...), ss[0])
		c.wantErr(u, u.GetError(), "mixing UNION and UNION ALL")
	case 3:
		// a union of the other kind behind
		u := unionOf(all, append(append([]cy.Statement{}, ss...), unionOf(!all, ss[0], ss[1]))...)
		c.wantErr(u, u.GetError(), "mixing UNION and UNION ALL")
	case 4:
		// a union of the same kind behind: an error or the joined queries
		u := unionOf(all, append(append([]cy.Statement{}, ss...), unionOf(all, ss[0], ss[1]))...)
		if u.GetError() != nil {
			return
		}
		if _, err := render(u, nil); err != nil {
			return
		}
		c.check(u, nil, unionEm(all, append(append([]Em{}, ems...), ems[0], ems[1])))
	case 5:
		// missing and broken queries at every position
		at := c.Choose("position", n+1)
		bad := []cy.Statement{nil, cy.Union(), brokenStatement()}[c.Choose("bad", 3)]
		l := append(append(append([]cy.Statement{}, ss[:at]...), bad), ss[at:]...)
		u := unionOf(all, l...)
		c.wantErr(u, u.GetError(), "an invalid query in a union")
	case 6:
		// extended twice from the same union: both are complete
		u := unionOf(all, ss...)
		x, xe := c.query(1, 20)
		y, ye := c.query(0, 21)
		a, b := unionOf(all, u, x), unionOf(all, u, y, x)
		c.check(a, a.GetError(), unionEm(all, append(append([]Em{}, ems...), xe)))
		c.check(b, b.GetError(), unionEm(all, append(append([]Em{}, ems...), ye, xe)))
		c.check(u, u.GetError(), unionEm(all, ems))
	}
}

// brokenStatement is a statement value that carries an error, as far as the API gives one.
func brokenStatement() cy.Statement {
	return cy.UnionAll()
}

func (c *C) unionPairs() {
	all := c.Bool("all")
	s1, st1, ok := c.subStatement(1)
	if !ok {
		return
	}
	s2, st2, ok := c.subStatement(dep(0, 1))
	if !ok {
		return
	}
	u := unionOf(all, s1, s2)
	c.check(u, u.GetError(), unionEm(all, []Em{func(w *W) { w.st(st1) }, func(w *W) { w.st(st2) }}))
}

func (c *C) longUnions() {
	n := lengths(dep(24, 80), dep(128, 1024), c) + 1
	all := c.Bool("all")
	how := c.Choose("how", 3)
	var ss []cy.Statement
	var ems []Em
	for i := 0; i < n; i++ {
		s, em := c.query(i%3, i)
		if i%5 == 3 {
			s, em = ss[i/2], ems[i/2] // a query used before
		}
		ss = append(ss, s)
		ems = append(ems, em)
	}
	var u cy.Statement
	switch how {
	case 0:
		u = unionOf(all, ss...)
	case 1:
		u = unionOf(all, ss[0], ss[1])
		for _, s := range ss[2:] {
			u = unionOf(all, u, s)
		}
	default:
		h := n/2 + 1
		u = unionOf(all, ss[:h]...)
		if h < n {
			u = unionOf(all, append([]cy.Statement{u}, ss[h:]...)...)
		}
	}
	c.check(u, u.GetError(), unionEm(all, ems))
}

var _ = reflect.TypeOf
