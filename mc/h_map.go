package main

// C18: maps, properties of nodes and relationships, lists, map projections, subscripts.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// raw values of Go that the API turns into literals.
const nRaws = 9

func (g *condGen) raw(k int) (interface{}, X) {
	switch k {
	case 0:
		g.n++
		n := number(g.n)
		return n, xInt(n)
	case 1:
		s := g.fresh("s")
		return s, xStr(s)
	case 2:
		return true, X{id: nextID(), em: func(w *W) { w.kw("true") }}
	case 3:
		return false, X{id: nextID(), em: func(w *W) { w.kw("false") }}
	case 4:
		return nil, X{id: nextID(), em: func(w *W) { w.kw("NULL") }}
	case 5:
		g.n++
		f := float64(number(g.n)) + 0.5
		return f, X{id: nextID(), em: xFloat(f).em}
	case 6:
		g.n++
		n := number(g.n)
		return []cy.Literal{cy.LiteralOf(n), cy.LiteralOf("x")}, X{id: nextID(), em: func(w *W) {
			w.sym("[")
			w.num(n)
			w.sym(",")
			w.str("x")
			w.sym("]")
		}}
	case 7:
		return "", xStr("")
	case 8:
		g.n++
		n := -number(g.n)
		return n, xInt(n)
	}
	panic("raw")
}

// value is a value of a map: an expression or a raw one.
const nValues = nKinds + nRaws

func (g *condGen) value(k int) (interface{}, X) {
	if k < nKinds {
		x := g.x(k)
		return x.v, x
	}
	return g.raw(k - nKinds)
}

// entries are the arguments of a map with n entries, two of which have chosen kinds.
func (c *C) entries(g *condGen, n int, one bool) (args []interface{}, kvs []KV) {
	a, b, ka, kb := -1, -1, 0, 0
	if n > 0 {
		a, ka = c.Choose("entry", n), c.Choose("value", nValues)
		if !one && a+1 < n {
			b = a + 1 + c.Choose("other entry", n-a-1)
			kb = c.Choose("other value", nValues)
		}
	}
	for i := 0; i < n; i++ {
		k := nKinds * (i % 2)
		if i == a {
			k = ka
		} else if i == b {
			k = kb
		}
		v, x := g.value(k)
		key := g.own("k")
		args = append(args, key, v)
		kvs = append(kvs, KV{key, x})
	}
	return
}

// where the entries of a map can go
const nMapHolders = 14

func (c *C) inHolder(k int, args []interface{}, kvs []KV) {
	ret := func(m cy.Statement, err error, em Em) { c.check(m, err, em) }
	if len(kvs) == 0 && (k == 2 || k == 3 || k == 6 || k == 9) {
		// whether an empty map is left out is not specified
		return
	}
	m := cy.MapOf(args...)
	node := func(v cy.Node, names ...string) {
		st, err := cy.Match(v).Returning(cy.AnAsterisk()).Build()
		ret(st, err, func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			for i, n := range names {
				if i > 0 || n == "L" {
					w.sym(":")
				}
				w.name(n)
			}
			if len(kvs) > 0 {
				w.mapOf(kvs)
			}
			w.sym(")")
			w.kw("RETURN")
			w.sym("*")
		})
	}
	rel := func(v cy.PatternElement, r R) {
		r.props = kvs
		st, err := cy.Create(v).Build()
		ret(st, err, func(w *W) { w.kw("CREATE"); w.r(r) })
	}
	e := mkN("", nil, nil)
	switch k {
	case 0:
		c.checkX(mkX(m, func(w *W) { w.mapOf(kvs) }))
	case 1:
		node(cy.NewNodeWithLabels("L").WithRawProperties(args...), "L")
	case 2:
		node(cy.AnyNodeNamed("n").WithProperties(m), "n")
	case 3:
		node(cy.NewNodeWithProperties("L", m, "M"), "L", "M")
	case 4:
		node(cy.AnyNode().WithRawProperties("old", 1, "older", 2).NamedByString("n").WithRawProperties(args...), "n")
	case 5:
		r := mkR(e, 0, e, "T")
		rel(r.v.WithRawProperties(args...), r)
	case 6:
		r := mkR(e, 1, e).named("r")
		rel(r.v.WithProperties(m), r)
	case 7:
		r := mkR(e, 2, e, "T")
		rel(r.v.WithRawProperties("old", 1).WithRawProperties(args...), r)
	case 8, 9:
		a, b, d := mkN("a", nil, nil), mkN("b", nil, nil), mkN("d", nil, nil)
		r := mkR(a, 0, b, "T")
		ch := r.v.RelationshipFrom(d.v, "U")
		if k == 8 {
			ch = ch.PropertiesRaw(args...)
		} else {
			ch = ch.Properties(m)
		}
		st, err := cy.Merge(ch).Build()
		q := R{l: b, r: d, dir: 1, types: []string{"U"}, props: kvs}
		ret(st, err, func(w *W) { w.kw("MERGE"); w.ch(Ch{rs: []R{r, q}}) })
	case 10:
		p := cy.AProperty("n", "p")
		n := mkN("n", nil, nil)
		st, err := cy.Match(n.v).Set(p, m).Build()
		ret(st, err, func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("SET")
			w.name("n")
			w.sym(".")
			w.name("p")
			w.sym("=")
			w.mapOf(kvs)
		})
	case 11:
		c.checkX(mkX(cy.MapOf("outer", m, "z", 1), func(w *W) {
			w.sym("{")
			w.name("outer")
			w.sym(":")
			w.mapOf(kvs)
			w.sym(",")
			w.name("z")
			w.sym(":")
			w.num(1)
			w.sym("}")
		}))
	case 12:
		// entries of one map added to another one
		es := make([]cy.Expression, 0)
		for i := range kvs {
			v, ok := args[2*i+1].(cy.Expression)
			if !ok {
				v = cy.LiteralOf(args[2*i+1])
			}
			es = append(es, cy.EntryExpressionCreate(kvs[i].k, v))
		}
		c.checkX(mkX(cy.MapOf("first", 1).AddEntries(es), func(w *W) {
			w.mapOf(append([]KV{{"first", xInt(1)}}, kvs...))
		}))
	case 13:
		st, err := cy.ACallSimple("p").WithArgs(m).Build()
		ret(st, err, func(w *W) { w.kw("CALL"); w.name("p"); w.sym("("); w.mapOf(kvs); w.sym(")") })
	}
}

// --- projections ---------------------------------------------------------------------------------------------------

const nProjs = 12

type projArg struct {
	v interface{}
	// a string, else an expression of its own
	s    string
	kind int
	em   Em
	// what it is as value of a key
	val Em
	// can it stand without a key
	alone bool
}

// proj makes an argument of a projection.
func (g *condGen) proj(k int) projArg {
	switch k {
	case 0:
		s := g.fresh("a")
		return projArg{v: s, s: s, kind: k, em: func(w *W) { w.sym("."); w.name(s) }}
	case 1:
		return projArg{v: "*", s: "*", kind: k, em: func(w *W) { w.sym(".", "*") }}
	case 2:
		return projArg{v: cy.AnAsterisk(), kind: k, alone: true, em: func(w *W) { w.sym(".", "*") }}
	case 3:
		x, y := g.fresh("v"), g.fresh("p")
		return projArg{v: cy.AProperty(x, y), kind: k, alone: true, em: func(w *W) { w.sym("."); w.name(y) }, val: xProp(x, y).em}
	case 4:
		s := g.fresh("v")
		return projArg{v: cy.ASymbolic(s), kind: k, alone: true, em: func(w *W) { w.name(s) }, val: func(w *W) { w.name(s) }}
	case 5:
		s := g.fresh("n")
		return projArg{v: cy.NewNodeWithLabels("L").NamedByString(s), kind: k, alone: true, em: func(w *W) { w.name(s) }, val: func(w *W) { w.name(s) }}
	case 6:
		r, s := g.namedRel()
		return projArg{v: r.v, kind: k, alone: true, em: func(w *W) { w.name(s) }, val: func(w *W) { w.name(s) }}
	case 7:
		s, x := g.own("k"), g.x(7)
		return projArg{v: cy.AliasedExpressionCreate(x.v, s), kind: k, alone: true, em: func(w *W) { w.name(s); w.sym(":"); w.x(x) }}
	case 8, 9, 10:
		x := g.x([]int{2, 7, 5}[k-8])
		return projArg{v: x.v, kind: k, val: func(w *W) { w.x(x) }}
	case 11:
		s, y := g.fresh("n"), g.fresh("p")
		return projArg{v: cy.AnyNodeNamed(s).Project(y), kind: k, val: func(w *W) { w.name(s); w.sym("{", "."); w.name(y); w.sym("}") }}
	}
	panic("proj")
}

// projEm reads a list of arguments as the documentation says: a string followed by an expression is a key with its
// value, any other string selects a property.
func projEm(args []projArg) (ems []Em, specified, valid bool) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a.kind <= 1 && i+1 < len(args) && args[i+1].kind > 1 {
			n := args[i+1]
			if n.val == nil || a.kind == 1 {
				return nil, false, false
			}
			ems = append(ems, func(w *W) { w.name(a.s); w.sym(":"); n.val(w) })
			i++
			continue
		}
		if a.em == nil {
			return nil, true, false
		}
		ems = append(ems, a.em)
	}
	return ems, true, true
}

func (c *C) projection(start int, calls [][]projArg) {
	var ems []Em
	valid := true
	flat := make([][]interface{}, len(calls))
	for i, args := range calls {
		e, specified, ok := projEm(args)
		if !specified {
			return
		}
		valid = valid && ok
		ems = append(ems, e...)
		for _, a := range args {
			flat[i] = append(flat[i], a.v)
		}
	}
	var v cy.MapProjection
	var name string
	switch start {
	case 0:
		name = "x"
		v = cy.MapProjectionCreate(cy.ASymbolic("x"), flat[0]...)
	case 1:
		name = "n"
		v = cy.NewNodeWithLabels("L").NamedByString("n").Project(flat[0]...)
	case 2:
		name = "r"
		v = mkR(mkN("", nil, nil), 0, mkN("", nil, nil), "T").named("r").v.Project(flat[0]...)
	}
	for _, f := range flat[1:] {
		v = v.And(f...)
	}
	if !valid {
		st, err := cy.CypherReturning(v).Build()
		c.wantErr(st, err, "an expression without a key in a projection")
		return
	}
	c.checkX(mkX(v, func(w *W) {
		w.name(name)
		w.sym("{")
		for i, e := range ems {
			if i > 0 {
				w.sym(",")
			}
			e(w)
		}
		w.sym("}")
	}))
}

// --- subscripts ------------------------------------------------------------------------------------------------------

// bound chooses a bound: a number or an expression. The number is nil when it is an expression.
func (c *C) bound(g *condGen) (num *int, x X) {
	k := c.Choose("bound", nKinds+4)
	if k < 4 {
		n := []int{0, 1, -1, 12345}[k]
		return &n, xInt(n)
	}
	return nil, g.x(k - 4)
}

// target emits what a subscript or a property belongs to. Operators have to stand in parentheses.
func (w *W) target(t X) {
	if t.operator {
		w.sym("(")
		w.x(t)
		w.sym(")")
		return
	}
	w.x(t)
}

func subEm(t X, from, until *X, dots bool) Em {
	return func(w *W) {
		w.target(t)
		w.sym("[")
		if from != nil {
			w.x(*from)
		}
		if dots {
			w.sym("..")
		}
		if until != nil {
			w.x(*until)
		}
		w.sym("]")
	}
}

func (c *C) subscript(g *condGen, t X) X {
	switch c.Choose("subscript", 4) {
	case 0:
		n, b := c.bound(g)
		if n != nil && c.Bool("number") {
			return mkX(cy.CypherValueAt(t.v, *n), subEm(t, &b, nil, false))
		}
		return mkX(cy.CypherValueAtByExpression(t.v, b.v), subEm(t, &b, nil, false))
	case 1:
		n, b := c.bound(g)
		if n != nil && c.Bool("number") {
			return mkX(cy.CypherSubListFrom(t.v, *n), subEm(t, &b, nil, true))
		}
		return mkX(cy.ASubListFromByExpression(t.v, b.v), subEm(t, &b, nil, true))
	case 2:
		n, b := c.bound(g)
		if n != nil && c.Bool("number") {
			return mkX(cy.ASubListUntil(t.v, *n), subEm(t, nil, &b, true))
		}
		return mkX(cy.CypherSubListUntilByExpression(t.v, b.v), subEm(t, nil, &b, true))
	default:
		n, b := c.bound(g)
		m, e := c.bound(g)
		if n != nil && m != nil && c.Bool("number") {
			return mkX(cy.ASubList(t.v, *n, *m), subEm(t, &b, &e, true))
		}
		return mkX(cy.SubList(t.v, b.v, e.v), subEm(t, &b, &e, true))
	}
}

func mapHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C18", Name: "maps", ShardDepth: 3,
			Rule: "14 places of a map (literal, node, relationship and chain properties also replacing others, SET, argument, nested, added entries) x 0..4 (thorough: 0..6) entries x 29 kinds of values for every pair of entries (pairs for the first 3 places up to 3 entries, thorough: all)",
			Body: func(c *C) {
				var g condGen
				k := c.Choose("place", nMapHolders)
				n := c.Choose("entries", dep(5, 7))
				args, kvs := c.entries(&g, n, !thorough() && (k > 2 || n > 3))
				c.inHolder(k, args, kvs)
			}},
		{Prop: "C18", Name: "long-maps", ShardDepth: 1,
			Rule: "maps, properties, lists, argument lists, projections of every size up to 300 (thorough: 1200)",
			Body: func(c *C) {
				n := c.Choose("size", dep(301, 1201))
				var xs []X
				var kvs []KV
				var args []interface{}
				var ps []projArg
				for i := 0; i < n; i++ {
					x := xSym(fmt.Sprint("v", i))
					xs = append(xs, x)
					kvs = append(kvs, KV{fmt.Sprint("k", i), x})
					args = append(args, fmt.Sprint("k", i), x.v)
					s := fmt.Sprint("p", i)
					ps = append(ps, projArg{v: s, s: s, em: func(w *W) { w.sym("."); w.name(s) }})
				}
				switch k := c.Choose("where", 3+nMapHolders); k {
				case 0:
					c.checkX(mkX(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }))
				case 1:
					c.projection(0, [][]projArg{ps})
				case 2:
					h := n / 2
					c.projection(1, [][]projArg{ps[:h], ps[h:]})
				default:
					c.inHolder(k-3, args, kvs)
				}
			}},
		{Prop: "C18", Name: "map-keys", ShardDepth: 1,
			Rule: "every key out of the names (plain, with spaces, quotes, backticks, keywords, unicode) at every position of maps of 1..3 entries in every place; keys that occur twice at every pair of positions of 2..5 entries are errors",
			Body: func(c *C) {
				if c.Bool("twice") {
					n := 2 + c.Choose("entries", 4)
					i := c.Choose("first", n-1)
					j := i + 1 + c.Choose("second", n-i-1)
					var args []interface{}
					for k := 0; k < n; k++ {
						key := fmt.Sprint("k", k)
						if k == j {
							key = fmt.Sprint("k", i)
						}
						args = append(args, key, k)
					}
					switch c.Choose("where", 6) {
					case 0:
						st, err := cy.CypherReturning(cy.MapOf(args...)).Build()
						c.wantErr(st, err, "a key that occurs twice")
					case 1:
						st, err := cy.Create(cy.AnyNode().WithRawProperties(args...)).Build()
						c.wantErr(st, err, "a key that occurs twice")
					case 2:
						st, err := cy.Create(mkR(mkN("", nil, nil), 0, mkN("", nil, nil)).v.WithRawProperties(args...)).Build()
						c.wantErr(st, err, "a key that occurs twice")
					case 3:
						r := mkR(mkN("", nil, nil), 0, mkN("", nil, nil))
						st, err := cy.Create(r.v.RelationshipTo(cy.AnyNode()).PropertiesRaw(args...)).Build()
						c.wantErr(st, err, "a key that occurs twice")
					case 4:
						st, err := cy.Merge(cy.NewNodeWithProperties("L", cy.MapOf(args...))).Build()
						c.wantErr(st, err, "a key that occurs twice")
					case 5:
						for k := 1; k < len(args); k += 2 {
							args[k] = cy.LiteralOf(args[k])
						}
						st, err := cy.CypherReturning(cy.MapProjectionCreate(cy.ASymbolic("x"), args...)).Build()
						c.wantErr(st, err, "a key that occurs twice")
					}
					return
				}
				names := []string{"a", "a b", "a`b", "`", "MATCH", "null", "é", "1a", "a.b", "a:b", "_", "$x", "*", "a'b", "{", "in", "``", "a\\b"}
				k := c.Choose("place", nMapHolders)
				n := 1 + c.Choose("entries", 3)
				i := c.Choose("entry", n)
				key := names[c.Choose("key", len(names))]
				var args []interface{}
				var kvs []KV
				for j := 0; j < n; j++ {
					s := fmt.Sprint("k", j)
					if j == i {
						s = key
					}
					args = append(args, s, j)
					x := xInt(j)
					kvs = append(kvs, KV{s, x})
				}
				c.inHolder(k, args, kvs)
			}},
		{Prop: "C18", Name: "lists", ShardDepth: 2,
			Rule: "ListOf of 0..4 (thorough: 0..6) elements x 20 kinds for every pair of elements, ListOfRaw and literal lists of 9 kinds of values for every pair",
			Body: func(c *C) {
				n := c.Choose("size", dep(5, 7))
				switch c.Choose("by", 2) {
				case 0:
					s := c.twoSlots(n)
					var xs []X
					for i := 0; i < n; i++ {
						xs = append(xs, s.next())
					}
					c.checkX(mkX(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }))
				case 1:
					n = min(n, dep(4, 5))
					var g condGen
					var raws []interface{}
					var lits []cy.Literal
					var xs []X
					for i := 0; i < n; i++ {
						v, x := g.raw(c.Choose("value", nRaws))
						raws = append(raws, v)
						xs = append(xs, x)
						lits = append(lits, cy.LiteralOf(v))
					}
					em := func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }
					c.checkX(mkX(cy.ListOfRaw(raws...), em))
					c.checkX(mkX(cy.LiteralOf(lits), em))
					c.checkX(mkX(cy.ListLiteralCreate(lits), em))
				}
			}},
		{Prop: "C18", Name: "nested-lists-and-maps", ShardDepth: 2,
			Rule: "every tree of lists and maps of depth up to 3 with 0..2 children each",
			Body: func(c *C) {
				var g condGen
				var build func(d int) X
				build = func(d int) X {
					k := 0
					if d > 0 {
						k = c.Choose("what", 3)
					}
					if k == 0 {
						return g.x(c.Choose("leaf", dep(1, 2)))
					}
					n := c.Choose("children", 3)
					var xs []X
					for i := 0; i < n; i++ {
						xs = append(xs, build(d-1))
					}
					if k == 1 {
						return mkX(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") })
					}
					var kvs []KV
					for _, x := range xs {
						kvs = append(kvs, KV{g.own("k"), x})
					}
					return mkX(cy.MapOf(kvArgs(kvs)...), func(w *W) { w.mapOf(kvs) })
				}
				x := build(3)
				c.checkX(x)
			}},
		{Prop: "C18", Name: "projections", ShardDepth: 3,
			Rule: "projections of a symbol, a node and a relationship x every list of 0..3 (thorough: 0..4) arguments out of 12 kinds (property, star, asterisk, Property, symbol, node, relationship, alias, values, nested projection) x every split of the list over later And calls",
			Body: func(c *C) {
				var g condGen
				start := c.Choose("of", 3)
				n := c.Choose("arguments", dep(4, 5))
				calls := [][]projArg{nil}
				for i := 0; i < n; i++ {
					a := g.proj(c.Choose("argument", nProjs))
					if start == 0 && c.Bool("in And") {
						calls = append(calls, nil)
					}
					calls[len(calls)-1] = append(calls[len(calls)-1], a)
				}
				c.projection(start, calls)
			}},
		{Prop: "C18", Name: "projection-values", ShardDepth: 2,
			Rule: "key with a value of each of 20 kinds and aliases of each kind at every position among 3 arguments, three orders of And",
			Body: func(c *C) {
				var g condGen
				kind := c.Choose("kind", nKinds)
				x := g.x(kind)
				pos := c.Choose("position", 3)
				var args []projArg
				for i := 0; i < 3; i++ {
					if i != pos {
						args = append(args, g.proj([]int{0, 4, 3}[i]))
						continue
					}
					s := g.own("k")
					if c.Bool("alias") {
						args = append(args, projArg{v: cy.AliasedExpressionCreate(x.v, s), kind: 7, em: func(w *W) { w.name(s); w.sym(":"); w.x(x) }})
					} else {
						args = append(args, projArg{v: s, s: s, kind: 0}, projArg{v: x.v, kind: 8, val: func(w *W) { w.x(x) }})
					}
				}
				calls := [][]projArg{args}
				if k := c.Choose("split", 3); k > 0 && args[k-1].s == "" {
					calls = [][]projArg{args[:k], args[k:]}
				}
				c.projection(c.Choose("of", 3), calls)
			}},
		{Prop: "C18", Name: "projection-branches", ShardDepth: 2,
			Rule: "one projection continued in two different ways, with every pair of arguments, before and after it was rendered",
			Body: func(c *C) {
				var g condGen
				base := g.proj(c.Choose("base", 8))
				v := cy.MapProjectionCreate(cy.ASymbolic("x"), base.v)
				n := c.Choose("more", 4)
				ems := []Em{base.em}
				for i := 0; i < n; i++ {
					a := g.proj(0)
					v = v.And(a.v)
					ems = append(ems, a.em)
				}
				a, b := g.proj(c.Choose("one", 8)), g.proj(c.Choose("other", 8))
				mk := func(v cy.MapProjection, more ...Em) X {
					return mkX(v, func(w *W) {
						w.name("x")
						w.sym("{")
						for i, e := range append(append([]Em(nil), ems...), more...) {
							if i > 0 {
								w.sym(",")
							}
							e(w)
						}
						w.sym("}")
					})
				}
				p, q := v.And(a.v), v.And(b.v)
				c.checkX(mk(p, a.em))
				c.checkX(mk(q, b.em))
				c.checkX(mk(v))
				c.checkX(mk(p.And(b.v), a.em, b.em))
				c.checkX(mk(p, a.em))
			}},
		{Prop: "C18", Name: "subscripts", ShardDepth: 3,
			Rule: "targets of 20 kinds x index, from, until, both x bounds out of 4 numbers and 20 kinds of expressions",
			Body: func(c *C) {
				var g condGen
				c.checkX(c.subscript(&g, g.x(c.Choose("target", nKinds))))
			}},
		{Prop: "C18", Name: "subscripts-everywhere", ShardDepth: 2,
			Rule: "the 6 subscripts in all 36 places of an expression, and every nesting of up to 3 (thorough: 4) of them as target and as bound",
			Body: func(c *C) {
				var g condGen
				var mk func(d int) X
				mk = func(d int) X {
					t := g.x(0)
					b, e := g.x(0), g.x(2)
					if d > 0 {
						switch c.Choose("nested", 3) {
						case 0:
							t = mk(d - 1)
						case 1:
							b = mk(d - 1)
						case 2:
							e = mk(d - 1)
						}
					}
					switch c.Choose("subscript", 6) {
					case 0:
						return mkX(cy.CypherValueAtByExpression(t.v, b.v), subEm(t, &b, nil, false))
					case 1:
						return mkX(cy.ASubListFromByExpression(t.v, b.v), subEm(t, &b, nil, true))
					case 2:
						return mkX(cy.CypherSubListUntilByExpression(t.v, e.v), subEm(t, nil, &e, true))
					case 3:
						return mkX(cy.SubList(t.v, b.v, e.v), subEm(t, &b, &e, true))
					case 4:
						return mkX(cy.APropertyByExpression(cy.CypherValueAt(t.v, 3), "q"), func(w *W) {
							x := xInt(3)
							subEm(t, &x, nil, false)(w)
							w.sym(".")
							w.name("q")
						})
					default:
						n := g.fresh("n")
						l := mkX(cy.AnyNodeNamed(n).Labels(), nmEm("labels", n))
						return mkX(cy.SubList(l.v, b.v, e.v), subEm(l, &b, &e, true))
					}
				}
				if c.Bool("nest") {
					x := mk(1 + c.Choose("depth", dep(2, 3)))
					c.checkX(x)
					return
				}
				k := c.Choose("place", nPlaces)
				c.inPlace(k, mk(0))
			}},
		{Prop: "C18", Name: "properties", ShardDepth: 2,
			Rule: "properties of 20 kinds of containers and of nodes, relationships and symbols, nested to depth 3, in 36 places",
			Body: func(c *C) {
				var g condGen
				var x X
				switch k := c.Choose("of", nKinds+3); k {
				case nKinds:
					n, p := g.fresh("n"), g.fresh("p")
					x = mkX(cy.NewNodeWithLabels("L").NamedByString(n).Property(p), xProp(n, p).em)
				case nKinds + 1:
					r, n := g.namedRel()
					p := g.fresh("p")
					x = mkX(r.v.Property(p), xProp(n, p).em)
				case nKinds + 2:
					n, p := g.fresh("n"), g.fresh("p")
					x = mkX(cy.AProperty(n, p), xProp(n, p).em)
				default:
					x = g.x(k)
				}
				n := 1 + c.Choose("depth", 3)
				for i := 0; i < n; i++ {
					p := g.fresh("q")
					y := x
					x = mkX(cy.APropertyByExpression(y.v, p), func(w *W) {
						w.target(y)
						w.sym(".")
						w.name(p)
					})
				}
				c.inPlace(c.Choose("place", nPlaces), x)
			}},
	}...)
}
