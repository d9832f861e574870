package main

// C09: names in every position.

import (
	"strings"
	"unicode/utf8"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type stmt struct {
	s   cy.Statement
	err error
	em  Em
}

func mkS(b interface {
	Build() (cy.Statement, error)
}, em Em) stmt {
	s, err := b.Build()
	return stmt{s, err, em}
}

func retS(v cy.Expression, em Em) stmt {
	return mkS(cy.CypherReturning(v), func(w *W) { w.kw("RETURN"); em(w) })
}

// namePlaces: every position of the API that takes a name; t is a second name for a neighbouring position.
var namePlaces = []func(s, t string) stmt{
	func(s, t string) stmt { // labels
		n := mkN("n", []string{s, t, s}, nil)
		return mkS(cy.Match(n.v).Returning(n.v.InternalId()), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("RETURN")
			w.kw("id")
			w.sym("(")
			w.name("n")
			w.sym(")")
		})
	},
	func(s, t string) stmt {
		n := N{cy.ANode(s), nextID(), "", []string{s}, nil}
		return mkS(cy.Create(n.v), func(w *W) { w.kw("CREATE"); w.n(n) })
	},
	func(s, t string) stmt {
		n := N{cy.NewNodeWithProperties(t, cy.MapOf(s, 1), s).NamedByString("n"), nextID(), "n", []string{t, s}, []KV{{s, xInt(1)}}}
		return mkS(cy.Create(n.v), func(w *W) { w.kw("CREATE"); w.n(n) })
	},
	func(s, t string) stmt { // SET and REMOVE of labels
		n := mkN("n", nil, nil)
		return mkS(cy.Match(n.v).Set(cy.OperationSetLabel(n.v, s, t)).Set(cy.AProperty("n", "q"), cy.LiteralOf(1)), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("SET")
			labelsEm("n", []string{s, t})(w)
			w.kw("SET")
			w.name("n")
			w.sym(".")
			w.name("q")
			w.sym("=")
			w.num(1)
		})
	},
	func(s, t string) stmt {
		n := mkN(t, nil, nil)
		return mkS(cy.Match(n.v).RemoveByNode(n.v, "X", s), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("REMOVE")
			labelsEm(t, []string{"X", s})(w)
		})
	},
	func(s, t string) stmt { // label condition
		n := mkN("n", nil, nil)
		f := &Form{op: "atom", em: labelsEm("n", []string{s, t})}
		return mkS(cy.Match(n.v).Where(n.v.HasLabels(s, t)).ReturningByString("n"), func(w *W) { w.kw("MATCH"); w.n(n); w.where(f); w.kw("RETURN"); w.name("n") })
	},
	func(s, t string) stmt { // relationship types
		r := mkR(mkN("", nil, nil), 0, mkN("", nil, nil), s, t)
		return mkS(cy.Match(r.v).ReturningByString("x"), func(w *W) { w.kw("MATCH"); w.r(r); w.kw("RETURN"); w.name("x") })
	},
	func(s, t string) stmt {
		r := mkR(mkN("", nil, nil), 1, mkN("", nil, nil), "T", s).named(t)
		return mkS(cy.Create(r.v), func(w *W) { w.kw("CREATE"); w.r(r) })
	},
	func(s, t string) stmt {
		a := mkR(mkN("", nil, nil), 2, mkN("", nil, nil), t)
		b := R{l: a.r, r: mkN("", nil, nil), dir: 0, types: []string{s}, lk: 3, max: 3}
		ch := a.v.RelationshipTo(b.r.v, s).Max(3)
		return mkS(cy.Match(ch).ReturningByString("x"), func(w *W) {
			w.kw("MATCH")
			w.ch(Ch{rs: []R{a, b}})
			w.kw("RETURN")
			w.name("x")
		})
	},
	func(s, t string) stmt { // node variables
		n := mkN(s, []string{"L"}, nil)
		m := mkN(t, nil, nil)
		r := mkR(n, 0, m)
		return mkS(cy.Match(n.v, r.v).Where(n.v.Property("p").IsNull().Get()).ReturningByNamed(n.v, m.v), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.sym(",")
			w.r(r)
			w.kw("WHERE")
			w.name(s)
			w.sym(".")
			w.name("p")
			w.kw("IS NULL RETURN")
			w.name(s)
			w.sym(",")
			w.name(t)
		})
	},
	func(s, t string) stmt {
		n := N{cy.AnyNode().Named(cy.ASymbolic(s)), nextID(), s, nil, nil}
		return mkS(cy.Match(n.v).With(n.v.As(t)).Returning(cy.ASymbolic(t)), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("WITH")
			w.name(s)
			w.kw("AS")
			w.name(t)
			w.kw("RETURN")
			w.name(t)
		})
	},
	func(s, t string) stmt {
		n := N{cy.AnyNodeNamed(s), nextID(), s, nil, nil}
		return mkS(cy.Match(n.v).Delete(cy.ASymbolic(s)), func(w *W) { w.kw("MATCH"); w.n(n); w.kw("DELETE"); w.name(s) })
	},
	func(s, t string) stmt { // relationship variables
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), "T")
		r.v, r.name = r.v.Named(s), s
		return mkS(cy.Match(r.v).Returning(r.v.Property(t), cy.FunctionType(r.v)), func(w *W) {
			w.kw("MATCH")
			w.r(r)
			w.kw("RETURN")
			w.name(s)
			w.sym(".")
			w.name(t)
			w.sym(",")
			w.kw("type")
			w.sym("(")
			w.name(s)
			w.sym(")")
		})
	},
	func(s, t string) stmt {
		a := mkR(mkN("a", nil, nil), 1, mkN("b", nil, nil)).named(t)
		b := R{l: a.r, r: mkN("c", nil, nil), dir: 1, name: s}
		ch := a.v.RelationshipFrom(b.r.v).NamedC(s)
		return mkS(cy.Match(ch).ReturningByString(s, t), func(w *W) {
			w.kw("MATCH")
			w.ch(Ch{rs: []R{a, b}})
			w.kw("RETURN")
			w.name(s)
			w.sym(",")
			w.name(t)
		})
	},
	func(s, t string) stmt { // path names
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil))
		p := cy.APath(s).DefinedBy(r.v)
		return mkS(cy.Match(p).Returning(cy.Nodes(p)), func(w *W) {
			w.kw("MATCH")
			w.name(s)
			w.sym("=")
			w.r(r)
			w.kw("RETURN nodes")
			w.sym("(")
			w.name(s)
			w.sym(")")
		})
	},
	func(s, t string) stmt {
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), t)
		p := cy.AShortestPathBySymbolic(cy.ASymbolic(s)).DefinedBy(r.v)
		return mkS(cy.Match(p).ReturningByNamed(p), func(w *W) {
			w.kw("MATCH")
			w.name(s)
			w.sym("=")
			w.kw("shortestPath")
			w.sym("(")
			w.r(r)
			w.sym(")")
			w.kw("RETURN")
			w.name(s)
		})
	},
	func(s, t string) stmt {
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), t)
		p := cy.APathBySymbolic(cy.ASymbolic(s)).DefinedBy(r.v)
		return retS(cy.ListBasedOnNamed(p).ReturningByNamed(p), func(w *W) {
			w.sym("[")
			w.name(s)
			w.sym("=")
			w.r(r)
			w.sym("|")
			w.name(s)
			w.sym("]")
		})
	},
	func(s, t string) stmt { // aliases
		a := mkA(xProp("c", "p"), s)
		return mkS(cy.With(a.v, cy.ASymbolic(t)).Returning(a.v, a.of.v).OrderBy(a.v).Descending(), func(w *W) {
			w.kw("WITH")
			w.a(a)
			w.sym(",")
			w.name(t)
			w.kw("RETURN")
			w.name(s)
			w.sym(",")
			w.name(s)
			w.kw("ORDER BY")
			w.name(s)
			w.kw("DESC")
		})
	},
	func(s, t string) stmt {
		return retS(cy.LiteralOf(1).As(s).Get(), func(w *W) { w.num(1); w.kw("AS"); w.name(s) })
	},
	func(s, t string) stmt {
		x := cy.AProperty("c", t)
		a := cy.AliasedExpressionCreate(x, s)
		return mkS(cy.With(a).Returning(a.AsName(), x.Add(cy.LiteralOf(1)).As("b").Get()), func(w *W) {
			w.kw("WITH")
			w.name("c")
			w.sym(".")
			w.name(t)
			w.kw("AS")
			w.name(s)
			w.kw("RETURN")
			w.name(s)
			w.sym(",")
			w.sym("(")
			w.name(s)
			w.sym("+")
			w.num(1)
			w.sym(")")
			w.kw("AS b")
		})
	},
	func(s, t string) stmt { // properties
		p, q := xProp(t, s), xProp(s, t)
		return mkS(cy.Match(cy.AnyNodeNamed("a")).Set(p.v, q.v).Remove(p.v.(cy.Property)), func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("a")
			w.sym(")")
			w.kw("SET")
			w.x(p)
			w.sym("=")
			w.x(q)
			w.kw("REMOVE")
			w.x(p)
		})
	},
	func(s, t string) stmt {
		n := mkN("n", nil, nil)
		return mkS(cy.Match(n.v).Returning(n.v.Property(s), cy.APropertyByExpression(cy.AProperty("c", t), s)), func(w *W) {
			w.kw("MATCH")
			w.n(n)
			w.kw("RETURN")
			w.name("n")
			w.sym(".")
			w.name(s)
			w.sym(",")
			w.name("c")
			w.sym(".")
			w.name(t)
			w.sym(".")
			w.name(s)
		})
	},
	func(s, t string) stmt { // keys
		return retS(cy.MapOf("k9", 1, s, 2), func(w *W) { w.mapOf([]KV{{"k9", xInt(1)}, {s, xInt(2)}}) })
	},
	func(s, t string) stmt {
		n := mkN("n", []string{t}, []KV{{"k9", xInt(1)}, {s, xInt(2)}})
		return mkS(cy.Merge(n.v), func(w *W) { w.kw("MERGE"); w.n(n) })
	},
	func(s, t string) stmt {
		r := mkR(mkN("", nil, nil), 2, mkN("", nil, nil), t)
		r.v = r.v.WithRawProperties(s, cy.AParam("v"))
		r.props = []KV{{s, xParam("v")}}
		return mkS(cy.Merge(r.v), func(w *W) { w.kw("MERGE"); w.r(r) })
	},
	func(s, t string) stmt {
		a := mkR(mkN("", nil, nil), 2, mkN("", nil, nil), t)
		b := R{l: a.r, r: mkN("", nil, nil), dir: 1, types: []string{"U"}, props: []KV{{s, xInt(1)}}}
		return mkS(cy.Merge(a.v.RelationshipFrom(b.r.v, "U").Properties(cy.MapOf(s, 1))), func(w *W) { w.kw("MERGE"); w.ch(Ch{rs: []R{a, b}}) })
	},
	func(s, t string) stmt { // projections
		return retS(mkN(t, nil, nil).v.Project(s, "b"), func(w *W) {
			w.name(t)
			w.sym("{", ".")
			w.name2(s)
			w.sym(",", ".")
			w.name("b")
			w.sym("}")
		})
	},
	func(s, t string) stmt {
		return retS(mkN("n", nil, nil).v.Project("b", cy.LiteralOf(1)).And(s, cy.ASymbolic(t)), func(w *W) {
			w.name("n")
			w.sym("{")
			w.name("b")
			w.sym(":")
			w.num(1)
			w.sym(",")
			w.name(s)
			w.sym(":")
			w.name(t)
			w.sym("}")
		})
	},
	func(s, t string) stmt {
		return retS(cy.MapProjectionCreate(cy.ASymbolic(s), cy.ASymbolic(t), cy.AProperty("c", s), cy.LiteralOf(1).As(s).Get()), func(w *W) {
			w.name(s)
			w.sym("{")
			w.name(t)
			w.sym(",", ".")
			w.name(s)
			w.sym(",")
			w.name(s)
			w.sym(":")
			w.num(1)
			w.sym("}")
		})
	},
	func(s, t string) stmt { // yielded fields
		return mkS(cy.ACall("a", "b").YieldString(s, t).ReturningByString(s), func(w *W) {
			w.kw("CALL")
			w.name("a")
			w.sym(".")
			w.name("b")
			w.sym("(", ")")
			w.kw("YIELD")
			w.name(s)
			w.sym(",")
			w.name(t)
			w.kw("RETURN")
			w.name(s)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.ACall("a").Yield(cy.AliasedExpressionCreate(cy.ASymbolic(s), t)), func(w *W) {
			w.kw("CALL a")
			w.sym("(", ")")
			w.kw("YIELD")
			w.name(s)
			w.kw("AS")
			w.name(t)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.Match(cy.AnyNodeNamed("n")).Call1("a").YieldString(s).ReturningByString(t), func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("n")
			w.sym(")")
			w.kw("CALL a")
			w.sym("(", ")")
			w.kw("YIELD")
			w.name(s)
			w.kw("RETURN")
			w.name(t)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.ACall("a").YieldSymbolic(cy.ASymbolic(t), cy.ASymbolic(s)), func(w *W) {
			w.kw("CALL a")
			w.sym("(", ")")
			w.kw("YIELD")
			w.name(t)
			w.sym(",")
			w.name(s)
		})
	},
	func(s, t string) stmt { // UNWIND
		return mkS(cy.Unwind(cy.ASymbolic(t)).As(s).ReturningByString(s), func(w *W) {
			w.kw("UNWIND")
			w.name(t)
			w.kw("AS")
			w.name(s)
			w.kw("RETURN")
			w.name(s)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.Match(cy.AnyNode()).UnwindByString(s).As(t).ReturningDistinctByString(t), func(w *W) {
			w.kw("MATCH")
			w.sym("(", ")")
			w.kw("UNWIND")
			w.name(s)
			w.kw("AS")
			w.name(t)
			w.kw("RETURN DISTINCT")
			w.name(t)
		})
	},
	func(s, t string) stmt { // comprehension and predicate variables
		return retS(cy.CypherListWith(cy.ASymbolic(s)).In(cy.ASymbolic(t)).Returning(cy.ASymbolic(s)), func(w *W) {
			w.sym("[")
			w.name(s)
			w.kw("IN")
			w.name(t)
			w.sym("|")
			w.name(s)
			w.sym("]")
		})
	},
	func(s, t string) stmt {
		return retS(cy.PredicateNone(s).In(cy.ASymbolic(t)).Where(cy.AProperty(s, "p").IsNull().Get()), func(w *W) {
			w.kw("none")
			w.sym("(")
			w.name(s)
			w.kw("IN")
			w.name(t)
			w.kw("WHERE")
			w.name(s)
			w.sym(".")
			w.name("p")
			w.kw("IS NULL")
			w.sym(")")
		})
	},
	func(s, t string) stmt {
		return retS(cy.PredicateSingleBySymbolicName(cy.ASymbolic(s)).In(cy.ASymbolic(t)).Where(cy.AProperty(s, "p").IsNull().Get()), func(w *W) {
			w.kw("single")
			w.sym("(")
			w.name(s)
			w.kw("IN")
			w.name(t)
			w.kw("WHERE")
			w.name(s)
			w.sym(".")
			w.name("p")
			w.kw("IS NULL")
			w.sym(")")
		})
	},
	func(s, t string) stmt { // lists of names
		return mkS(cy.WithByString(s, t).DeleteByString(t, s), func(w *W) {
			w.kw("WITH")
			w.name(s)
			w.sym(",")
			w.name(t)
			w.kw("DELETE")
			w.name(t)
			w.sym(",")
			w.name(s)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.Match(cy.AnyNode()).WithDistinctByString(s).DetachDeleteByString(t).ReturningByString(s), func(w *W) {
			w.kw("MATCH")
			w.sym("(", ")")
			w.kw("WITH DISTINCT")
			w.name(s)
			w.kw("DETACH DELETE")
			w.name(t)
			w.kw("RETURN")
			w.name(s)
		})
	},
	func(s, t string) stmt {
		return mkS(cy.CypherReturning(cy.Labels(cy.AnyNodeNamed(s)), cy.ASymbolic(t).Add(cy.ASymbolic(s)).Get()).OrderBy(cy.ASymbolic(s)).Descending().And(cy.ASymbolic(t)).Ascending(), func(w *W) {
			w.kw("RETURN labels")
			w.sym("(")
			w.name(s)
			w.sym(")", ",", "(")
			w.name(t)
			w.sym("+")
			w.name(s)
			w.sym(")")
			w.kw("ORDER BY")
			w.name(s)
			w.kw("DESC")
			w.sym(",")
			w.name(t)
			w.kw("ASC")
		})
	},
	func(s, t string) stmt { // names inside of subqueries
		in := cy.Match(cy.AnyNodeNamed(s)).Where(cy.AProperty(s, t).IsNotNull().Get())
		return mkS(cy.Match(cy.AnyNodeNamed("a")).Where(in.AsCondition()).ReturningByString(s), func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("a")
			w.sym(")")
			w.kw("WHERE EXISTS")
			w.sym("{")
			w.kw("MATCH")
			w.sym("(")
			w.name(s)
			w.sym(")")
			w.kw("WHERE")
			w.name(s)
			w.sym(".")
			w.name(t)
			w.kw("IS NOT NULL")
			w.sym("}")
			w.kw("RETURN")
			w.name(s)
		})
	},
}

// name2 is a property lookup: the name * stands for all properties.
func (w *W) name2(s string) {
	if s == "*" {
		w.sym("*")
		return
	}
	w.name(s)
}

// param checks the two ways to a parameter: by name, in a place.
func (c *C) param(s, t string) {
	n := strings.TrimLeft(s, "$")
	if n == "" {
		return
	}
	c.checks++
	st, err := cy.CypherReturning(cy.ListOf(cy.AParam(s), cy.AParam("v"), cy.ASymbolic(t))).Build()
	text, err := render(st, err)
	if err != nil {
		c.Fail("unexpected error %v for parameter %q", err, s)
		return
	}
	c.State(text)
	// a path to an entry of a parameter stays as it is
	path := true
	for _, p := range strings.Split(n, ".") {
		if p == "" || !plainName(p) && strings.Trim(p, "0123456789") != "" {
			path = false
		}
	}
	if path {
		const head = "RETURN [$"
		if !strings.HasPrefix(text, head+n+",") {
			c.Fail("parameter %q is rendered as %s", s, text)
			return
		}
		text = head + "p" + text[len(head)+len(n):]
		n = "p"
	}
	w := newW()
	w.kw("RETURN")
	w.sym("[", "$")
	w.name(n)
	w.sym(",", "$")
	w.name("v")
	w.sym(",")
	w.name(t)
	w.sym("]")
	if m := w.diff(text); m != "" {
		c.Fail("%s", m)
	}
}

// plainly demands that a plain name is not put in backticks (labels and types may be).
func (c *C) named(k int, s, t string) {
	if k == len(namePlaces) {
		c.param(s, t)
		return
	}
	r := namePlaces[k](s, t)
	c.check(r.s, r.err, r.em)
}

// characters that matter in names
var nameChars = []string{"`", "a", "1", " ", "'", "\\", "$", ".", "é", ")", ":", "*", "_", "\n", "\"", "{", "|", ",", "\x00", "\xff", "\u00a0", "\u0300", "-", "\U0001F600", "٣", "\u2028", "u0060", "//"}

var evilNames = []string{"MATCH", "null", "true", "AS", "n`) DETACH DELETE (m", "a``b", "`", "``", "```", "`a`", "`a", "a`", "a b", "a AS b", "a, b", "a.b", "a:B", "a-b", "a--b",
	"n {x: 1}", "$p", "\\u0060", "\\`", "' OR 1=1 //", "/* */", "a\nRETURN b", "1a", "_", "_1", "日本", "ß", "a ", " a", " ", "\t", "\u2003", "é", "e\u0301", "%s", "%", "x)-[:T]->(y", "*", "0", "1e5", "ǅ", "ª", "‿", "a‿b", "a\u00adb", "Ⅷ", "²", "a²"}

func nameHarnesses() []*Harness {
	return []*Harness{
		{Prop: "C09", Name: "short-names", ShardDepth: 2,
			Rule: "all names of up to 2 (thorough: 3) out of 28 characters in all 43 positions that take a name, on first and later occurrence",
			Body: func(c *C) {
				k := c.Choose("position", len(namePlaces)+1)
				s := nameChars[c.Choose("char", len(nameChars))]
				for i := 1; i < dep(2, 3); i++ {
					j := c.Choose("char", len(nameChars)+1)
					if j == 0 {
						break
					}
					s += nameChars[j-1]
				}
				c.named(k, s, "t")
			}},
		{Prop: "C09", Name: "names-of-backticks", ShardDepth: 2,
			Rule: "all names of up to 5 (thorough: 7) out of backtick, letter, digit and blank in all 43 positions that take a name",
			Body: func(c *C) {
				k := c.Choose("position", len(namePlaces)+1)
				set := []string{"`", "a", "1", " "}
				s := set[c.Choose("char", 4)]
				for i := 1; i < dep(5, 7); i++ {
					j := c.Choose("char", 5)
					if j == 0 {
						break
					}
					s += set[j-1]
				}
				c.named(k, s, "t")
			}},
		{Prop: "C09", Name: "pairs-of-names", ShardDepth: 2,
			Rule: "all ordered pairs of 53 names (keywords, injections, escapes, blanks, letters of many scripts) in all 43 positions that take names",
			Body: func(c *C) {
				k := c.Choose("position", len(namePlaces)+1)
				s := evilNames[c.Choose("name", len(evilNames))]
				t := evilNames[c.Choose("other", len(evilNames))]
				if k == len(namePlaces) {
					c.param(s, t)
					return
				}
				c.named(k, s, t)
			}},
		{Prop: "C09", Name: "every-code-point-in-names", ShardDepth: 2,
			Rule: "every Unicode code point and every single byte as whole name, as first and as later character (quick: in 6 positions, thorough: in all 43)",
			Body: func(c *C) {
				const per = 1024
				ks := []int{0, 7, 9, 17, 22, len(namePlaces)}
				if thorough() {
					ks = nil
					for i := 0; i <= len(namePlaces); i++ {
						ks = append(ks, i)
					}
				}
				k := ks[c.Choose("position", len(ks))]
				b := c.Choose("block", 0x110000/per+1)
				one := func(s string) {
					c.named(k, s, "t")
					c.named(k, s+"x", "t")
					c.named(k, "x"+s, "t")
				}
				if b == 0x110000/per {
					for i := 0; i < 256; i++ {
						one(string([]byte{byte(i)}))
					}
					return
				}
				for r := b * per; r < (b+1)*per; r++ {
					if r >= 0x20000 && r%64 > 1 && !thorough() {
						continue
					}
					if utf8.ValidRune(rune(r)) {
						one(string(rune(r)))
					}
				}
			}},
		{Prop: "C09", Name: "long-names", ShardDepth: 2,
			Rule: "names of lengths 1..130 and around the powers of two up to 2^14 with a backtick, blank or letter first, in the middle, last and everywhere, in all 43 positions",
			Body: func(c *C) {
				k := c.Choose("position", len(namePlaces)+1)
				var ls []int
				for i := 1; i <= 130; i++ {
					ls = append(ls, i)
				}
				for p := uint(8); p <= 14; p++ {
					ls = append(ls, 1<<p-1, 1<<p, 1<<p+1)
				}
				n := ls[c.Choose("length", len(ls))]
				ch := []string{"`", " ", "z"}[c.Choose("char", 3)]
				x := strings.Repeat("x", n)
				for _, s := range []string{ch + x, x + ch, x[:n/2] + ch + x[n/2:], strings.Repeat(ch, n)} {
					c.named(k, s, "t")
				}
			}},
	}
}
