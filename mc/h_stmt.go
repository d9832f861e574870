package main

import (
	"reflect"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

func anyMethod(string, reflect.Type) bool { return true }

func oneOf(names ...string) func(string, reflect.Type) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(s string, _ reflect.Type) bool { return m[s] }
}

// one method per kind of clause
var coreMethods = []string{"Match", "OptionalMatch", "Where", "With", "Unwind", "As", "Call", "Call1", "YieldString", "Create", "Merge",
	"OnCreate", "OnMatch", "Set", "Remove", "Delete", "Returning"}

// stepTo makes the named call if the stage has it.
func (c *C) stepTo(b *B, name string, v int) (*B, bool) {
	for _, s := range b.steps(profile{}) {
		if s.method == name && s.variant == v {
			c.Log(".%s/%d", name, v)
			return b.do(s), true
		}
	}
	return b, false
}

// anyStep makes one arbitrary call.
func (c *C) anyStep(b *B, p profile) *B {
	ss := b.steps(p)
	if len(ss) == 0 || b.done {
		return b
	}
	k := c.Choose("call", len(ss))
	c.Log(".%s/%d", ss[k].method, ss[k].variant)
	return b.do(ss[k])
}

// settle finishes half-made calls (UNWIND without AS, ...) until a stage with clauses is reached.
func settle(b *B) *B {
	for i := 0; i < 3 && !b.done; i++ {
		switch {
		case b.st.on != "":
			b = b.do(step{"Set", 0})
		case b.v.Type().NumMethod() == 1 && b.has("As"):
			b = b.do(step{"As", 0})
		case b.has("YieldString"):
			b = b.do(step{"YieldString", 0})
		}
	}
	return b
}

var mutators = []string{"Match", "OptionalMatch", "MatchDefault", "Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove",
	"Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed", "OnCreate", "OnMatch",
	"With", "WithByString", "WithByNamed", "WithDistinct", "WithDistinctByString", "WithDistinctByNamed",
	"Unwind", "UnwindByString", "Unwinds", "As", "Call", "Call1", "YieldString", "Yield", "YieldSymbolic", "WithArgs", "Where", "And", "Or",
	"OrderBySortItem", "OrderByExpression", "OrderBy", "Ascending", "Descending", "And1", "Skip", "Limit"}

func statementHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C04", Name: "builder-histories", ShardDepth: 3,
			Rule: "every history of up to 3 (thorough: 4) calls over all methods of the stage interfaces, all argument shapes, from all 16 ways to start a statement; the finished statement against the requested clauses",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				b = c.walk(b, dep(3, 4), profile{methods: anyMethod})
				c.checkB(b)
			}},
		{Prop: "C04", Name: "clause-sequences", ShardDepth: 3,
			Rule: "every sequence of up to 5 (thorough: 6) calls with one method per kind of clause, from MATCH, CREATE, MERGE, CALL, WITH and UNWIND",
			Body: func(c *C) {
				b := root([]int{1, 4, 8, 12, 5, 9}[c.Choose("root", 6)])
				b = c.walk(b, dep(5, 6), profile{methods: oneOf(coreMethods...), maxVariants: 1})
				c.checkB(b)
			}},
		{Prop: "C04", Name: "repeated-clauses", ShardDepth: 2,
			Rule: "every pair of methods called alternately 1..12 (thorough: 40) times from every start: lengths at which shared or regrown lists would show",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				m1 := mutators[c.Choose("first", len(mutators))]
				m2 := mutators[c.Choose("second", len(mutators))]
				n := c.Choose("times", dep(6, 20)) + 1
				for i := 0; i < n; i++ {
					var ok1, ok2 bool
					b, ok1 = c.stepTo(b, m1, 0)
					b, ok2 = c.stepTo(b, m2, 0)
					if !ok1 && !ok2 {
						if i == 0 {
							b = settle(b)
							continue
						}
						break
					}
				}
				c.checkB(b)
			}},
		{Prop: "C04", Name: "long-argument-lists", ShardDepth: 2,
			Rule: "every method with lists of every number of arguments up to 40 (thorough: 150) and around powers of two up to 128 (thorough: 1024) at every start, followed by one call of each kind of clause or none",
			Body: func(c *C) {
				b := settle(root(c.Choose("root", nRoots)))
				if b.done {
					return
				}
				b.big = lengths(dep(40, 150), dep(128, 1024), c)
				b = c.anyStep(b, profile{methods: anyMethod, maxVariants: 1})
				b.big = 0
				if c.Bool("more") {
					b = c.anyStep(b, profile{methods: oneOf(coreMethods...), maxVariants: 1})
				}
				c.checkB(b)
			}},
		{Prop: "C04", Name: "long-clause-sequences", ShardDepth: 3,
			Rule: "two methods out of one per kind of clause called in turn (the first one, two or three times), from MATCH, CREATE, MERGE, CALL, WITH and UNWIND, for every number of calls up to 20 (thorough: 100) and around powers of two up to 128 (thorough: 1024)",
			Body: func(c *C) {
				b := root([]int{1, 4, 8, 12, 5, 9}[c.Choose("root", 6)])
				m1 := coreMethods[c.Choose("first", len(coreMethods))]
				m2 := coreMethods[c.Choose("second", len(coreMethods))]
				turn := c.Choose("turn", 3) + 1
				n := lengths(dep(20, 100), dep(128, 1024), c)
				missed := 0
				for i := 0; i < n && missed < 4; i++ {
					m := m1
					if i%(turn+1) == turn {
						m = m2
					}
					var ok bool
					b, ok = c.stepTo(b, m, 0)
					if !ok {
						missed++
						b = settle(b)
					} else {
						missed = 0
					}
				}
				c.checkB(b)
			}},
		{Prop: "C04", Name: "argument-counts", ShardDepth: 2,
			Rule: "every method with lists of 1..9 (thorough: 33) arguments after every history of one call from every start, followed by another call",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				b = c.walk(b, 1, profile{methods: anyMethod, maxVariants: 1})
				if b.done {
					return
				}
				b.big = c.Choose("arguments", dep(9, 33)) + 1
				b = c.anyStep(b, profile{methods: anyMethod, maxVariants: 1})
				if b.done {
					return
				}
				b = settle(b)
				b.big = 0
				b = c.anyStep(b, profile{methods: oneOf("Match", "With", "Set", "Delete", "Create", "Merge", "Unwind", "Call1", "Where", "And", "Skip", "Build"), maxVariants: 1})
				c.checkB(b)
			}},

		{Prop: "C14", Name: "projections-everywhere", ShardDepth: 3,
			Rule: "every RETURN and WITH method with 1..5 (thorough: 17) items on every stage reached by one (thorough: two) arbitrary calls from every start, with every modifier call after it",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				b = settle(c.walk(b, dep(1, 2), profile{methods: anyMethod, maxVariants: 1}))
				if b.done {
					return
				}
				isProj := func(s string, _ reflect.Type) bool {
					return strings.HasPrefix(s, "Returning") || strings.HasPrefix(s, "With") && s != "WithArgs"
				}
				b.big = []int{1, 2, 3, 5, 9, 17}[c.Choose("items", dep(4, 6))]
				b = c.anyStep(b, profile{methods: isProj, maxVariants: 1})
				b.big = 0
				b = c.walk(b, 1, profile{methods: projMethods})
				c.checkB(b)
			}},
		{Prop: "C14", Name: "projection-modifiers", ShardDepth: 3,
			Rule: "every history of up to 5 (thorough: 7) of ORDER BY, direction, SKIP, LIMIT, WHERE, and/or calls after RETURN and WITH in every flavour on eight stages",
			Body: func(c *C) {
				b := root([]int{0, 4, 8, 5, 9, 12, 14, 11}[c.Choose("root", 8)])
				b = settle(b)
				if !b.has("Build") || b.st.last().kind != "RETURN" {
					isProj := func(s string, _ reflect.Type) bool {
						return strings.HasPrefix(s, "Returning") || strings.HasPrefix(s, "With") && s != "WithArgs"
					}
					b = c.anyStep(b, profile{methods: isProj, maxVariants: 1})
				}
				b = c.walk(b, dep(5, 7), profile{methods: func(n string, t reflect.Type) bool {
					return modMethods(n, t)
				}, only: map[string][]int{"Where": {0}}})
				c.checkB(b)
			}},
		{Prop: "C14", Name: "long-projections", ShardDepth: 2,
			Rule: "every RETURN and WITH method at every start with every number of items up to 40 (thorough: 150) and around powers of two up to 128 (thorough: 1024), with one modifier call after it or none",
			Body: func(c *C) {
				b := settle(root(c.Choose("root", nRoots)))
				if b.done {
					return
				}
				b.big = lengths(dep(40, 150), dep(128, 1024), c)
				b = c.anyStep(b, profile{methods: func(s string, _ reflect.Type) bool {
					return strings.HasPrefix(s, "Returning") || strings.HasPrefix(s, "With") && s != "WithArgs"
				}, maxVariants: 1})
				b.big = 0
				if c.Bool("modifier") {
					b = c.anyStep(b, profile{methods: modMethods, maxVariants: 1})
				}
				c.checkB(b)
			}},
		{Prop: "C14", Name: "long-orderings", ShardDepth: 3,
			Rule: "RETURN and WITH, then every pair of ordering and modifier calls in turn (the first one, two or three times), every number of calls up to 30 (thorough: 100) and around powers of two up to 128 (thorough: 1024), or ORDER BY with that many sort items",
			Body: func(c *C) {
				b := root([]int{0, 5, 8}[c.Choose("root", 3)])
				if m := []string{"Returning", "With", "ReturningDistinct"}[c.Choose("projection", 3)]; b.has(m) {
					b, _ = c.stepTo(b, m, 0)
				} else {
					return
				}
				n := lengths(dep(30, 100), dep(128, 1024), c)
				if c.Bool("at once") {
					b.big = n
					b = c.anyStep(b, profile{methods: oneOf("OrderBySortItem", "OrderBy", "OrderByExpression"), maxVariants: 1})
					b.big = 0
					b = c.anyStep(b, profile{methods: modMethods, maxVariants: 1})
					c.checkB(b)
					return
				}
				ms := []string{"OrderBySortItem", "OrderBy", "OrderByExpression", "Ascending", "Descending", "And", "And1", "Skip", "Limit"}
				m1, m2, t := ms[c.Choose("first", len(ms))], ms[c.Choose("second", len(ms))], c.Choose("times", 3)+1
				if m, ok := c.stepTo(b, "OrderBy", 0); ok {
					b = m
				} else {
					b, _ = c.stepTo(b, "OrderByExpression", 0)
				}
				for i := 0; i < n; i++ {
					m := m1
					if i%(t+1) == t {
						m = m2
					}
					b, _ = c.stepTo(b, m, 0)
				}
				c.checkB(b)
			}},
		{Prop: "C14", Name: "several-projections", ShardDepth: 3,
			Rule: "every history of up to 4 (thorough: 5) projections and modifiers, one argument shape each, from MATCH and WITH: nothing of one projection leaks into the next",
			Body: func(c *C) {
				b := root([]int{0, 5}[c.Choose("root", 2)])
				b = c.walk(b, dep(5, 6), profile{methods: func(n string, t reflect.Type) bool {
					switch n {
					case "With", "WithDistinct", "Returning", "ReturningDistinct", "Match", "Unwind", "As":
						return true
					}
					return modMethods(n, t) && n != "AndPattern" && n != "OrPattern" && n != "WherePattern"
				}, maxVariants: 1})
				c.checkB(b)
			}},
		{Prop: "C14", Name: "skip-limit-values", ShardDepth: 1,
			Rule: "SKIP and LIMIT with numbers around every power of two and of ten, for RETURN and WITH, with and without ORDER BY",
			Body: func(c *C) {
				var ns []int
				for p := uint(0); p < 63; p++ {
					ns = append(ns, 1<<p, 1<<p+1, 1<<p-1)
				}
				for x := 10; x > 0 && x < 1e18; x *= 10 {
					ns = append(ns, x, x-1, x+1)
				}
				n := ns[c.Choose("number", len(ns))]
				lim := c.Bool("limit")
				if lim && n == 0 {
					return // see C05
				}
				ord := c.Bool("ordered")
				x := xSym("a")
				w := func(w *W) {
					w.x(x)
					if ord {
						w.kw("ORDER BY")
						w.x(x)
					}
					w.kw(map[bool]string{true: "LIMIT", false: "SKIP"}[lim])
					w.num(n)
				}
				if c.Bool("with") {
					b := cy.With(x.v)
					var o cy.OngoingReadingAndWith
					switch {
					case lim && ord:
						o = b.OrderByExpression(x.v).Limit(n)
					case lim:
						o = b.Limit(n)
					case ord:
						o = b.OrderByExpression(x.v).Skip(n)
					default:
						o = b.Skip(n)
					}
					s, err := o.Returning(x.v).Build()
					c.check(s, err, func(v *W) { v.kw("WITH"); w(v); v.kw("RETURN"); v.x(x) })
				} else {
					b := cy.CypherReturning(x.v)
					var o cy.BuildableStatement
					switch {
					case lim && ord:
						o = b.OrderBy(x.v).Limit(n)
					case lim:
						o = b.Limit(n)
					case ord:
						o = b.OrderBy(x.v).Skip(n)
					default:
						o = b.Skip(n)
					}
					s, err := o.Build()
					c.check(s, err, func(v *W) { v.kw("RETURN"); w(v) })
				}
			}},

		{Prop: "C16", Name: "call-histories", ShardDepth: 3,
			Rule: "standalone and in-query calls: names of 1..4 parts, 0..4 arguments, every yield method with 0..4 items, every filter, then every history of up to 2 (thorough: 3) calls",
			Body: func(c *C) { c.callHistory() }},
		{Prop: "C16", Name: "call-in-query-histories", ShardDepth: 3,
			Rule: "every history of up to 5 (thorough: 6) of call, argument, yield, filter and clause methods",
			Body: func(c *C) {
				b := root([]int{0, 12, 5, 14}[c.Choose("root", 4)])
				b = c.walk(b, dep(5, 6), profile{methods: oneOf("Call1", "WithArgs", "Yield", "YieldString", "YieldSymbolic", "Where", "And", "Or", "WherePattern", "Match", "With", "Call", "Returning", "Unwind", "As", "Create"), maxVariants: 1})
				c.checkB(b)
			}},
		{Prop: "C16", Name: "long-calls", ShardDepth: 2,
			Rule: "names of up to 40 (thorough: 150) parts, as many arguments and yielded items, and numbers around powers of two up to 256 (thorough: 2048) of each; standalone, in a query, as a function; the other two few",
			Body: func(c *C) { c.longCall() }},
		{Prop: "C16", Name: "call-as-function", ShardDepth: 2,
			Rule: "names of 1..4 parts, 0..5 arguments, used as RETURN item, operand, argument and condition operand",
			Body: func(c *C) { c.callAsFunction() }},

		{Prop: "C21", Name: "set-operand-lists", ShardDepth: 2,
			Rule: "every SET operand list of up to 4 (thorough: 5) items out of six kinds of pairs and operations, on a SET clause after every kind of stage and on merge actions",
			Body: func(c *C) { c.setOperands() }},
		{Prop: "C21", Name: "merge-actions", ShardDepth: 3,
			Rule: "every history of up to 6 (thorough: 8) ON CREATE, ON MATCH, SET and MERGE calls",
			Body: func(c *C) {
				b := root([]int{8, 0, 4}[c.Choose("root", 3)])
				b = c.walk(b, dep(7, 9), profile{methods: oneOf("OnCreate", "OnMatch", "Set", "SetWithNamed", "Merge", "Create"), only: map[string][]int{"Merge": {1}, "Create": {0}, "Set": {0, 2}}})
				c.checkB(b)
			}},
		{Prop: "C21", Name: "merge-action-sequences", ShardDepth: 4,
			Rule: "every sequence of up to 9 (thorough: 13) ON CREATE and ON MATCH actions on one MERGE, with and without a MERGE with an action before it, followed by nothing, SET or RETURN",
			Body: func(c *C) {
				b := root(8)
				if c.Bool("second merge") {
					b, _ = c.stepTo(b, "OnMatch", 0)
					b, _ = c.stepTo(b, "Set", 0)
					b, _ = c.stepTo(b, "Merge", 0)
				}
				for i, n := 0, c.Choose("actions", dep(9, 13))+1; i < n; i++ {
					b, _ = c.stepTo(b, []string{"OnCreate", "OnMatch"}[c.Choose("action", 2)], 0)
					b, _ = c.stepTo(b, "Set", 0)
				}
				if k := c.Choose("then", 3); k > 0 {
					b, _ = c.stepTo(b, []string{"Set", "Returning"}[k-1], 0)
				}
				c.checkB(b)
			}},
		{Prop: "C21", Name: "updating-histories", ShardDepth: 3,
			Rule: "every history of up to 4 (thorough: 5) updating calls in every flavour from MATCH, CREATE, MERGE, WITH and UNWIND",
			Body: func(c *C) {
				b := root([]int{0, 4, 8, 5, 9}[c.Choose("root", 5)])
				b = settle(b)
				b = c.walk(b, dep(3, 4), profile{methods: oneOf("Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed", "OnCreate", "OnMatch", "With", "Returning")})
				c.checkB(b)
			}},
		{Prop: "C21", Name: "operand-counts", ShardDepth: 2,
			Rule: "every updating method with every number of operands up to 24 (thorough: 100) and around powers of two up to 128 (thorough: 1024) after each kind of stage",
			Body: func(c *C) {
				b := settle(root(c.Choose("root", nRoots)))
				if c.Bool("after another update") {
					b = c.anyStep(b, profile{methods: oneOf("Set", "Merge", "Create", "Remove", "Delete", "With", "Where"), maxVariants: 1})
				}
				b.big = lengths(dep(24, 100), dep(128, 1024), c)
				b = c.anyStep(b, profile{methods: oneOf("Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed"), maxVariants: 1})
				c.checkB(b)
			}},

		{Prop: "C24", Name: "filter-histories", ShardDepth: 3,
			Rule: "every history of up to 5 (thorough: 6) of filter calls (where with condition, empty condition, nil, container, pattern; and/or with condition and pattern) and clauses from MATCH, OPTIONAL MATCH, WITH and CALL",
			Body: func(c *C) {
				b := root([]int{0, 2, 5, 12, 9}[c.Choose("root", 5)])
				b = c.walk(b, dep(4, 5), profile{methods: oneOf("Where", "WhereConditionContainer", "WherePattern", "And", "AndPattern", "Or", "OrPattern", "Match", "OptionalMatch", "With", "Call1", "YieldString", "As", "Set", "Unwind", "Call"),
					only: map[string][]int{"Match": {0}, "OptionalMatch": {0}, "With": {0}, "Set": {0}, "Call": {0}}})
				c.checkB(b)
			}},
		{Prop: "C24", Name: "filter-chains", ShardDepth: 3,
			Rule: "every sequence of up to 7 (thorough: 9) filter calls on one MATCH, WITH, CALL, followed by a second filtered clause",
			Body: func(c *C) {
				b := settle(root([]int{0, 2, 5, 12}[c.Choose("root", 4)]))
				b = c.walk(b, dep(6, 8), profile{methods: oneOf("Where", "And", "Or", "AndPattern"), maxVariants: 2})
				b, _ = c.stepTo(b, "With", 0)
				b, _ = c.stepTo(b, "Where", 0)
				c.checkB(b)
			}},
		{Prop: "C24", Name: "long-filters", ShardDepth: 3,
			Rule: "Where, then two of and/or calls with conditions and patterns alternately, then a clause with a filter of its own, all of it once or three times; every number of calls up to 30 (thorough: 100) and around powers of two up to 128 (thorough: 1024), on MATCH, WITH, OPTIONAL MATCH, CALL",
			Body: func(c *C) {
				b := settle(root([]int{0, 2, 5, 12}[c.Choose("root", 4)]))
				calls := []string{"And", "Or", "AndPattern", "OrPattern"}
				m1, m2 := calls[c.Choose("call", 4)], calls[c.Choose("other call", 4)]
				rounds := 1 + 2*c.Choose("rounds", 2)
				n := lengths(dep(30, 100), dep(128, 1024), c)
				for r := 0; r < rounds; r++ {
					if !b.has("Where") {
						return
					}
					b, _ = c.stepTo(b, "Where", 0)
					for i := 0; i < n; i++ {
						m := m1
						if i%2 == 1 {
							m = m2
						}
						if !b.has(m) {
							return
						}
						b, _ = c.stepTo(b, m, 0)
					}
					b, _ = c.stepTo(b, "With", 0)
					if r+1 < rounds {
						b, _ = c.stepTo(b, "Match", 0)
					}
				}
				b, _ = c.stepTo(b, "Where", 0)
				c.checkB(b)
			}},
		{Prop: "C24", Name: "many-filtered-clauses", ShardDepth: 3,
			Rule: "two or three kinds of clauses in turn (MATCH, WITH, OPTIONAL MATCH, in-query CALL), each with or without a filter, for every number of clauses up to 30 (thorough: 100) and around powers of two up to 64 (thorough: 512)",
			Body: func(c *C) {
				b := settle(root([]int{0, 2}[c.Choose("root", 2)]))
				cls := []string{"Match", "With", "OptionalMatch"}
				var ms [3]string
				var fs [3]bool
				for i := range ms {
					ms[i], fs[i] = cls[c.Choose("clause", 3)], c.Bool("filter")
				}
				n := lengths(dep(30, 100), dep(64, 512), c)
				for i := 0; i < n; i++ {
					if !b.has(ms[i%3]) {
						return
					}
					b, _ = c.stepTo(b, ms[i%3], 0)
					if fs[i%3] {
						b, _ = c.stepTo(b, "Where", 0)
					}
				}
				c.checkB(b)
			}},
		{Prop: "C24", Name: "filter-everywhere", ShardDepth: 3,
			Rule: "every filter call on every stage reached by two (thorough: three) arbitrary calls, then every further call: the filter stays on its clause",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				b = settle(c.walk(b, dep(2, 3), profile{methods: anyMethod, maxVariants: 1}))
				if b.done || !b.has("Where") && !b.has("And") {
					return
				}
				b = c.anyStep(b, profile{methods: oneOf("Where", "WhereConditionContainer", "WherePattern", "And", "AndPattern", "Or", "OrPattern")})
				b = c.walk(b, 1, profile{methods: anyMethod, maxVariants: 1})
				c.checkB(b)
			}},
		{Prop: "C24", Name: "filter-replaced", ShardDepth: 2,
			Rule: "1..3 Where calls in a row on the builders behind the stages, conditions and empty ones, with and/or between and after them",
			Body: func(c *C) { c.filterReplaced() }},

		{Prop: "C24", Name: "filter-nowhere", ShardDepth: 3,
			Rule: "every filter call directly after CALL {subquery} on every stage reached by up to one (thorough: two) arbitrary calls, then every further call: an error when something is filtered, no trace when nothing is",
			Body: func(c *C) {
				b := root(c.Choose("root", nRoots))
				b = settle(c.walk(b, dep(1, 2), profile{methods: anyMethod, maxVariants: 1}))
				if b.done || !b.has("Call") {
					return
				}
				b, _ = c.stepTo(b, "Call", 0)
				f := profile{methods: filterMethods, nowhere: true}
				if len(b.steps(f)) == 0 {
					return
				}
				w := b.st.last().where
				b = c.anyStep(b, f)
				if b.st.last().where.empty() {
					b.st.last().where = w
					b = c.walk(b, 1, profile{methods: anyMethod, maxVariants: 1})
					c.checkB(b)
					return
				}
				b = settle(c.walk(b, 1, profile{methods: anyMethod, maxVariants: 1}))
				b = b.finish()
				c.wantErr(b.stmt, b.err, "a filter where no clause takes one")
			}},

		{Prop: "C22", Name: "subquery-of-histories", ShardDepth: 3,
			Rule: "every statement made by up to 2 (thorough: 3) calls from every start, embedded by Call into each of 8 stages, followed by every clause",
			Body: func(c *C) { c.subquery() }},
		{Prop: "C22", Name: "nested-subqueries", ShardDepth: 3,
			Rule: "every nesting of up to 4 (thorough: 6) levels, each with one of five surroundings, names declared outside or not",
			Body: func(c *C) { c.nestedSubqueries() }},
		{Prop: "C22", Name: "existential", ShardDepth: 3,
			Rule: "existential subqueries of every match with every history of up to 3 (thorough: 4) filter calls, alone and combined, in every place of a condition, nested",
			Body: func(c *C) { c.existential() }},

		{Prop: "C15", Name: "unions", ShardDepth: 3,
			Rule: "unions and union alls of up to 4 (thorough: 5) queries out of eight kinds, flat and nested at every position, with the errors that mixing has to give",
			Body: func(c *C) { c.unions() }},
		{Prop: "C15", Name: "union-of-histories", ShardDepth: 3,
			Rule: "every pair of statements made by one call from every start",
			Body: func(c *C) { c.unionPairs() }},
		{Prop: "C15", Name: "long-unions", ShardDepth: 1,
			Rule: "2..25 (thorough: 81) queries and about as many as powers of two up to 128 (thorough: 1024), made at once, one by one, and in two halves; both kinds",
			Body: func(c *C) { c.longUnions() }},
	}...)
}

func projMethods(n string, t reflect.Type) bool {
	return modMethods(n, t) || strings.HasPrefix(n, "Returning") || strings.HasPrefix(n, "With") && n != "WithArgs"
}

func modMethods(n string, t reflect.Type) bool {
	switch n {
	case "OrderBy", "OrderByExpression", "OrderBySortItem", "Ascending", "Descending", "And", "And1", "Skip", "Limit", "Where", "Or", "AndPattern", "OrPattern", "WherePattern":
		return true
	}
	return false
}

func (b *B) setBig(n int) *B { nb := *b; nb.big = n; return &nb }

func (c *C) callHistory() {
	parts := c.Choose("parts", 4) + 1
	var ss []string
	for i := 0; i < parts; i++ {
		ss = append(ss, string(rune('k'+i))+"x")
	}
	b := &B{st: &St{}}
	switch c.Choose("where", 4) {
	case 0:
		if parts == 1 && c.Bool("simple") {
			b.v = iface(cy.ACallSimple(ss[0]))
		} else {
			b.v = iface(cy.ACall(ss...))
		}
	case 1:
		b = root(0)
		b.v = iface(b.v.Interface().(cy.OngoingReadingWithoutWhere).Call1(ss...))
	case 2:
		b = root(5)
		b.v = iface(b.v.Interface().(cy.OrderableOngoingReadingAndWithWithoutWhere).Call1(ss...))
	case 3:
		b = root(0)
		b.v = iface(b.v.Interface().(cy.OngoingReadingWithoutWhere).Where(cy.ConditionsIsTrue()).Call1(ss...))
		b.st = b.st.clone()
		b.st.last().where = &Form{op: "true"}
	}
	b.st = b.st.add(Clause{kind: "CALL", proc: ss})
	if n := c.Choose("arguments", 6); n > 0 {
		var xs []X
		for i := 1; i < n; i++ {
			switch i % 3 {
			case 0:
				xs = append(xs, xParam(b.fresh("p")))
			case 1:
				xs = append(xs, b.prop())
			default:
				xs = append(xs, xInt(i))
			}
		}
		out := b.v.MethodByName("WithArgs").Call(exprVals(xs))
		b.v = out[0]
		b.st = b.st.clone()
		b.st.last().items = xEms(xs)
	}
	if y := c.Choose("yield", 4); y > 0 {
		n := c.Choose("yields", 4) + 1
		b.st = b.st.clone()
		l := b.st.last()
		var args []reflect.Value
		name := []string{"Yield", "YieldString", "YieldSymbolic"}[y-1]
		for i := 0; i < n; i++ {
			s := b.fresh("y")
			switch y {
			case 1:
				a := mkA(xSym(s), b.fresh("z"))
				args = append(args, rv(a.v))
				l.yields = append(l.yields, func(w *W) { w.a(a) })
			case 2:
				args = append(args, rv(s))
				l.yields = append(l.yields, func(w *W) { w.name(s) })
			default:
				args = append(args, rv(cy.ASymbolic(s)))
				l.yields = append(l.yields, func(w *W) { w.name(s) })
			}
		}
		b.v = b.v.MethodByName(name).Call(args)[0]
	}
	b = c.walk(b, dep(2, 3), profile{methods: func(s string, t reflect.Type) bool { return s != "WithArgs" && !strings.HasPrefix(s, "Yield") }, maxVariants: 1})
	c.checkB(b)
}

func (c *C) longCall() {
	n := lengths(dep(40, 150), dep(256, 2048), c)
	what := c.Choose("what", 3)
	size := func(k int) int {
		if k == what {
			return n
		}
		return c.Choose("few", 2) + 1
	}
	var ss []string
	for i, k := 0, size(0); i < k; i++ {
		ss = append(ss, "k"+word(i))
	}
	var xs []X
	for i, k := 0, size(1); i < k; i++ {
		xs = append(xs, []X{xInt(i), xProp("a"+word(i), "b"), xParam("p" + word(i)), xStr("s" + word(i))}[i%4])
	}
	name := func(w *W) {
		w.kw("CALL")
		for i, s := range ss {
			if i > 0 {
				w.sym(".")
			}
			w.name(s)
		}
		w.sym("(")
		w.xs(xs)
		w.sym(")")
	}
	place := c.Choose("place", 3)
	if place == 2 {
		f := X{v: cy.ACall(ss...).WithArgs(vals(xs)...).AsFunction(), id: nextID(), em: func(w *W) {
			for i, s := range ss {
				if i > 0 {
					w.sym(".")
				}
				w.name(s)
			}
			w.sym("(")
			w.xs(xs)
			w.sym(")")
		}}
		if what != 2 {
			c.checkX(f)
		}
		return
	}
	var as []A
	var ys []string
	how := c.Choose("yield", 3)
	for i, k := 0, size(2); i < k; i++ {
		ys = append(ys, "y"+word(i))
		as = append(as, mkA(xSym("y"+word(i)), "z"+word(i)))
	}
	yield := func(w *W) {
		w.kw("YIELD")
		for i := range ys {
			if i > 0 {
				w.sym(",")
			}
			if how == 0 {
				w.a(as[i])
			} else {
				w.name(ys[i])
			}
		}
		w.kw("RETURN")
		w.num(1)
	}
	var es []cy.AliasedExpression
	var ns []cy.SymbolicName
	for i := range as {
		es = append(es, as[i].v)
		ns = append(ns, cy.ASymbolic(ys[i]))
	}
	one := cy.LiteralOf(1)
	if place == 0 {
		o := cy.ACall(ss...).WithArgs(vals(xs)...)
		var s cy.Statement
		var err error
		switch how {
		case 0:
			s, err = o.Yield(es...).Returning(one).Build()
		case 1:
			s, err = o.YieldString(ys...).Returning(one).Build()
		default:
			s, err = o.YieldSymbolic(ns...).Returning(one).Build()
		}
		c.check(s, err, func(w *W) { name(w); yield(w) })
		return
	}
	o := cy.Match(cy.AnyNodeNamed("n")).Call1(ss...).WithArgs(vals(xs)...)
	var s cy.Statement
	var err error
	switch how {
	case 0:
		s, err = o.Yield(es...).Returning(one).Build()
	case 1:
		s, err = o.YieldString(ys...).Returning(one).Build()
	default:
		s, err = o.YieldSymbolic(ns...).Returning(one).Build()
	}
	c.check(s, err, func(w *W) {
		w.kw("MATCH")
		w.sym("(")
		w.name("n")
		w.sym(")")
		name(w)
		yield(w)
	})
}

func (c *C) callAsFunction() {
	parts := c.Choose("parts", 4) + 1
	var ss []string
	for i := 0; i < parts; i++ {
		ss = append(ss, string(rune('k'+i))+"x")
	}
	call := cy.ACall(ss...)
	n := c.Choose("arguments", dep(6, 12))
	var xs []X
	for i := 1; i < n; i++ {
		xs = append(xs, []X{xInt(i), xProp("a", "b"), xParam("p"), xStr("s")}[i%4])
	}
	if n > 0 {
		call = call.WithArgs(vals(xs)...)
	}
	em := func(w *W) {
		for i, s := range ss {
			if i > 0 {
				w.sym(".")
			}
			w.name(s)
		}
		w.sym("(")
		w.xs(xs)
		w.sym(")")
	}
	if c.Bool("built before") {
		call.Build()
		call.YieldString("x").Build()
	}
	f := X{v: call.AsFunction(), id: nextID(), em: em}
	switch c.Choose("place", 6) {
	case 0:
		c.checkX(f)
	case 1:
		c.checkX(mkA(f, "r").x())
	case 2:
		s, err := cy.Match(cy.AnyNodeNamed("n")).Where(f.v.IsEqualTo(cy.LiteralOf(1)).Get()).Returning(cy.ASymbolic("n")).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("n")
			w.sym(")")
			w.kw("WHERE")
			w.x(f)
			w.sym("=")
			w.num(1)
			w.kw("RETURN")
			w.name("n")
		})
	case 3:
		s, err := cy.With(f.v.As("q").Get()).Returning(cy.ASymbolic("q")).Build()
		c.check(s, err, func(w *W) {
			w.kw("WITH")
			w.x(f)
			w.kw("AS")
			w.name("q")
			w.kw("RETURN")
			w.name("q")
		})
	case 4:
		s, err := cy.Unwind(f.v).As("u").Returning(cy.ASymbolic("u")).Build()
		c.check(s, err, func(w *W) {
			w.kw("UNWIND")
			w.x(f)
			w.kw("AS")
			w.name("u")
			w.kw("RETURN")
			w.name("u")
		})
	case 5:
		g := cy.ACall("outer").WithArgs(f.v, cy.LiteralOf(2)).AsFunction()
		c.checkX(mkX(g, func(w *W) {
			w.name("outer")
			w.sym("(")
			w.x(f)
			w.sym(",")
			w.num(2)
			w.sym(")")
		}))
	}
}

// setItem gives one item of a SET list: its arguments and text.
func (b *B) setItem(k int) ([]cy.Expression, Em) {
	switch k {
	case 0:
		p, x := b.target(), xInt(number(b.n))
		return []cy.Expression{p.v, x.v}, eqEm(p, "=", x)
	case 1:
		s, x := b.sym(), xParam(b.fresh("q"))
		return []cy.Expression{s.v, x.v}, eqEm(s, "=", x)
	case 2:
		c, k := b.fresh("c"), b.fresh("p")
		x := b.prop()
		return []cy.Expression{cy.AProperty(c, k).To(x.v)}, func(w *W) { w.name(c); w.sym("."); w.name(k); w.sym("="); w.x(x) }
	case 3:
		nn, l := b.fresh("n"), b.fresh("L")
		return []cy.Expression{cy.OperationSetLabel(nodeNamed(nn), l)}, labelsEm(nn, []string{l})
	case 4:
		p := b.target()
		k, v := b.fresh("k"), xInt(number(b.n))
		return []cy.Expression{p.v, cy.MapOf(k, v.v)}, func(w *W) { w.x(p); w.sym("="); w.mapOf([]KV{{k, v}}) }
	case 5:
		p, x, y := b.target(), b.prop(), xInt(number(b.n))
		return []cy.Expression{p.v, x.v.Add(y.v).Get()}, func(w *W) {
			w.x(p)
			w.sym("=", "(")
			w.x(x)
			w.sym("+")
			w.x(y)
			w.sym(")")
		}
	}
	p, x := b.target(), b.sym()
	return []cy.Expression{cy.OperationSet(p.v, x.v)}, eqEm(p, "=", x)
}

func (c *C) setOperands() {
	place := c.Choose("place", 7)
	b := settle(root([]int{0, 4, 8, 5, 9, 8, 8}[place]))
	if place >= 5 {
		b = b.do(step{[]string{"OnCreate", "OnMatch"}[place-5], 0})
	}
	n := c.Choose("items", dep(4, 5)) + 1
	var args []cy.Expression
	var items []Em
	for i := 0; i < n; i++ {
		a, em := b.setItem(c.Choose("item", 7))
		args = append(args, a...)
		items = append(items, em)
	}
	type setter interface {
		Set(...cy.Expression) cy.BuildableStatementAndOngoingMatchAndUpdate
	}
	type actionSetter interface {
		Set(...cy.Expression) cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction
	}
	switch s := b.v.Interface().(type) {
	case setter:
		b.v = iface(s.Set(args...))
		b.st = b.st.add(Clause{kind: "SET", items: items})
	case actionSetter:
		b.v = iface(s.Set(args...))
		b.st = b.st.clone()
		b.st.last().acts = []Act{{b.st.on, items}}
		b.st.on = ""
	default:
		panic("no Set")
	}
	switch c.Choose("then", 3) {
	case 1:
		b = b.do(step{"Returning", 0})
	case 2:
		b = b.do(step{"Delete", 0})
	}
	c.checkB(b)
}

func (c *C) filterReplaced() {
	type wherer interface {
		Where(cy.Condition) cy.OngoingReadingWithWhere
	}
	type withWherer interface {
		Where(cy.Condition) cy.OrderableOngoingReadingAndWithWithWhere
	}
	b := settle(root([]int{0, 2, 5, 12}[c.Choose("root", 4)]))
	b.st = b.st.clone()
	n := c.Choose("wheres", 3) + 1
	cond := func() cy.Condition {
		switch c.Choose("condition", 3) {
		case 0:
			a := b.atom()
			b.st.last().where = a.f
			return a.v
		case 1:
			b.st.last().where = nil
			return cy.ConditionsNoCondition()
		}
		a, o := b.atom(), b.atom()
		b.st.last().where = fBin("or", a.f, o.f)
		return a.v.Or(o.v).Get()
	}
	for i := 0; i < n; i++ {
		x := cond()
		switch w := b.v.Interface().(type) {
		case wherer:
			b.v = iface(w.Where(x))
		case withWherer:
			b.v = iface(w.Where(x))
		default:
			return
		}
		b = c.walk(b, 1, profile{methods: oneOf("And", "Or"), maxVariants: 1})
		b.st = b.st.clone()
	}
	b = c.walk(b, 1, profile{methods: oneOf("Match", "With", "And", "Returning"), maxVariants: 1})
	c.checkB(b)
}
