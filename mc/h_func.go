package main

// C19: every function helper.

import (
	"time"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type fnDef struct {
	name     string
	distinct bool
	// what it is called with: 1 or 2 expressions
	one func(cy.Expression) cy.FunctionInvocation
	two func(a, b cy.Expression) cy.FunctionInvocation
}

var fnDefs = []fnDef{
	{name: "count", one: cy.CountByExpression},
	{name: "count", distinct: true, one: cy.CountDistinctByExpression},
	{name: "toLower", one: cy.ToLower},
	{name: "size", one: cy.Size},
	{name: "exists", one: cy.Exists},
	{name: "avg", one: cy.Avg},
	{name: "avg", distinct: true, one: cy.AvgDistinct},
	{name: "collect", one: cy.Collect},
	{name: "collect", distinct: true, one: cy.CollectDistinct},
	{name: "max", one: cy.Max},
	{name: "max", distinct: true, one: cy.MaxDistinct},
	{name: "min", one: cy.Min},
	{name: "min", distinct: true, one: cy.MinDistinct},
	{name: "stDev", one: cy.StDev},
	{name: "stDev", distinct: true, one: cy.StDevDistinct},
	{name: "stDevP", one: cy.StDevP},
	{name: "stDevP", distinct: true, one: cy.StDevPDistinct},
	{name: "sum", one: cy.Sum},
	{name: "sum", distinct: true, one: cy.SumDistinct},
	{name: "head", one: cy.Head},
	{name: "last", one: cy.Last},
	{name: "date", one: cy.DateWithExpression},
	{name: "datetime", one: cy.DateTimeWithExpression},
	{name: "localdatetime", one: cy.LocalDateTimeWithExpression},
	{name: "localtime", one: cy.LocalTimeWithExpression},
	{name: "time", one: cy.TimeWithExpression},
	{name: "duration", one: cy.DurationWithExpression},
	{name: "coalesce", one: func(e cy.Expression) cy.FunctionInvocation { return cy.Coalesce(e) }},
	{name: "distance", two: cy.Distance},
	{name: "range", two: cy.Range},
	{name: "coalesce", two: func(a, b cy.Expression) cy.FunctionInvocation { return cy.Coalesce(a, b) }},
}

func (d fnDef) em(xs ...X) Em {
	if d.distinct {
		return fnDistinctEm(d.name, xs...)
	}
	return fnEm(d.name, xs...)
}

func (d fnDef) call(a, b X) X {
	if d.one != nil {
		return mkX(d.one(a.v), d.em(a))
	}
	return mkX(d.two(a.v, b.v), d.em(a, b))
}

// fixed calls: everything that does not just take expressions. Each gives an expression.
var fnFixed = []func(g *condGen) X{
	func(g *condGen) X { n := g.fresh("n"); return mkX(cy.IdByNode(cy.AnyNodeNamed(n)), nmEm("id", n)) },
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.NewNodeWithLabels("L").NamedByString(n).InternalId(), nmEm("id", n))
	},
	func(g *condGen) X { r, n := g.namedRel(); return mkX(cy.IdByRelationship(r.v), nmEm("id", n)) },
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.Labels(cy.NewNodeWithLabels("L", "M").NamedByString(n)), nmEm("labels", n))
	},
	func(g *condGen) X { n := g.fresh("n"); return mkX(cy.AnyNodeNamed(n).Labels(), nmEm("labels", n)) },
	func(g *condGen) X { r, n := g.namedRel(); return mkX(cy.FunctionType(r.v), nmEm("type", n)) },
	func(g *condGen) X { n := g.fresh("n"); return mkX(cy.Count(cy.AnyNodeNamed(n)), nmEm("count", n)) },
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.CountDistinct(cy.AnyNodeNamed(n)), func(w *W) { w.kw("count"); w.sym("("); w.kw("DISTINCT"); w.name(n); w.sym(")") })
	},
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.FunctionProperties(cy.AnyNodeNamed(n)), nmEm("properties", n))
	},
	func(g *condGen) X {
		r, n := g.namedRel()
		return mkX(cy.FunctionPropertiesByRelationship(r.v), nmEm("properties", n))
	},
	func(g *condGen) X {
		x := g.x(0)
		return mkX(cy.PropertiesByMapExpression(cy.MapOf("a", x.v, "b", 1)), mapFnEm("properties", KV{"a", x}, KV{"b", xInt(1)}))
	},
	func(g *condGen) X {
		r, _ := g.namedRel()
		return mkX(cy.SizeByPattern(r.v), func(w *W) { w.kw("size"); w.sym("("); w.r(r); w.sym(")") })
	},
	func(g *condGen) X {
		a := mkR(mkN("", nil, nil), 2, mkN("", []string{"L"}, nil), "T")
		b := R{l: a.r, r: mkN("", nil, nil), dir: 1, types: []string{"U"}}
		ch := a.v.RelationshipFrom(b.r.v, "U")
		return mkX(cy.SizeByPattern(ch), func(w *W) { w.kw("size"); w.sym("("); w.ch(Ch{rs: []R{a, b}}); w.sym(")") })
	},
	func(g *condGen) X {
		r, _ := g.namedRel()
		return mkX(cy.PredicateExistsByPattern(r.v), func(w *W) {
			w.open()
			w.kw("exists")
			w.sym("(")
			w.r(r)
			w.sym(")")
			w.close()
		})
	},
	func(g *condGen) X {
		x := g.x(1)
		return mkX(cy.PredicateExists(x.v.(cy.Property)), func(w *W) { w.open(); fnEm("exists", x)(w); w.close() })
	},
	func(g *condGen) X {
		x, y := g.x(0), g.x(2)
		return mkX(cy.Point(cy.MapOf("latitude", x.v, "longitude", y.v)), mapFnEm("point", KV{"latitude", x}, KV{"longitude", y}))
	},
	func(g *condGen) X {
		p := g.fresh("p")
		return mkX(cy.PointByParameter(cy.AParam(p)), fnEm("point", xParam(p)))
	},
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.CollectByNamed(cy.AnyNodeNamed(n)), nmEm("collect", n))
	},
	func(g *condGen) X { r, n := g.namedRel(); return mkX(cy.CollectByNamed(r.v), nmEm("collect", n)) },
	func(g *condGen) X { p, n := g.path(); return mkX(cy.CollectByNamed(p), nmEm("collect", n)) },
	func(g *condGen) X {
		n := g.fresh("n")
		return mkX(cy.CollectDistinctByNamed(cy.AnyNodeNamed(n)), func(w *W) { w.kw("collect"); w.sym("("); w.kw("DISTINCT"); w.name(n); w.sym(")") })
	},
	func(g *condGen) X {
		x := g.x(1)
		return mkX(cy.PercentileCont(x.v, 0.25), func(w *W) {
			w.kw("percentileCont")
			w.sym("(")
			w.x(x)
			w.sym(",")
			w.flt(0.25)
			w.sym(")")
		})
	},
	func(g *condGen) X {
		x := g.x(1)
		return mkX(cy.PercentileContDistinct(x.v, 1), func(w *W) {
			w.kw("percentileCont")
			w.sym("(")
			w.kw("DISTINCT")
			w.x(x)
			w.sym(",")
			w.flt(1)
			w.sym(")")
		})
	},
	func(g *condGen) X {
		x := g.x(1)
		return mkX(cy.PercentileDisc(x.v, 0), func(w *W) {
			w.kw("percentileDisc")
			w.sym("(")
			w.x(x)
			w.sym(",")
			w.flt(0)
			w.sym(")")
		})
	},
	func(g *condGen) X {
		x := g.x(1)
		return mkX(cy.PercentileDiscDistinct(x.v, 0.75), func(w *W) {
			w.kw("percentileDisc")
			w.sym("(")
			w.kw("DISTINCT")
			w.x(x)
			w.sym(",")
			w.flt(0.75)
			w.sym(")")
		})
	},
	func(g *condGen) X { return mkX(cy.RangeRaw(3, -7), fnEm("range", xInt(3), xInt(-7))) },
	func(g *condGen) X {
		return mkX(cy.RangeWithStepRaw(3, 70, 2), fnEm("range", xInt(3), xInt(70), xInt(2)))
	},
	func(g *condGen) X {
		x, y, z := g.x(0), g.x(2), g.x(1)
		return mkX(cy.RangeWithStep(x.v, y.v, z.v), fnEm("range", x, y, z))
	},
	func(g *condGen) X { p, n := g.path(); return mkX(cy.Nodes(p), nmEm("nodes", n)) },
	func(g *condGen) X { p, n := g.path(); return mkX(cy.Relationships(p), nmEm("relationships", n)) },
	func(g *condGen) X { r, n := g.namedRel(); return mkX(cy.StartNode(r.v), nmEm("startNode", n)) },
	func(g *condGen) X { r, n := g.namedRel(); return mkX(cy.EndNode(r.v), nmEm("endNode", n)) },
	func(g *condGen) X {
		r, _ := g.namedRel()
		return mkX(cy.ShortestPath(r.v), func(w *W) { w.kw("shortestPath"); w.sym("("); w.r(r); w.sym(")") })
	},
	func(g *condGen) X { return mkX(cy.Date(), fnEm("date")) },
	func(g *condGen) X { return mkX(cy.Datetime(), fnEm("datetime")) },
	func(g *condGen) X { return mkX(cy.LocalDatetime(), fnEm("localdatetime")) },
	func(g *condGen) X { return mkX(cy.Localtime(), fnEm("localtime")) },
	func(g *condGen) X { return mkX(cy.Time(), fnEm("time")) },
	func(g *condGen) X {
		return mkX(cy.CalendarDate(2019, 9, 21), mapFnEm("date", KV{"year", xInt(2019)}, KV{"month", xInt(9)}, KV{"day", xInt(21)}))
	},
	func(g *condGen) X {
		return mkX(cy.WeekDate(2018, 10, 3), mapFnEm("date", KV{"year", xInt(2018)}, KV{"week", xInt(10)}, KV{"dayOfWeek", xInt(3)}))
	},
	func(g *condGen) X {
		return mkX(cy.QuarterDate(2017, 4, 45), mapFnEm("date", KV{"year", xInt(2017)}, KV{"quarter", xInt(4)}, KV{"dayOfQuarter", xInt(45)}))
	},
	func(g *condGen) X {
		return mkX(cy.OrdinalDate(2016, 202), mapFnEm("date", KV{"year", xInt(2016)}, KV{"ordinalDay", xInt(202)}))
	},
	func(g *condGen) X { return mkX(cy.DateWithTemporal("2020-09-15"), fnEm("date", xStr("2020-09-15"))) },
	func(g *condGen) X {
		return mkX(cy.DateTimeWithTemporal("2015-06-24T12:50:35.556+0100"), fnEm("datetime", xStr("2015-06-24T12:50:35.556+0100")))
	},
	func(g *condGen) X {
		return mkX(cy.LocalDateTimeWithTemporal("2015-185T19:32:24"), fnEm("localdatetime", xStr("2015-185T19:32:24")))
	},
	func(g *condGen) X {
		return mkX(cy.LocalTimeWithTemporal("21:40:32.142"), fnEm("localtime", xStr("21:40:32.142")))
	},
	func(g *condGen) X { return mkX(cy.TimeWithTemporal("21:40:32+01"), fnEm("time", xStr("21:40:32+01"))) },
	func(g *condGen) X {
		return mkX(cy.DurationWithTemporal("P14DT16H12M"), fnEm("duration", xStr("P14DT16H12M")))
	},
	func(g *condGen) X {
		return mkX(cy.LocalDateTimeWithTimezone(time.FixedZone("America/Los Angeles'", 3600)), mapFnEm("localdatetime", KV{"timezone", xStr("America/Los Angeles'")}))
	},
	func(g *condGen) X {
		return mkX(cy.LocalTimeWithTimezone(time.UTC), mapFnEm("localtime", KV{"timezone", xStr("UTC")}))
	},
	func(g *condGen) X {
		return mkX(cy.TimeWithTimeZone(time.FixedZone("Europe/Berlin", 3600)), mapFnEm("time", KV{"timezone", xStr("Europe/Berlin")}))
	},
	func(g *condGen) X { return g.components("date", cy.DateWithComponents) },
	func(g *condGen) X { return g.components("datetime", cy.DateTimeWithComponents) },
	func(g *condGen) X { return g.components("localdatetime", cy.LocalDateTimeWithComponents) },
	func(g *condGen) X { return g.components("localtime", cy.LocalTimeWithComponents) },
	func(g *condGen) X { return g.components("time", cy.TimeWithComponents) },
	func(g *condGen) X { return g.components("duration", cy.DurationWithComponents) },
}

func (g *condGen) components(name string, f func(cy.MapExpression) cy.FunctionInvocation) X {
	x, y := g.x(0), g.x(2)
	return mkX(f(cy.MapOf("hour", x.v, "second", y.v, "timezone", "UTC")), mapFnEm(name, KV{"hour", x}, KV{"second", y}, KV{"timezone", xStr("UTC")}))
}

func nmEm(name, arg string) Em { return func(w *W) { w.kw(name); w.sym("("); w.name(arg); w.sym(")") } }
func mapFnEm(name string, kvs ...KV) Em {
	return func(w *W) { w.kw(name); w.sym("("); w.mapOf(kvs); w.sym(")") }
}

func (g *condGen) namedRel() (R, string) {
	n := g.fresh("r")
	return mkR(mkN("", []string{"A"}, nil), 0, mkN("", nil, nil), "T").named(n), n
}

func (g *condGen) path() (cy.NamedPath, string) {
	n := g.fresh("h")
	r, _ := g.namedRel()
	return cy.APath(n).DefinedBy(r.v), n
}

func funcHarnesses() []*Harness {
	return shared(1, []*Harness{
		{Prop: "C19", Name: "functions-of-expressions", ShardDepth: 2,
			Rule: "31 helpers that take expressions (aggregations, scalar, list, spatial and temporal functions, with and without DISTINCT) with every (pair of) 20 kinds of arguments",
			Body: func(c *C) {
				d := fnDefs[c.Choose("function", len(fnDefs))]
				var g condGen
				a := g.x(c.Choose("kind", nKinds))
				var b X
				if d.two != nil {
					b = g.x(c.Choose("kind", nKinds))
				}
				c.checkX(d.call(a, b))
			}},
		{Prop: "C19", Name: "functions-of-other-things", ShardDepth: 1,
			Rule: "57 helpers that take nodes, relationships, paths, patterns, maps, parameters, numbers, texts, time zones or nothing, alone and twice",
			Body: func(c *C) {
				f := fnFixed[c.Choose("function", len(fnFixed))]
				var g condGen
				c.checkX(f(&g))
				x, y := f(&g), f(&g)
				c.checkX(mkX(cy.ListOf(x.v, y.v, x.v), func(w *W) { w.sym("["); w.xs([]X{x, y, x}); w.sym("]") }))
			}},
		{Prop: "C19", Name: "functions-everywhere", ShardDepth: 1,
			Rule: "all 88 helpers in all 36 places of an expression",
			Body: func(c *C) {
				k := c.Choose("place", nPlaces)
				i := c.Choose("function", len(fnDefs)+len(fnFixed))
				var g condGen
				if i < len(fnDefs) {
					c.inPlace(k, fnDefs[i].call(g.x(0), g.x(1)))
					return
				}
				c.inPlace(k, fnFixed[i-len(fnDefs)](&g))
			}},
		{Prop: "C19", Name: "functions-of-functions", ShardDepth: 1,
			Rule: "every helper that takes expressions over every helper (and, for two arguments, with every helper in the other one); thorough: three levels",
			Body: func(c *C) {
				var g condGen
				d := fnDefs[c.Choose("outer", len(fnDefs))]
				any := func(label string) X {
					i := c.Choose(label, len(fnDefs)+len(fnFixed))
					if i < len(fnDefs) {
						a, b := g.x(1), g.x(0)
						if thorough() {
							j := c.Choose("inner", len(fnDefs)+1)
							if j > 0 {
								a = fnDefs[j-1].call(g.x(0), g.x(2))
							}
						}
						return fnDefs[i].call(a, b)
					}
					return fnFixed[i-len(fnDefs)](&g)
				}
				a := any("first")
				b := g.x(0)
				if d.two != nil {
					b = any("second")
				}
				c.checkX(d.call(a, b))
			}},
		{Prop: "C19", Name: "function-pairs", ShardDepth: 1,
			Rule: "every ordered pair of the 88 helpers in one statement, over the same and over different arguments",
			Body: func(c *C) {
				var g condGen
				n := len(fnDefs) + len(fnFixed)
				i, j := c.Choose("first", n), c.Choose("second", n)
				same := c.Bool("same argument")
				a0, b0 := g.x(1), g.x(0)
				mk := func(i int) X {
					if i < len(fnDefs) {
						if same {
							return fnDefs[i].call(a0, b0)
						}
						return fnDefs[i].call(g.x(1), g.x(0))
					}
					return fnFixed[i-len(fnDefs)](&g)
				}
				x, y := mk(i), mk(j)
				s, err := cy.CypherReturning(x.v, y.v).OrderBy(x.v).Build()
				c.check(s, err, func(w *W) {
					w.kw("RETURN")
					w.x(x)
					w.sym(",")
					w.x(y)
					w.kw("ORDER BY")
					w.x(x)
				})
			}},
		{Prop: "C19", Name: "coalesce-arguments", ShardDepth: 1,
			Rule: "coalesce with 1..6 arguments, every kind in every pair of slots, and with every number of arguments up to 130; range with step over all kinds",
			Body: func(c *C) {
				if c.Bool("range") {
					s := c.twoSlots(3)
					x, y, z := s.next(), s.next(), s.next()
					c.checkX(mkX(cy.RangeWithStep(x.v, y.v, z.v), fnEm("range", x, y, z)))
					return
				}
				n := 1 + c.Choose("arguments", 130)
				s := &slots{a: -1, b: -1}
				if n <= 6 {
					s = c.twoSlots(n)
				}
				var xs []X
				for i := 0; i < n; i++ {
					xs = append(xs, s.next())
				}
				c.checkX(mkX(cy.Coalesce(vals(xs)...), fnEm("coalesce", xs...)))
			}},
		{Prop: "C19", Name: "percentiles-and-components", ShardDepth: 1,
			Rule: "the four percentile helpers over all kinds of arguments and 101 percentiles; component maps of up to 9 entries for the temporal functions and point, properties",
			Body: func(c *C) {
				var g condGen
				if c.Bool("percentile") {
					k := c.Choose("function", 4)
					x := g.x(c.Choose("kind", nKinds))
					p := float64(c.Choose("percentile", 101)) / 100
					f := []func(cy.Expression, float64) cy.FunctionInvocation{cy.PercentileCont, cy.PercentileContDistinct, cy.PercentileDisc, cy.PercentileDiscDistinct}[k]
					c.checkX(mkX(f(x.v, p), func(w *W) {
						w.kw([]string{"percentileCont", "percentileDisc"}[k/2])
						w.sym("(")
						if k%2 == 1 {
							w.kw("DISTINCT")
						}
						w.x(x)
						w.sym(",")
						w.flt(p)
						w.sym(")")
					}))
					return
				}
				k := c.Choose("function", 8)
				f := []func(cy.MapExpression) cy.FunctionInvocation{cy.DateWithComponents, cy.DateTimeWithComponents, cy.LocalDateTimeWithComponents, cy.LocalTimeWithComponents, cy.TimeWithComponents, cy.DurationWithComponents, cy.Point, cy.PropertiesByMapExpression}[k]
				name := []string{"date", "datetime", "localdatetime", "localtime", "time", "duration", "point", "properties"}[k]
				n := 1 + c.Choose("entries", 9)
				s := c.oneSlot(n)
				var kvs []KV
				for i := 0; i < n; i++ {
					kvs = append(kvs, KV{[]string{"year", "month", "day", "hour", "minute", "second", "timezone", "x", "y"}[i], s.next()})
				}
				c.checkX(mkX(f(cy.MapOf(kvArgs(kvs)...)), mapFnEm(name, kvs...)))
			}},
	}...)
}
