package main

// Invalid parts: every kind of invalid value in every position that takes one, nested in other calls and continued in
// every way. The statement has to be reported as an error, and no call may panic.

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type bad struct {
	name string
	v    reflect.Value
}

// bads lists invalid values of a type.
func bads(t reflect.Type) []bad {
	var r []bad
	add := func(name string, x interface{}) {
		v := reflect.New(t).Elem()
		if x != nil {
			if !reflect.TypeOf(x).AssignableTo(t) {
				return
			}
			v.Set(reflect.ValueOf(x))
		} else if t.Kind() != reflect.Interface {
			return
		}
		r = append(r, bad{name, v})
	}
	z := cy.ASymbolic("z")
	n := cy.AnyNodeNamed("n")
	noName := cy.ASymbolic("")
	badNode := cy.ANode("")
	badRel := n.RelationshipTo(badNode, "T")
	badMap := cy.MapOf("a", 1, "a", 2)
	badCond := z.IsEqualTo(nil).Get().(cy.Condition)
	add("nil", nil)
	// values nobody made: an optional map and an optional step are left out this way, everything else is missing
	if t.Kind() == reflect.Struct && t != reflect.TypeOf(cy.MapExpression{}) && t != reflect.TypeOf(cy.CompoundCondition{}) {
		add("a zero value", reflect.Zero(t).Interface())
	}
	if t.Kind() == reflect.Interface {
		add("a zero symbolic name", cy.SymbolicName{})
		add("a zero property", cy.Property{})
		add("a zero function call", cy.FunctionInvocation{})
		add("a zero comparison", cy.Comparison{})
		add("a zero node", cy.Node{})
		add("a zero relationship", cy.Relationship{})
		add("a zero chain", cy.RelationshipChain{})
		add("a zero path", cy.NamedPath{})
	}
	// names
	add("empty name", noName)
	add("empty parameter", cy.AParam(""))
	add("property of nothing", cy.AProperty("", "p"))
	add("property without a name", cy.AProperty("c", ""))
	add("property of an invalid expression", cy.APropertyByExpression(noName, "p"))
	add("property of a node without name", cy.AnyNode().Property("p"))
	// literals
	add("unsupported literal", cy.LiteralOf(struct{}{}))
	add("not a number", cy.LiteralOf(math.NaN()))
	add("list literal with an unsupported element", cy.LiteralOf([]interface{}{1, struct{}{}}))
	// maps and lists
	add("map with a key twice", badMap)
	add("map with a key without value", cy.MapOf("a"))
	add("map with an invalid value", cy.MapOf("a", noName))
	add("map with an empty key", cy.MapOf("", z))
	add("list with nil", cy.ListOf(z, nil))
	add("list with an invalid element", cy.ListOf(z, noName, z))
	add("raw list with an unsupported element", cy.ListOfRaw(1, struct{}{}))
	// operations
	add("sum with nil", z.Add(nil).Get())
	add("sum of invalid", noName.Add(z).Get())
	add("comparison with nil", badCond)
	add("comparison of invalid", noName.IsEqualTo(z).Get())
	add("null test of invalid", noName.IsNull().Get())
	add("string operator with nil", z.StartWiths(nil).Get())
	add("in nil", z.In(nil).Get())
	for _, o := range []struct {
		name string
		op   cy.Operator
	}{{"+", cy.ADDITION}, {"=", cy.EQUALITY}, {"AND", cy.AND}, {"IN", cy.IN}, {"NOT", cy.NOT}, {"IS NULL", cy.IS_NULL}, {"SET", cy.SET}, {"+=", cy.MUTATE}, {".", cy.GET}} {
		add("label operation with "+o.name, cy.OperationCreate2(n, o.op, "L"))
		if o.name != "NOT" && o.name != "IS NULL" {
			add("unary comparison with "+o.name, cy.ComparisonCreate1(o.op, z))
		}
	}
	add("negation of invalid", z.IsEqualTo(nil).Not().Get())
	add("conjunction with invalid", z.IsNull().And(badCond).Get())
	add("conjunction with nil", z.IsNull().And(nil).Get())
	add("disjunction of invalid", z.IsEqualTo(nil).Or(z.IsNull().Get().(cy.Condition)).Get())
	add("pattern of invalid", cy.RelationshipPatternConditionCreate(badRel))
	add("conjunction with invalid pattern", z.IsNull().AndPattern(badRel).Get())
	add("not nil", cy.ConditionsNot(nil))
	add("labels of a node without name", cy.AnyNode().HasLabels("A"))
	add("empty label test", n.HasLabels("A", ""))
	add("exists of invalid", cy.PredicateExists(cy.AProperty("", "p")))
	// aliases
	add("empty alias", cy.AliasedExpressionCreate(z, ""))
	add("alias of nil", cy.AliasedExpressionCreate(nil, "a"))
	add("alias of invalid", cy.AliasedExpressionCreate(noName, "a"))
	add("empty alias", z.As("").Get())
	add("empty alias of a node", n.As(""))
	// functions
	add("function of nil", cy.Avg(nil))
	add("function of invalid", cy.Coalesce(z, noName))
	add("function of a node without name", cy.Labels(cy.AnyNode()))
	add("function of an invalid relationship", cy.FunctionType(badRel.NamedByString("r")))
	add("function of an invalid map", cy.Point(badMap))
	add("percentile out of range", cy.PercentileCont(z, 2))
	add("procedure as function without name", cy.ACallSimple("").AsFunction())
	add("procedure as function with invalid argument", cy.ACall("f").WithArgs(noName).AsFunction())
	// case
	add("case of nil", cy.CaseExpression(nil).When(z).Then(z))
	add("case with invalid when", cy.GenericCaseExpression().When(badCond).Then(z))
	add("case with invalid then", cy.CaseExpression(z).When(z).Then(noName))
	add("case with nil then", cy.CaseExpression(z).When(z).Then(nil))
	add("case with invalid second when", cy.CaseExpression(z).When(z).Then(z).When(noName).Then(z))
	add("case with invalid else", cy.CaseExpression(z).When(z).Then(z).ElseDefault(noName))
	// comprehensions, predicates, projections
	add("comprehension without variable", cy.CypherListWith(noName).In(z).Returning(z))
	add("comprehension over nil", cy.CypherListWith(z).In(nil).Returning(z))
	add("comprehension with invalid filter", cy.CypherListWith(z).In(z).Where(badCond).Returning(z))
	add("comprehension with invalid result", cy.CypherListWith(z).In(z).Returning(noName))
	add("pattern comprehension over invalid", cy.ListBasedOn(badRel).Returning(z))
	add("pattern comprehension with invalid filter", cy.ListBasedOn(n.RelationshipTo(n, "T")).Where(badCond).Returning(z))
	add("pattern comprehension with invalid result", cy.ListBasedOn(n.RelationshipTo(n, "T")).Returning(noName))
	add("predicate without variable", cy.PredicateAll("").In(z).Where(z.IsNull().Get().(cy.Condition)))
	add("predicate over nil", cy.PredicateAny("v").In(nil).Where(z.IsNull().Get().(cy.Condition)))
	add("predicate with nil", cy.PredicateNone("v").In(z).Where(nil))
	add("predicate with invalid filter", cy.PredicateSingle("v").In(z).Where(badCond))
	add("projection with an invalid value", n.Project("a", noName))
	add("projection with a key twice", n.Project("a", z, "a", z))
	add("projection of a node without name", cy.AnyNode().Project("a"))
	add("projection with invalid later entries", n.Project("a").And("b", noName))
	add("subscript of nil", cy.CypherValueAt(nil, 1))
	add("subscript by invalid", cy.CypherValueAtByExpression(z, noName))
	add("sublist of invalid", cy.ASubList(noName, 1, 2))
	add("sublist from nil", cy.ASubListFromByExpression(z, nil))
	add("existential subquery of invalid", cy.Match(badNode).AsCondition())
	add("existential subquery with invalid filter", cy.Match(n).Where(badCond).AsCondition())
	add("entry without key", cy.EntryExpressionCreate("", z))
	add("entry without value", cy.EntryExpressionCreate("k", nil))
	// nodes, relationships
	add("node with empty label", badNode)
	add("node with empty name", cy.AnyNodeNamed(""))
	add("node with empty additional label", cy.NewNodeWithLabels("A", "B", ""))
	add("node with a property key without value", cy.ANode("A").WithRawProperties("k").NamedByString("n"))
	add("node with a property key twice", cy.ANode("A").NamedByString("n").WithRawProperties("k", 1, "k", 2))
	add("node with invalid properties", cy.ANode("A").NamedByString("n").WithProperties(badMap))
	add("node with an invalid property", cy.ANode("A").NamedByString("n").WithRawProperties("k", noName))
	add("relationship to an invalid node", badRel.NamedByString("r"))
	add("relationship from an invalid node", badNode.RelationshipTo(n, "T").NamedByString("r"))
	add("relationship with empty type", n.RelationshipTo(n, "T", "").NamedByString("r"))
	add("relationship with empty name", n.RelationshipBetween(n).NamedByString(""))
	add("relationship with a property key twice", n.RelationshipTo(n).NamedByString("r").WithRawProperties("k", 1, "k", 2))
	add("relationship with invalid properties", n.RelationshipTo(n).NamedByString("r").WithProperties(badMap))
	add("relationship with negative minimum", n.RelationshipTo(n).NamedByString("r").Min(-1))
	add("relationship with negative maximum", n.RelationshipTo(n).NamedByString("r").Max(-1))
	add("relationship with negative bounds", n.RelationshipTo(n).NamedByString("r").Length(-1, 3))
	add("chain with an invalid first relationship", badRel.RelationshipTo(n, "T"))
	add("chain with an invalid node", n.RelationshipTo(n, "T").RelationshipFrom(badNode, "T"))
	add("chain with an invalid node in the middle", n.RelationshipTo(n, "T").RelationshipFrom(badNode, "T").RelationshipTo(n, "U"))
	add("chain with an empty type", n.RelationshipTo(n, "T").RelationshipFrom(n, ""))
	add("chain with invalid properties", n.RelationshipTo(n, "T").RelationshipFrom(n, "U").Properties(badMap))
	add("chain with an empty name", n.RelationshipTo(n, "T").RelationshipFrom(n, "U").NamedC(""))
	add("path without name", cy.APath("").DefinedBy(n.RelationshipTo(n)))
	add("path defined by nil", cy.APath("p").DefinedBy(nil))
	add("path defined by invalid", cy.APath("p").DefinedBy(badRel))
	add("shortest path of invalid", cy.AShortestPath("p").DefinedBy(badRel))
	// others
	add("sort of nil", cy.Sort(nil))
	add("sort of invalid", cy.Sort(noName).Descending())
	add("container of nil", cy.ConditionWrap(nil))
	add("container of invalid", cy.ConditionWrap(badCond))
	add("container of nil", cy.ExpressionWrap(nil))
	add("container of invalid", cy.ExpressionWrap(noName))
	add("union of one", cy.Union((&G{p: "u"}).stmt()))
	add("union with nil", cy.UnionAll((&G{p: "u"}).stmt(), nil))
	return r
}

var badMemo = map[reflect.Type][]bad{}

func badsOf(t reflect.Type) []bad {
	if _, ok := badMemo[t]; !ok {
		badMemo[t] = bads(t)
	}
	return badMemo[t]
}

// mustFail demands that what became of an invalid part is reported.
func (c *C) mustFail(g *G, x reflect.Value, what string) {
	c.checks++
	c.State(what)
	s, err := g.complete(x)
	if err != nil {
		return
	}
	t, err := cy.NewRenderer().Render(s)
	if err == nil {
		c.Fail("%s is not reported: rendered %q", what, t)
	}
}

// noneAllowed tells where nil stands for "none": Where(nil) is no filter (the tests of the repository say so), and a
// range without a step has the step nil.
func noneAllowed(k consumer, b bad) bool {
	if b.name != "nil" && !strings.HasPrefix(b.name, "a zero") {
		return false
	}
	if k.on == nil {
		return apiFns[k.f].name == "RangeWithStep" && k.par == 2
	}
	return k.m == "Where" && b.name == "nil"
}

func invalidHarness() *Harness {
	return &Harness{Prop: "C05", Name: "invalid-arguments", ShardDepth: 2,
		Rule: "every parameter of every function and method of every type that can be reached; every invalid value of its type; then every call on the result, and completed",
		Body: func(c *C) {
			k := consumers[c.Choose("call", len(consumers))]
			bs := badsOf(k.ptt)
			if len(bs) == 0 {
				return
			}
			b := bs[c.Choose("invalid", len(bs))]
			if noneAllowed(k, b) {
				return
			}
			pl := c.Choose("place", k.places())
			c.Log("%s given to %s, place %d", b.name, k, pl)
			g := &G{p: "r"}
			x := k.consumeAt(g, b.v, pl)
			ss := apiSteps(x.Type())
			if pl > 0 && !thorough() {
				ss = ss[:0] // what comes after is explored with the first place
			}
			i := c.Choose("then", len(ss)+1)
			if i < len(ss) {
				c.Log("then %v", ss[i])
				x = g.call(x, ss[i])
			}
			c.mustFail(g, x, fmt.Sprintf("%s given to %s", b.name, k))
		}}
}

// nestable are the consumers whose results fit into another consumer.
var nestable []consumer

func nestableInit() []consumer {
	var r []consumer
	for _, k := range consumers {
		if len(takers(k.result())) > 0 {
			r = append(r, k)
		}
	}
	return r
}

var takersMemo = map[reflect.Type][]consumer{}

// takers are the consumers a value of a type fits into.
func takers(t reflect.Type) []consumer {
	if r, ok := takersMemo[t]; ok {
		return r
	}
	var r []consumer
	for _, k := range consumers {
		if t.AssignableTo(k.ptt) {
			r = append(r, k)
		}
	}
	takersMemo[t] = r
	return r
}

func nestedInvalidHarness() *Harness {
	return &Harness{Prop: "C05", Name: "invalid-nested", ShardDepth: 3,
		Rule: "an invalid value given to a call whose result is given to a second call (thorough: and that to a third), and completed",
		Body: func(c *C) {
			k := nestable[c.Choose("inner", len(nestable))]
			bs := badsOf(k.ptt)
			if len(bs) == 0 {
				return
			}
			if !thorough() && len(bs) > 36 {
				// the other values are used by invalid-arguments
				step := (len(bs) + 35) / 36
				bs2 := make([]bad, 0, 36)
				for i := 0; i < len(bs); i += step {
					bs2 = append(bs2, bs[i])
				}
				bs = bs2
			}
			b := bs[c.Choose("invalid", len(bs))]
			if noneAllowed(k, b) {
				return
			}
			what := fmt.Sprintf("%s given to %s", b.name, k)
			g := &G{p: "r"}
			x := k.consume(g, b.v)
			ts := takers(k.result())
			k2 := ts[c.Choose("outer", len(ts))]
			what += fmt.Sprintf(", and that to %s", k2)
			c.Log("%s", what)
			y := k2.consume(g, x)
			c.mustFail(g, y, what)
		}}
}

// the stages of a statement that take values
var stages []consumer

func stagesInit() []consumer {
	var r []consumer
	for _, k := range consumers {
		if t := k.result(); k.on != nil && t.Kind() == reflect.Interface && !t.Implements(tExpr) {
			r = append(r, k)
		}
	}
	return r
}

func laterHarness() *Harness {
	return &Harness{Prop: "C05", Name: "invalid-then-more-calls", ShardDepth: 3,
		Rule: "an invalid value given to every stage of a statement (three kinds of invalid values per parameter), then two (thorough: three) further calls of every kind, and completed",
		Body: func(c *C) {
			k := stages[c.Choose("stage", len(stages))]
			var bs []bad
			for i, b := range badsOf(k.ptt) {
				if n := len(badsOf(k.ptt)); (i == 1 || i == n/2 || i == n-1) && b.name != "nil" {
					bs = append(bs, b)
				}
			}
			if len(bs) == 0 {
				return
			}
			b := bs[c.Choose("invalid", len(bs))]
			what := fmt.Sprintf("%s given to %s", b.name, k)
			c.Log("%s", what)
			g := &G{p: "r"}
			x := k.consume(g, b.v)
			for i := 0; i < dep(2, 3); i++ {
				var ss []apiStep
				for _, s := range apiSteps(x.Type()) {
					if s.v == 0 {
						ss = append(ss, s)
					}
				}
				if len(ss) == 0 {
					break
				}
				s := ss[c.Choose("then", len(ss))]
				c.Log("then %v", s)
				x = g.call(x, s)
			}
			c.mustFail(g, x, what)
		}}
}

// plain parameters: strings, numbers and values of any type.
type plain struct {
	on  *prog
	f   int
	m   string
	par int
	t   reflect.Type
	vp  bool // one of the variadic arguments
}

func (k plain) name() string {
	if k.on == nil {
		return apiFns[k.f].name
	}
	return k.m
}

func (k plain) String() string {
	if k.on == nil {
		return fmt.Sprintf("%s(parameter %d)", k.name(), k.par)
	}
	return fmt.Sprintf("%s.%s(parameter %d)", *k.on, k.m, k.par)
}

var plains []plain

func plainsInit() []plain {
	var r []plain
	add := func(k plain, mt reflect.Type) {
		for i := 0; i < mt.NumIn(); i++ {
			t := mt.In(i)
			k.vp = mt.IsVariadic() && i == mt.NumIn()-1
			if k.vp {
				t = t.Elem()
			}
			if t == tString || t == tInt || t == tFloat || t == tAny || t.Kind() == reflect.Ptr {
				k.par, k.t = i, t
				r = append(r, k)
			}
		}
	}
	for i, f := range apiFns {
		add(plain{f: i}, f.v.Type())
	}
	for i := range typeReps {
		p := typeReps[i]
		t := p.typ()
		seen := map[string]bool{}
		for _, s := range p.next() {
			if seen[s.m] {
				continue
			}
			seen[s.m] = true
			m, _ := t.MethodByName(s.m)
			add(plain{on: &p, m: s.m}, methodType(t, m))
		}
	}
	return r
}

func plainInvalidHarness() *Harness {
	return &Harness{Prop: "C05", Name: "invalid-plain-values", ShardDepth: 2,
		Rule: "every string, number and untyped parameter of every function and method; an empty string, a negative number, no number, a percentile out of range, a nil pointer, a value without literal; at every position of a variadic call; then every call on the result, and completed",
		Body: func(c *C) {
			k := plains[c.Choose("call", len(plains))]
			var bs []bad
			switch k.t {
			case tString:
				bs = []bad{{"an empty string", reflect.ValueOf("")}}
			case tInt:
				bs = []bad{{"a negative number", reflect.ValueOf(-1)}}
			case tFloat:
				bs = []bad{{"not a number", reflect.ValueOf(math.NaN())}, {"infinity", reflect.ValueOf(math.Inf(1))}}
				if strings.HasPrefix(k.name(), "Percentile") {
					for _, f := range []float64{-0.1, -1e-300, 1.0000001, 50, math.Inf(-1)} {
						bs = append(bs, bad{fmt.Sprint("the percentile ", f), reflect.ValueOf(f)})
					}
				}
			case tAny:
				for _, x := range []interface{}{struct{}{}, make(chan int), func() {}, math.NaN(), math.Inf(-1), complex(1, 2), []interface{}{1, struct{}{}}, cy.ASymbolic(""), cy.LiteralOf(struct{}{})} {
					bs = append(bs, bad{fmt.Sprintf("%T", x), reflect.ValueOf(x)})
				}
				if takesKeys[k.name()] {
					bs = append(bs, bad{"an empty key", reflect.ValueOf("")})
				}
			}
			if k.t.Kind() == reflect.Ptr {
				bs = []bad{{"nil", reflect.Zero(k.t)}}
			}
			b := bs[c.Choose("invalid", len(bs))]
			g := &G{p: "r"}
			var fn reflect.Value
			if k.on == nil {
				fn = apiFns[k.f].v
			} else {
				fn = k.on.run(g).MethodByName(k.m)
			}
			v := 0
			if fn.Type().IsVariadic() {
				v = 1
			}
			as := g.args(k.name(), fn.Type(), v)
			i := k.par
			if k.vp {
				i += c.Choose("position", len(as)-k.par)
			}
			if legal(k, i, b) {
				return
			}
			if b.name == "an empty key" {
				if _, isKey := as[i].Interface().(string); !isKey {
					return
				}
			}
			as[i] = conv(k.t, b.v.Interface())
			what := fmt.Sprintf("%s (position %d) given to %s", b.name, i, k)
			c.Log("%s", what)
			x := fn.Call(as)[0]
			ss := apiSteps(x.Type())
			j := c.Choose("then", len(ss)+1)
			if j < len(ss) {
				c.Log("then %v", ss[j])
				x = g.call(x, ss[j])
			}
			c.mustFail(g, x, what)
		}}
}

// takesKeys names the calls whose untyped arguments are keys when they are strings (in the calls made here).
var takesKeys = map[string]bool{"MapOf": true, "WithRawProperties": true, "PropertiesRaw": true, "Project": true, "And": true, "MapProjectionCreate": true}

// legal tells which of the plain values are fine where they are.
func legal(k plain, i int, b bad) bool {
	if k.t == tInt {
		switch k.name() {
		case "Skip", "Limit", "Min", "Max", "Length":
			return false
		}
		return true // a list can be read from its end, a range can go below zero
	}
	return false
}

// oddSet gives SET, at every stage that has one, an operand too few.
func oddSetHarness() *Harness {
	return &Harness{Prop: "C05", Name: "odd-set-operands", ShardDepth: 2,
		Rule: "SET at every stage that has it, with 1, 3, 5 or 7 operands that are no operations, after 0 to 2 operations (an operand without a value); then two further calls of every kind, and completed",
		Body: func(c *C) {
			var ps []prog
			for _, p := range typeReps {
				if m, ok := p.typ().MethodByName("Set"); ok && methodType(p.typ(), m).IsVariadic() {
					ps = append(ps, p)
				}
			}
			p := ps[c.Choose("stage", len(ps))]
			g := &G{p: "r"}
			x := p.run(g)
			var as []reflect.Value
			for i := c.Choose("operations", 3); i > 0; i-- {
				as = append(as, conv(tExpr, cy.OperationSet(cy.AProperty(g.s(), "p"), cy.ASymbolic(g.s()))))
			}
			for i := 2*c.Choose("pairs", 4) + 1; i > 0; i-- {
				as = append(as, conv(tExpr, cy.AProperty(g.s(), "p")))
			}
			what := fmt.Sprintf("%d operands of SET at %s", len(as), p)
			x = x.MethodByName("Set").Call(as)[0]
			for i := 0; i < 2; i++ {
				ss := apiSteps(x.Type())
				k := c.Choose("then", len(ss)+1)
				if k == len(ss) {
					break
				}
				x = g.call(x, ss[k])
			}
			c.Log("%s", what)
			c.mustFail(g, x, what)
		}}
}

func errHarnesses() []*Harness {
	return []*Harness{invalidHarness(), nestedInvalidHarness(), laterHarness(), oddSetHarness(), plainInvalidHarness()}
}
