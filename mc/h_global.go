package main

// Branching, sharing and reuse: every exploration here compares executions of the library with each other.

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// roots whose values differ in more than a function name
var fluentRoots = func() []int {
	var r []int
	seen := map[reflect.Type]int{}
	for i, f := range apiFns {
		t := f.v.Type().Out(0)
		switch t.Name() {
		case "FunctionInvocation", "Operation", "ListOperator", "Expression", "Literal", "BooleanLiteral", "Parameter", "Asterisk":
			seen[t]++
			if seen[t] > 1 {
				continue
			}
		}
		r = append(r, i)
	}
	return r
}()

// functions whose values behave like those of another one; their calls are explored one level less deep
var alike = map[string]bool{"AnOptionalMatch": true, "MatchWithOption": true, "WithByNamed": true, "WithByString": true, "UnwindMulti": true,
	"PredicateAny": true, "PredicateNone": true, "PredicateSingle": true, "PredicateAllBySymbolicName": true, "ACallSimple": true, "StatementCall": true,
	"AnyNode": true, "ANode": true, "APathBySymbolic": true, "AShortestPathBySymbolic": true, "ConditionsIsFalse": true, "ConditionsIsTrue": true,
	"PredicateExistsByPattern": true, "ConditionsNotByPattern": true, "ListBasedOnNamed": true, "ListOfRaw": true, "LiteralFalse": true, "LiteralTrue": true,
	"UnionAll": true, "SubListFrom": true, "SubListUntil": true, "ValueAt": true, "ListComprehensionWith": true,
	"PatternComprehensionBasedOn": true, "PatternComprehensionBasedOnNamePath": true, "PredicateAnyBySymbolicName": true,
	"PredicateNoneBySymbolicName": true, "PredicateSingleBySymbolicName": true}

// typeReps gives for every static type that can be reached a short program, one whose value is valid and on which as
// many calls as possible are valid: an error would hide what comes after. Which they are is worked out once, by mc gen:
// a process that has yet to use the library for the first time has them as well.
var typeReps = func() []prog {
	var r []prog
	have := map[reflect.Type]bool{}
	for _, k := range genReps {
		p, ok := k.prog()
		if ok && !have[p.typ()] {
			have[p.typ()] = true
			r = append(r, p)
		}
	}
	// types that are new
	level := append(allStarts(), r...)
	for len(level) > 0 {
		var next []prog
		for _, p := range level {
			t := p.typ()
			if have[t] && p.steps != nil {
				continue
			}
			if !have[t] {
				have[t] = true
				r = append(r, p)
			}
			for _, s := range p.next() {
				if s.v == 0 {
					if q := p.then(s); !have[q.typ()] {
						next = append(next, q)
					}
				}
			}
		}
		level = next
	}
	return r
}()

// a repKey is a program as mc gen writes it
type repKey struct {
	name  string
	v     int
	steps []apiStep
}

func (k repKey) prog() (p prog, ok bool) {
	for i, f := range apiFns {
		if f.name != k.name || k.v >= shapes(f.v.Type()) {
			continue
		}
		p = prog{f: i, v: k.v}
		for _, s := range k.steps {
			found := false
			for _, n := range p.next() {
				found = found || n == s
			}
			if !found {
				return p, false
			}
			p = p.then(s)
		}
		return p, true
	}
	return p, false
}

func allStarts() (r []prog) {
	for i, f := range apiFns {
		for v := 0; v < shapes(f.v.Type()); v++ {
			r = append(r, prog{f: i, v: v})
		}
	}
	return r
}

// bestReps works out typeReps.
func bestReps() []prog {
	var order []reflect.Type
	best := map[reflect.Type]prog{}
	score := map[reflect.Type]int{}
	tries := map[reflect.Type]int{}
	level := allStarts()
	for len(level) > 0 {
		var next []prog
		for _, p := range level {
			t := p.typ()
			tries[t]++
			old, had := score[t]
			if tries[t] > 12 || had && old == 1<<20 {
				continue
			}
			n := p.validCalls()
			if had && n <= old {
				continue
			}
			if !had {
				order = append(order, t)
			}
			best[t], score[t] = p, n
			for _, s := range p.next() {
				if s.v == 0 {
					next = append(next, p.then(s))
				}
			}
		}
		level = next
	}
	var r []prog
	for _, t := range order {
		r = append(r, best[t])
	}
	return r
}

// validCalls is the number of calls on the value of the program that give something valid; 1<<20 when all do.
func (p prog) validCalls() int {
	valid := func(q prog) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		g := &G{p: "r"}
		return g.observe(q.run(g)) != "error"
	}
	if !valid(p) {
		return 0
	}
	n, all := 1, true
	for _, s := range p.next() {
		if valid(p.then(s)) {
			n++
		} else {
			all = false
		}
	}
	if all {
		return 1 << 20
	}
	return n
}

// branches explores two continuations of one value.
type branchCheck struct {
	c     *C
	base  prog
	solo  map[string]string
	depth int
}

var soloMemo = map[string]string{}
var soloBase string

// solo is what the continuation renders when it is the only one.
func solo(base prog, who string, steps ...apiStep) string {
	bs := base.String()
	if bs != soloBase || len(soloMemo) > 5000 {
		soloBase = bs
		soloMemo = map[string]string{}
	}
	k := who + fmt.Sprint(steps)
	if t, ok := soloMemo[k]; ok {
		return t
	}
	x := base.run(&G{p: "o"})
	g := &G{p: who}
	for _, s := range steps {
		x = g.call(x, s)
	}
	t := g.observe(x)
	soloMemo[k] = t
	return t
}

func (c *C) same(what, got, want string) {
	c.checks++
	c.State(got)
	if got != want {
		c.Fail("%s renders\n  %q\n  but alone\n  %q", what, got, want)
	}
}

// branch makes two continuations of one value in every order that matters and compares each with what it is alone.
func (c *C) branch(base prog, a, b []apiStep) {
	c.Log("base %s, one continued by %v, the other by %v", base, a, b)
	wa, wb, wo := solo(base, "a", a...), solo(base, "b", b...), solo(base, "z")
	cont := func(x reflect.Value, g *G, ss []apiStep) reflect.Value {
		for _, s := range ss {
			x = g.call(x, s)
		}
		return x
	}
	// both are continued before one is completed
	{
		x := base.run(&G{p: "o"})
		ga, gb := &G{p: "a"}, &G{p: "b"}
		var xa, xb reflect.Value
		for i := 0; i < len(a) || i < len(b); i++ {
			if i == 0 {
				xa, xb = x, x
			}
			if i < len(a) {
				xa = ga.call(xa, a[i])
			}
			if i < len(b) {
				xb = gb.call(xb, b[i])
			}
		}
		sb, eb := gb.complete(xb)
		na := ga.n
		sa, ea := ga.complete(xa)
		so, eo := (&G{p: "z"}).complete(x)
		c.same("the first continuation", show(sa, ea), wa)
		c.same("the original", show(so, eo), wo)
		c.same("the second continuation", show(sb, eb), wb)
		c.same("the first continuation, built again,", (&G{p: "a", n: na}).observe(xa), wa)
	}
	// one is completed, and then the value is continued in another way
	{
		x := base.run(&G{p: "o"})
		ga, gb := &G{p: "a"}, &G{p: "b"}
		xa := cont(x, ga, a)
		sa, ea := ga.complete(xa)
		ta := show(sa, ea)
		c.same("the continuation", ta, wa)
		xb := cont(x, gb, b)
		sb, eb := gb.complete(xb)
		c.same("the continuation of a value another continuation of which was built", show(sb, eb), wb)
		c.same("the statement built first", show(sa, ea), wa)
		so, eo := (&G{p: "z"}).complete(x)
		c.same("the original, after two continuations were built,", show(so, eo), wo)
		c.same("the statement built first", show(sa, ea), wa)
		c.same("the statement built second", show(sb, eb), wb)
	}
	// the original is completed first
	{
		x := base.run(&G{p: "o"})
		so, eo := (&G{p: "z"}).complete(x)
		to := show(so, eo)
		gb := &G{p: "b"}
		xb := cont(x, gb, b)
		sb, eb := gb.complete(xb)
		c.same("the continuation of a value that was built", show(sb, eb), wb)
		c.same("the original", to, wo)
		c.same("the statement built from the original", show(so, eo), wo)
	}
}

// other chooses the call that makes the second continuation.
func (c *C) other(p prog, a apiStep, ss []apiStep) apiStep {
	if thorough() {
		return ss[c.Choose("other", len(ss))]
	}
	if p.typ().Implements(tExpr) {
		// the operators of expressions: the same one again, or the first that is another
		if c.Choose("other", 2) == 0 {
			return a
		}
		for _, s := range ss {
			if s.m != a.m {
				return s
			}
		}
		return a
	}
	var r []apiStep
	for _, s := range ss {
		if s.v == 0 || s.m == a.m {
			r = append(r, s)
		}
	}
	return r[c.Choose("other", len(r))]
}

func branchHarness() *Harness {
	return &Harness{Prop: "C03", Name: "branches", ShardDepth: 4,
		Rule: "every function of the API (argument shapes), every call on its value up to a depth; two continuations of one and more calls, made in three orders of continuing and building; each compared with its execution alone",
		Body: func(c *C) {
			p := prog{f: fluentRoots[c.Choose("function", len(fluentRoots))]}
			p.v = c.Choose("shape", shapes(apiFns[p.f].v.Type()))
			d := dep(1, 2)
			if p.v > 0 || alike[apiFns[p.f].name] {
				d--
			}
			for i := 0; i < d; i++ {
				ss := p.next()
				k := c.Choose("call", len(ss)+1)
				if k == len(ss) {
					break
				}
				p = p.then(ss[k])
			}
			ss := p.next()
			if len(ss) == 0 {
				return
			}
			a := ss[c.Choose("one", len(ss))]
			b := c.other(p, a, ss)
			c.branch(p, []apiStep{a}, []apiStep{b})
		}}
}

// grown values: a call repeated until the memory behind the value has room to spare, then two continuations.
func grownHarness() *Harness {
	return &Harness{Prop: "C03", Name: "grown-branches", ShardDepth: 4,
		Rule: "every function, up to one call, then every call that can be repeated, repeated 2 to 7 times; then two continuations in three orders of continuing and building; each compared with its execution alone",
		Body: func(c *C) {
			p := prog{f: fluentRoots[c.Choose("function", len(fluentRoots))]}
			if p.typ().Implements(tExpr) && p.typ().Kind() == reflect.Struct && p.typ() != tCase && !hasMethod(p.typ(), "And") && !hasMethod(p.typ(), "AddEntries") {
				return // the operators of expressions make new values
			}
			pre := c.Choose("before", dep(1, 2)+1)
			if alike[apiFns[p.f].name] {
				pre = 0
			}
			for i := 0; i < pre; i++ {
				ss := p.next()
				if len(ss) == 0 {
					return
				}
				p = p.then(ss[c.Choose("call", len(ss))])
			}
			var grow []apiStep
			for _, s := range p.next() {
				if q := p.then(s); hasMethod(q.typ(), s.m) && (s.v == 0 || thorough()) && (!q.typ().Implements(tExpr) || !exprMethods[s.m] && s.m != "Add" && s.m != "As") {
					grow = append(grow, s)
				}
			}
			if len(grow) == 0 {
				return
			}
			m := grow[c.Choose("repeat", len(grow))]
			sizes := []int{2, 3, 5}
			if thorough() {
				sizes = []int{2, 3, 4, 5, 6, 7, 9}
			} else if pre > 0 {
				sizes = []int{3}
			}
			n := sizes[c.Choose("times", len(sizes))]
			for i := 0; i < n; i++ {
				if !hasMethod(p.typ(), m.m) {
					return
				}
				p = p.then(m)
			}
			if !hasMethod(p.typ(), m.m) {
				return
			}
			ss := p.next()
			var as []apiStep
			for _, s := range ss {
				if s.v == 0 || s.m == m.m || thorough() {
					as = append(as, s)
				}
			}
			a := as[c.Choose("one", len(as))]
			b := m
			if a.m != m.m && (pre == 0 || thorough()) && c.Bool("same again") {
				b = a
			}
			c.branch(p, []apiStep{a}, []apiStep{b})
		}}
}

// a consumer is a call with a parameter that takes the value under test.
type consumer struct {
	on  *prog // nil: a function
	f   int
	m   string
	par int
	ptt reflect.Type
}

func (k consumer) String() string {
	if k.on == nil {
		return fmt.Sprintf("%s(parameter %d)", apiFns[k.f].name, k.par)
	}
	return fmt.Sprintf("%s.%s(parameter %d)", *k.on, k.m, k.par)
}

// consumers lists the parameters of all functions and of all methods of all types that can be reached.
var consumers []consumer

func consumersInit() []consumer {
	var r []consumer
	add := func(k consumer, mt reflect.Type) {
		for i := 0; i < mt.NumIn(); i++ {
			t := mt.In(i)
			if mt.IsVariadic() && i == mt.NumIn()-1 {
				t = t.Elem()
			}
			if t.Kind() != reflect.Struct && (t.Kind() != reflect.Interface || t == tAny) {
				continue
			}
			k.par, k.ptt = i, t
			r = append(r, k)
		}
	}
	for i, f := range apiFns {
		add(consumer{f: i}, f.v.Type())
	}
	for i := range typeReps {
		p := typeReps[i]
		t := p.typ()
		seen := map[string]bool{}
		for _, s := range p.next() {
			if seen[s.m] {
				continue
			}
			seen[s.m] = true
			m, _ := t.MethodByName(s.m)
			add(consumer{on: &p, m: s.m}, methodType(t, m))
		}
	}
	return r
}

// result is the static type of what the call gives.
func (k consumer) result() reflect.Type {
	if k.on == nil {
		return apiFns[k.f].v.Type().Out(0)
	}
	m, _ := k.on.typ().MethodByName(k.m)
	return methodType(k.on.typ(), m).Out(0)
}

func (k consumer) name() string {
	if k.on == nil {
		return apiFns[k.f].name
	}
	return k.m
}

// places is the number of places at which the call takes the value: one, or several of a variadic call.
func (k consumer) places() int {
	t := k.fnType()
	if !t.IsVariadic() || k.par != t.NumIn()-1 {
		return 1
	}
	switch k.name() {
	case "Set":
		return 6 // targets and values
	case "Union", "UnionAll":
		return 4
	}
	return 3
}

func (k consumer) fnType() reflect.Type {
	if k.on == nil {
		return apiFns[k.f].v.Type()
	}
	m, _ := k.on.typ().MethodByName(k.m)
	return methodType(k.on.typ(), m)
}

// consume makes the call with the value as argument.
func (k consumer) consume(g *G, x reflect.Value) reflect.Value {
	if k.name() == "Set" {
		return k.consumeAt(g, x, 1) // the value, not the target
	}
	return k.consumeAt(g, x, 0)
}

// consumeAt makes the call with the value at one of the places.
func (k consumer) consumeAt(g *G, x reflect.Value, place int) reflect.Value {
	var fn reflect.Value
	if k.on == nil {
		fn = apiFns[k.f].v
	} else {
		fn = k.on.run(g).MethodByName(k.m)
	}
	v := 0
	if fn.Type().IsVariadic() {
		v = 1
	}
	as := g.args(k.name(), fn.Type(), v)
	i := k.par + place
	as[i] = reflect.New(k.ptt).Elem()
	if x.Kind() != reflect.Interface || !x.IsNil() {
		as[i].Set(reflect.ValueOf(x.Interface()))
	}
	return fn.Call(as)[0]
}

// valuesFor lists programs whose values fit a parameter.
func valuesFor(t reflect.Type) []prog {
	var r []prog
	for _, p := range typeReps {
		if p.typ().AssignableTo(t) {
			r = append(r, p)
		}
	}
	for _, f := range fluentRoots {
		p := prog{f: f, v: shapes(apiFns[f].v.Type()) - 1}
		if p.typ().AssignableTo(t) {
			r = append(r, p)
		}
	}
	return r
}

var valuesMemo = map[reflect.Type][]prog{}

func argumentHarness() *Harness {
	return &Harness{Prop: "C03", Name: "arguments", ShardDepth: 2,
		Rule: "every parameter of every function and method that takes a node, relationship, pattern, path, condition, expression, map, sort item or statement; every kind of value for it; the value used twice, continued by every call before and after, and completed: all of them render as if they were alone",
		Body: func(c *C) {
			k := consumers[c.Choose("consumer", len(consumers))]
			vs, ok := valuesMemo[k.ptt]
			if !ok {
				vs = valuesFor(k.ptt)
				valuesMemo[k.ptt] = vs
			}
			p := vs[c.Choose("value", len(vs))]
			ss := p.next()
			if !thorough() && len(ss) > 6 && p.typ().Implements(tExpr) {
				ss = ss[:6]
			}
			if len(ss) == 0 {
				ss = []apiStep{{}}
			}
			s := ss[c.Choose("call", len(ss))]
			c.Log("%s given to %s and continued by %v", p, k, s)
			alone := (&G{p: "z"}).observe(p.run(&G{p: "o"}))
			g := &G{p: "r"}
			used := g.observe(k.consume(g, p.run(&G{p: "o"})))
			on := func(x reflect.Value) string {
				if s.m == "" {
					return ""
				}
				g := &G{p: "a"}
				return g.observe(g.call(x, s))
			}
			cont := on(p.run(&G{p: "o"}))

			x := p.run(&G{p: "o"})
			g1 := &G{p: "r"}
			r1 := k.consume(g1, x)
			t1 := g1.observe(r1)
			c.same("the call given the value", t1, used)
			c.same("the value, continued after it was used", on(x), cont)
			c.same("the value, after it was used and continued", (&G{p: "z"}).observe(x), alone)
			g2 := &G{p: "q"}
			r2 := k.consume(g2, x)
			n1, n2 := &G{p: "r", n: g1.n}, &G{p: "q", n: g2.n}
			h2 := &G{p: "q"}
			other := k.consume(h2, p.run(&G{p: "o"}))
			c.same("another call given the value again", n2.observe(r2), h2.observe(other))
			h1 := &G{p: "r"}
			c.same("the first call, built again", (&G{p: "r", n: n1.n}).observe(r1), (&G{p: "r", n: n1.n}).observe(k.consume(h1, p.run(&G{p: "o"}))))

			y := p.run(&G{p: "o"})
			g3 := &G{p: "r"}
			r3 := k.consume(g3, y)
			c.same("the value, continued after it was given to a call", on(y), cont)
			c.same("the call given a value that was continued later", g3.observe(r3), used)

			z := p.run(&G{p: "o"})
			c.same("the continuation", on(z), cont)
			g4 := &G{p: "r"}
			c.same("the call given a value that was continued before", g4.observe(k.consume(g4, z)), used)
		}}
}

// grownArgumentHarness: values that are made by giving the value to the same call again and again.
func grownArgumentHarness() *Harness {
	return &Harness{Prop: "C03", Name: "grown-arguments", ShardDepth: 2,
		Rule: "every call whose result fits its own parameter, applied to its own result 0 to 7 times, then used in two calls of every such kind, in both orders of building",
		Body: func(c *C) {
			var ks []consumer
			for _, k := range consumers {
				var out reflect.Type
				if k.on == nil {
					out = apiFns[k.f].v.Type().Out(0)
				} else {
					t := k.on.typ()
					m, _ := t.MethodByName(k.m)
					out = methodType(t, m).Out(0)
				}
				if out.AssignableTo(k.ptt) {
					ks = append(ks, k)
				}
			}
			k := ks[c.Choose("grow", len(ks))]
			n := c.Choose("times", 8)
			var fit []consumer
			for _, q := range ks {
				if q.ptt == k.ptt {
					fit = append(fit, q)
				}
			}
			a, b := fit[c.Choose("one", len(fit))], k
			if k.ptt != tExpr && k.ptt != tCond || thorough() {
				b = fit[c.Choose("other", len(fit))]
			}
			c.Log("%s repeated %d times, then %s and %s", k, n, a, b)
			base := func() reflect.Value {
				g := &G{p: "o"}
				x := g.arg(k.ptt, 0)
				for i := 0; i < n; i++ {
					x = conv(k.ptt, k.consume(g, x).Interface())
				}
				return x
			}
			alone := func(q consumer, who string) string {
				g := &G{p: who}
				return g.observe(q.consume(g, base()))
			}
			wa, wb := alone(a, "a"), alone(b, "b")
			wo := (&G{p: "z"}).observe(base())
			x := base()
			ga, gb := &G{p: "a"}, &G{p: "b"}
			xa := a.consume(ga, x)
			xb := b.consume(gb, x)
			c.same("the first use", ga.observe(xa), wa)
			c.same("the second use", gb.observe(xb), wb)
			c.same("the value", (&G{p: "z"}).observe(x), wo)
		}}
}

// calls with a variable number of arguments, given as a slice of the caller
var variadics = func() []consumer {
	var r []consumer
	for i, f := range apiFns {
		if f.v.Type().IsVariadic() {
			r = append(r, consumer{f: i})
		}
	}
	for i := range typeReps {
		p := typeReps[i]
		t := p.typ()
		seen := map[string]bool{}
		for _, s := range p.next() {
			if seen[s.m] {
				continue
			}
			seen[s.m] = true
			m, _ := t.MethodByName(s.m)
			mt := methodType(t, m)
			if mt.IsVariadic() || s.m == "AddEntries" {
				r = append(r, consumer{on: &p, m: s.m})
			}
		}
	}
	return r
}()

func sliceHarness() *Harness {
	return &Harness{Prop: "C03", Name: "caller-slices", ShardDepth: 3,
		Rule: "every function and method with a variable number of arguments, called with a slice of the caller that has room to spare and elements behind its end; the result continued by every call; another slice that shares the memory given to the call in two ways; the caller's memory stays as it is and both results render as if they were alone",
		Body: func(c *C) {
			k := variadics[c.Choose("call", len(variadics))]
			extra := c.Choose("elements behind", 2)
			rest := c.Choose("overwritten", 2)
			var fn reflect.Value
			name := k.m
			g := &G{p: "o"}
			if k.on == nil {
				fn, name = apiFns[k.f].v, apiFns[k.f].name
			} else {
				fn = k.on.run(g).MethodByName(k.m)
			}
			t := fn.Type()
			var fixed []reflect.Value
			for i := 0; i < t.NumIn()-1; i++ {
				fixed = append(fixed, g.arg(t.In(i), 0))
			}
			st := t.In(t.NumIn() - 1)
			var vs []reflect.Value
			if name == "AddEntries" {
				for i := 0; i < 3; i++ {
					vs = append(vs, conv(tExpr, cy.EntryExpressionCreate(g.s(), cy.ASymbolic(g.s()))))
				}
			} else {
				vs = g.variadic(name, st.Elem(), 1)
			}
			mk := func(n int) reflect.Value {
				all := reflect.MakeSlice(st, 0, 16)
				all = reflect.Append(all, vs...)
				for i := 0; i < n; i++ {
					all = reflect.Append(all, vs[i%len(vs)])
				}
				return all
			}
			on := func(sl reflect.Value) reflect.Value {
				as := append(append([]reflect.Value(nil), fixed...), sl)
				if name == "AddEntries" {
					return fn.Call(as)[0]
				}
				return fn.CallSlice(as)[0]
			}
			whole := mk(3)
			part := whole.Slice(0, len(vs))
			exact := reflect.MakeSlice(st, 0, len(vs))
			exact = reflect.Append(exact, vs...)
			r := on(part)
			ss := apiSteps(r.Type())
			var s apiStep
			if len(ss) > 0 {
				s = ss[c.Choose("then", len(ss))]
			}
			c.Log("%s with a slice, then %v", k, s)
			text := func(x reflect.Value) string { return (&G{p: "z"}).observe(x) }
			cont := func(x reflect.Value) string {
				if s.m == "" {
					return ""
				}
				g := &G{p: "a"}
				return g.observe(g.call(x, s))
			}
			want, wantC := text(on(exact)), cont(on(exact))
			if rest == 0 {
				longer := whole.Slice(0, len(vs)+extra)
				wantL := text(on(reflect.AppendSlice(reflect.MakeSlice(st, 0, 8), longer)))
				r2 := on(longer)
				c.same("the continuation of a call with a slice", cont(r), wantC)
				c.same("a call with a slice", text(r), want)
				c.same("a call with another slice of the same memory", text(r2), wantL)
				c.same("a call with the slice again", text(on(part)), want)
				c.same("a call with the other slice again", text(on(longer)), wantL)
				for i := 0; i < whole.Len(); i++ {
					if !reflect.DeepEqual(whole.Index(i).Interface(), vs[i%len(vs)].Interface()) {
						c.Fail("element %d of the caller's slice was changed", i)
					}
				}
				tail := whole.Slice3(whole.Len(), whole.Len()+4, whole.Len()+4)
				for i := 0; i < tail.Len(); i++ {
					if !tail.Index(i).IsZero() {
						c.Fail("the memory behind the caller's slice was written")
					}
				}
				return
			}
			// the caller uses its memory for something else
			var others []reflect.Value
			h := &G{p: "w"}
			if name == "AddEntries" {
				for i := 0; i < 3; i++ {
					others = append(others, conv(tExpr, cy.EntryExpressionCreate(h.s(), cy.ASymbolic(h.s()))))
				}
			} else {
				others = h.variadic(name, st.Elem(), 1)
			}
			for i := range vs {
				part.Index(i).Set(others[i])
			}
			c.same("a call with a slice the caller used for something else later", text(r), want)
			c.same("the continuation of a call with a slice the caller used for something else later", cont(r), wantC)
		}}
}

// repeatHarness: building and rendering again gives the same text.
func repeatHarness() *Harness {
	return &Harness{Prop: "C01", Name: "repeated", ShardDepth: 2,
		Rule: "every function and every call on its value up to a depth, with distinct and with repeating names: built three times, rendered by one renderer again and again, by a new one, by one that rendered other statements or an error before, and the whole program run again",
		Body: func(c *C) {
			p := c.chooseProg(dep(2, 3))
			cycle := c.Choose("names", 2) * 2
			mk := func() *G { return &G{p: "n", cycle: cycle} }
			g := mk()
			x := p.run(g)
			n := g.n
			build := func() (cy.Statement, error) { return (&G{p: "n", cycle: cycle, n: n}).complete(x) }
			s, err := build()
			want := show(s, err)
			c.Log("%s: %s", p, want)
			s2, err2 := build()
			c.same("the program, built again,", show(s2, err2), want)
			h := mk()
			c.same("the program, run again,", h.observe(p.run(h)), want)
			if err != nil || s == nil {
				return
			}
			with := func(r *cy.CypherRenderer, s cy.Statement) string {
				t, err := r.Render(s)
				if err != nil {
					return "error"
				}
				return t
			}
			one := cy.NewRenderer()
			for i := 0; i < 4; i++ {
				c.same("the statement, rendered again by the same renderer,", with(one, s), want)
			}
			used := cy.NewRenderer()
			og := mk()
			other, _ := cy.Match(og.node(), og.rel()).Where(og.cond(2)).Returning(og.expr(1), og.expr(2), og.expr(13), og.expr(12)).Build()
			first := with(used, other)
			used.Render(nil)
			used.Render(cy.Union())
			c.same("the statement, rendered by a renderer used for others,", with(used, s), want)
			c.same("another statement, rendered again after it,", with(used, other), first)
			s3, err3 := build()
			c.same("the program, built after all that,", show(s3, err3), want)
			c.same("the statement built first", show(s, err), want)
		}}
}

// the programs of which histories are made; their names repeat so that they meet
var histProgs = func() []prog {
	var r []prog
	r = append(r, typeReps...)
	for _, f := range fluentRoots {
		r = append(r, prog{f: f, v: shapes(apiFns[f].v.Type()) - 1})
	}
	return r
}

func histText(p prog) string {
	g := &G{p: "n", cycle: 3}
	return g.observe(p.run(g))
}

func histAll() []prog {
	var r []prog
	for f := range apiFns {
		for v := 0; v < shapes(apiFns[f].v.Type()); v++ {
			p := prog{f: f, v: v}
			r = append(r, p)
			if alike[apiFns[f].name] {
				continue
			}
			for _, s := range p.next() {
				r = append(r, p.then(s))
			}
		}
	}
	return append(r, typeReps...)
}

// soloProcess runs a program in a process of its own.
func soloProcess(i int) string {
	self, _ := os.Executable()
	out, err := exec.Command(self, "solo", strconv.Itoa(i)).Output()
	if err != nil {
		return "process: " + err.Error()
	}
	return string(out)
}

var aloneMemo = map[int]string{}

// historyHarness: what was built before does not matter.
func historyHarness() *Harness {
	return &Harness{Prop: "C01", Name: "histories", ShardDepth: 1,
		Rule: "all pairs of a program (every function, every call on its value, every type that can be reached) and a program run before it, with the same few names in both; compared with the program run in a process of its own",
		Body: func(c *C) {
			ps := histMemo()
			i := c.Choose("program", len(ps))
			p := ps[i]
			want, ok := aloneMemo[i]
			if !ok {
				want = soloProcess(i)
				aloneMemo[i] = want
			}
			c.same("the program, in this process,", histText(p), want)
			qs := histProgsMemo
			if thorough() {
				qs = ps
			}
			q := qs[c.Choose("before", len(qs))]
			c.Log("%s after %s", p, q)
			qt := histText(q)
			c.same("the program", histText(p), want)
			c.same("the program that was run before", histText(q), qt)
		}}
}

var histProgsMemo []prog
var histAllMemo []prog

func histMemo() []prog {
	if histAllMemo == nil {
		histAllMemo = histAll()
		histProgsMemo = histProgs()
	}
	return histAllMemo
}

func globalHarnesses() []*Harness {
	return []*Harness{repeatHarness(), historyHarness(), longHistories(), branchHarness(), grownHarness(), argumentHarness(), grownArgumentHarness(), sliceHarness()}
}

var _ = cy.Match
