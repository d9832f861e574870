package main

// C23: tasks that build and render at the same time. The schedule explorations run in a build of the library in which
// the scheduler decides at every function start or statement who goes on; the race explorations run in the same build
// with the race detector, to which the scheduler is invisible: whatever the library does not order itself counts as
// concurrent, in every schedule.

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// a plan is a program in plain calls, worked out before the tasks start
type plan struct {
	prog prog
	base []func(g *G, x interface{}) interface{} // makes the value
	end  func(g *G, x interface{}) (cy.Statement, error)
}

func planSteps(t reflect.Type, ss ...apiStep) (fs []func(g *G, x interface{}) interface{}, out reflect.Type) {
	for _, s := range ss {
		f := genStep[stepKey(t, s)]
		if f == nil {
			panic("no call " + stepKey(t, s))
		}
		fs = append(fs, f)
		m, _ := t.MethodByName(s.m)
		t = methodType(t, m).Out(0)
	}
	return fs, t
}

func planOf(p prog) []func(g *G, x interface{}) interface{} {
	st := genStart[fmt.Sprintf("%s/%d", apiFns[p.f].name, p.v)]
	fs := []func(g *G, x interface{}) interface{}{func(g *G, _ interface{}) interface{} { return st(g) }}
	more, _ := planSteps(prog{f: p.f, v: p.v}.typ(), p.steps...)
	return append(fs, more...)
}

func runPlan(fs []func(g *G, x interface{}) interface{}, g *G, x interface{}) interface{} {
	for _, f := range fs {
		x = f(g, x)
	}
	return x
}

// planEnd completes a value of a static type.
func planEnd(t reflect.Type) func(g *G, x interface{}) (cy.Statement, error) {
	var fs []func(g *G, x interface{}) interface{}
	for i := 0; i < 8; i++ {
		switch {
		case hasMethod(t, "Build") && t.Implements(tBuildable):
			return func(g *G, x interface{}) (cy.Statement, error) {
				return runPlan(fs, g, x).(cy.BuildableStatement).Build()
			}
		case t.Implements(tStmt):
			return func(g *G, x interface{}) (cy.Statement, error) {
				s := runPlan(fs, g, x).(cy.Statement)
				return s, s.GetError()
			}
		case t.Implements(tPattern):
			return func(g *G, x interface{}) (cy.Statement, error) {
				return cy.Match(runPlan(fs, g, x).(cy.PatternElement)).Returning(cy.AnAsterisk()).Build()
			}
		case t == tCondC:
			fs = append(fs, func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Get() })
			t = tCond
			continue
		case t == tExprC:
			fs = append(fs, func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).Get() })
			t = tExpr
			continue
		case t == tSort:
			return func(g *G, x interface{}) (cy.Statement, error) {
				return cy.CypherReturning(cy.ASymbolic(g.s())).OrderBySortItem(runPlan(fs, g, x).(cy.SortItem)).Build()
			}
		case t.Implements(tCond):
			return func(g *G, x interface{}) (cy.Statement, error) {
				return cy.Match(cy.AnyNode()).Where(runPlan(fs, g, x).(cy.Condition)).Returning(cy.AnAsterisk()).Build()
			}
		case t.Implements(tExpr) && t != tCase:
			return func(g *G, x interface{}) (cy.Statement, error) {
				return cy.CypherReturning(runPlan(fs, g, x).(cy.Expression)).Build()
			}
		}
		found := false
		for _, m := range []string{"Then", "When", "Returning", "DefinedBy", "In", "Where", "As", "Set", "Ascending", "YieldString", "AsFunction"} {
			if hasMethod(t, m) {
				more, u := planSteps(t, apiStep{m, 0})
				fs, t = append(fs, more...), u
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	return func(g *G, x interface{}) (cy.Statement, error) { return nil, fmt.Errorf("not completed") }
}

// a job is what a task does with a value
type job struct {
	name string
	run  func(g *G, x interface{}) (cy.Statement, error)
}

// jobs of a static type: complete it, or make a call on it and complete that
func jobsOf(t reflect.Type, all bool) []job {
	k := fmt.Sprint(t, all)
	if jobsMemo[k] == nil {
		jobsMemo[k] = makeJobs(t, all)
	}
	return jobsMemo[k]
}

var jobsMemo = map[string][]job{}

func makeJobs(t reflect.Type, all bool) []job {
	end := planEnd(t)
	r := []job{{"complete", end}}
	for _, s := range apiSteps(t) {
		if s.v != 0 && !all {
			continue
		}
		fs, u := planSteps(t, s)
		e := planEnd(u)
		r = append(r, job{fmt.Sprint(s), func(g *G, x interface{}) (cy.Statement, error) { return e(g, runPlan(fs, g, x)) }})
	}
	return r
}

// kinds of programs that are no API path: every kind of expression, condition, pattern
type fragment struct {
	name string
	make func(g *G) interface{}
	typ  reflect.Type
}

var fragments = func() []fragment {
	var r []fragment
	for k := 0; k < nGExprs; k++ {
		k := k
		r = append(r, fragment{fmt.Sprintf("expression %d", k), func(g *G) interface{} { return g.expr(k) }, tExpr})
	}
	for k := 0; k < nGConds; k++ {
		k := k
		r = append(r, fragment{fmt.Sprintf("condition %d", k), func(g *G) interface{} { return g.cond(k) }, tCond})
	}
	r = append(r, fragment{"chain", func(g *G) interface{} {
		return g.chain().RelationshipTo(g.node().WithRawProperties(g.s(), g.expr(0)), g.s())
	}, tChain},
		fragment{"statement", func(g *G) interface{} { return g.rich() }, tStmt},
		fragment{"updates", func(g *G) interface{} { return g.richUpdate() }, tStmt},
		fragment{"union", func(g *G) interface{} { return cy.UnionAll(g.stmt(), g.stmt(), g.stmt()) }, tStmt},
		fragment{"odd names", func(g *G) interface{} {
			return cy.CypherReturning(cy.ASymbolic(g.s()+" x").As(g.s()+"`y").Get(), cy.LiteralOf(g.s()+"'\\"), cy.AProperty(g.s()+"-", g.s()+"+"))
		}, ty[cy.OngoingReadingAndReturn]()})
	return r
}()

// rich is a statement with most clauses.
func (g *G) rich() cy.Statement {
	n := g.node()
	r := g.rel()
	s, err := cy.Match(n, r).Where(g.cond(1)).And(g.cond(2)).
		OptionalMatch(g.chain()).
		With(g.expr(0), g.expr(1)).
		UnwindByString(g.s()).As(g.s()).
		Call(g.stmt()).
		Returning(g.expr(3), g.expr(7), g.expr(8), g.expr(14)).OrderBySortItem(cy.Sort(g.expr(0)).Descending()).Skip(2).Limit(g.i()).Build()
	if err != nil {
		panic(err)
	}
	return s
}

func (g *G) richUpdate() cy.Statement {
	s, err := cy.Merge(g.node()).OnCreate().Set(cy.AProperty(g.s(), g.s()), g.expr(0)).OnMatch().Set(cy.AProperty(g.s(), g.s()), g.expr(4)).
		Set(cy.AProperty(g.s(), g.s()), g.expr(6)).Remove(cy.AProperty(g.s(), g.s())).Create(g.rel()).Returning(g.expr(0)).Build()
	if err != nil {
		panic(err)
	}
	return s
}

var schedCount int

// prefix gives names that were not used before, so that nothing the library may have remembered fits.
func schedPrefix() string {
	schedCount++
	return fmt.Sprintf("q%07dq", schedCount)
}

// observation renders and gives the names of the task their canonical form.
func observation(s cy.Statement, err error) string {
	if err != nil {
		return "error"
	}
	t, err := cy.NewRenderer().Render(s)
	if err != nil {
		return "error"
	}
	return t
}

// a scene is a set of tasks over shared or separate values
type scene struct {
	key    string
	shared func(g *G) interface{} // nil: every task makes its own
	tasks  []sceneTask
	names  int
}

// the names tasks use: new ones, new ones that each task repeats, new ones that the tasks have in common
const (
	namesOwn = iota
	namesRepeated
	namesCommon
	nNames
)

type sceneTask struct {
	name string
	own  func(g *G) interface{} // makes the value when nothing is shared
	do   job
}

func (sc scene) String() string {
	r := sc.key + []string{"", " (names repeat)", " (names in common)"}[sc.names] + ":"
	for _, t := range sc.tasks {
		r += " | " + t.name + " " + t.do.name
	}
	return r
}

type aloneResult struct {
	text   string
	points int
}

var schedMemo = map[string]aloneResult{}

// prepared makes the tasks of a scene with fresh names; shared values are made before the tasks start.
func (sc scene) prepared(level int) (s *sched, names []string) {
	o := schedPrefix()
	var x interface{}
	if sc.shared != nil {
		x = sc.shared(&G{p: o})
	}
	s = &sched{level: level}
	names = append(names, o)
	for _, t := range sc.tasks {
		t := t
		p := schedPrefix()
		if sc.names == namesCommon && len(names) > 1 {
			p = names[1]
		}
		names = append(names, p)
		s.tasks = append(s.tasks, &task{body: func() string {
			g := &G{p: p}
			if sc.names == namesRepeated {
				g.cycle = 1
			}
			v := x
			if sc.shared == nil {
				v = t.own(g)
			}
			return observation(t.do.run(g, v))
		}})
	}
	return s, names
}

func canonical(text, o, p string) string {
	return strings.ReplaceAll(strings.ReplaceAll(text, o, "o"), p, "t")
}

// alone is what a task of the scene gives when it is the only one, and the number of its points.
func (sc scene) alone(i, level int) aloneResult {
	t := sc.tasks[i]
	k := fmt.Sprint(sc.key, sc.shared != nil, t.name, t.do.name, level, sc.names == namesRepeated)
	if r, ok := schedMemo[k]; ok {
		return r
	}
	one := scene{key: sc.key, shared: sc.shared, names: sc.names, tasks: []sceneTask{t}}
	s, names := one.prepared(level)
	s.play(nil)
	r := aloneResult{canonical(s.tasks[0].text, names[0], names[1]), s.tasks[0].points}
	if s.tasks[0].panicv != nil {
		r.text = fmt.Sprintf("panic: %v", s.tasks[0].panicv)
	}
	if len(schedMemo) > 20000 {
		schedMemo = map[string]aloneResult{}
	}
	schedMemo[k] = r
	return r
}

// schedules explores the schedules of a scene with up to bound preemptions and compares what every task gets.
func (c *C) schedules(sc scene, level, bound int) {
	c.Log("%s", sc)
	want := make([]aloneResult, len(sc.tasks))
	for i := range sc.tasks {
		want[i] = sc.alone(i, level)
	}
	var segs []seg
	left := make([]int, len(sc.tasks)) // points each task still has
	done := make([]bool, len(sc.tasks))
	for i := range left {
		left[i] = want[i].points
	}
	last := -1
	for b := 0; ; {
		// who goes on: when a task was preempted, another one
		var can []int
		for i := range sc.tasks {
			if !done[i] && i != last {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			break // the rest runs by itself
		}
		t := can[0]
		if len(can) > 1 {
			t = can[c.Choose("task", len(can))]
		}
		others := false
		for i := range sc.tasks {
			others = others || i != t && !done[i]
		}
		n := left[t]
		if b < bound && others {
			n = c.Choose("points", left[t]+1)
		}
		if n >= left[t] {
			segs = append(segs, seg{t, -1})
			done[t] = true
			last = -1
		} else {
			segs = append(segs, seg{t, n})
			left[t] -= n
			last = t
			b++
		}
	}
	c.play(sc, level, segs, want)
}

func (c *C) play(sc scene, level int, segs []seg, want []aloneResult) {
	c.Log("schedule %v", segs)
	s, names := sc.prepared(level)
	s.play(segs)
	if s.dead {
		c.Fail("the tasks of %s wait for each other", sc)
		return
	}
	for i, t := range s.tasks {
		c.checks++
		got := canonical(t.text, names[0], names[i+1])
		if t.panicv != nil {
			got = fmt.Sprintf("panic: %v", t.panicv)
		}
		c.State(sc.key + got)
		if want != nil && got != want[i].text {
			c.Fail("%s: task %d got\n  %q\n  but alone\n  %q", sc, i, got, want[i].text)
		}
	}
}

func sharedProg(p prog) func(g *G) interface{} {
	fs := planOf(p)
	return func(g *G) interface{} { return runPlan(fs, g, nil) }
}

// sources are the values tasks start from: every type of the API and every kind of fragment
type source struct {
	name string
	make func(g *G) interface{}
	typ  reflect.Type
}

var sourcesMemo []source

func sources() []source {
	if sourcesMemo == nil {
		for _, f := range fragments {
			sourcesMemo = append(sourcesMemo, source{f.name, f.make, f.typ})
		}
		for _, p := range typeReps {
			sourcesMemo = append(sourcesMemo, source{p.String(), sharedProg(p), p.typ()})
		}
	}
	return sourcesMemo
}

var rootsMemo []source

func allRoots() []source {
	if rootsMemo != nil {
		return rootsMemo
	}
	var r []source
	for i, f := range apiFns {
		for v := 0; v < shapes(f.v.Type()); v++ {
			p := prog{f: i, v: v}
			r = append(r, source{p.String(), sharedProg(p), p.typ()})
		}
	}
	rootsMemo = r
	return r
}

// pair is a scene of n tasks over one source.
func pairScene(src source, shared bool, js ...job) scene {
	sc := scene{key: src.name}
	if shared {
		sc.shared = src.make
	}
	for _, j := range js {
		sc.tasks = append(sc.tasks, sceneTask{src.name, src.make, j})
	}
	return sc
}

func (c *C) choosePair(all bool) scene {
	ss := sources()
	src := ss[c.Choose("value", len(ss))]
	js := jobsOf(src.typ, all)
	a := c.Choose("job", len(js))
	b := []int{a, 0}[c.Choose("other", 2)]
	if a == 0 && b == 0 && len(js) > 1 && c.path[len(c.path)-1] == 1 {
		b = 1
	}
	return pairScene(src, true, js[a], js[b])
}

// the first thing a process does with the library
func coldScenes() []scene {
	if coldMemo != nil {
		return coldMemo
	}
	var r []scene
	for _, src := range append(append([]source{}, sources()...), allRoots()...) {
		j := job{"complete", planEnd(src.typ)}
		r = append(r, pairScene(src, false, j, j))
	}
	coldMemo = r
	return r
}

var coldMemo []scene

// cold runs a scene in a process of its own: the library has not done anything there before.
func (c *C) cold(i int, args ...int) {
	self, _ := os.Executable()
	as := []string{"cold", strconv.Itoa(i)}
	for _, a := range args {
		as = append(as, strconv.Itoa(a))
	}
	cmd := exec.Command(self, as...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	out, err := cmd.CombinedOutput()
	c.checks++
	c.State(fmt.Sprint(i, args))
	if err != nil {
		c.Fail("in a new process, scene %d %v: %v: %s", i, args, err, firstLines(string(out), 14))
	}
}

// coldMain is the process of cold: which task goes first, and after how many points it is preempted (negative: not).
func coldMain(args []string) int {
	var v []int
	for _, a := range args {
		n, _ := strconv.Atoi(a)
		v = append(v, n)
	}
	sc := coldScenes()[v[0]]
	s, names := sc.prepared(0)
	first, n := v[1], v[2]
	segs := []seg{{first, n}, {1 - first, -1}}
	s.play(segs)
	if s.dead {
		fmt.Println("the tasks wait for each other")
		return 1
	}
	rc := 0
	for i, t := range s.tasks {
		want := sc.alone(i, 0).text
		got := canonical(t.text, names[0], names[i+1])
		if t.panicv != nil {
			got = fmt.Sprintf("panic: %v", t.panicv)
		}
		if got != want {
			fmt.Printf("%s: task %d got %q but alone %q\n", sc, i, got, want)
			rc = 1
		}
	}
	return rc
}

func schedHarnesses() []*Harness {
	sharedRule := "two tasks over one shared value of every type that can be reached and every kind of fragment: every call on it (against the same call and against completing it), completed and rendered; "
	return []*Harness{
		{Prop: "C23", Name: "shared-values", Bin: "sched", ShardDepth: 3,
			Rule: sharedRule + "every schedule with one preemption (thorough: two) at a function start",
			Body: func(c *C) { c.schedules(c.choosePair(thorough()), 0, dep(1, 2)) }},
		{Prop: "C23", Name: "shared-statements", Bin: "sched", ShardDepth: 3,
			Rule: "two tasks that complete and render one shared value; every schedule with one preemption at any statement",
			Body: func(c *C) {
				ss := sources()
				src := ss[c.Choose("value", len(ss))]
				j := jobsOf(src.typ, false)[0]
				c.schedules(pairScene(src, true, j, j), 1, 1)
			}},
		{Prop: "C23", Name: "separate-values", Bin: "sched", ShardDepth: 3,
			Rule: "two tasks that build and render values of their own, of every type and every kind of fragment; names of their own, repeated and in common; every schedule with one preemption at any statement",
			Body: func(c *C) {
				ss := sources()
				src := ss[c.Choose("value", len(ss))]
				j := jobsOf(src.typ, false)[0]
				sc := pairScene(src, false, j, j)
				sc.names = c.Choose("names", nNames)
				c.schedules(sc, 1, 1)
			}},
		{Prop: "C23", Name: "two-preemptions", Bin: "sched", ShardDepth: 4,
			Rule: "two tasks that build and render values of their own or one shared, of every kind of fragment (quick: those with up to 120 function starts); names of their own, repeated and in common; every schedule with two preemptions at function starts",
			Body: func(c *C) {
				src := sources()[c.Choose("value", len(fragments))]
				j := jobsOf(src.typ, false)[0]
				sc := pairScene(src, c.Bool("shared"), j, j)
				sc.names = c.Choose("names", nNames)
				if !thorough() && sc.alone(0, 0).points > dep(120, 100000) {
					return
				}
				c.schedules(sc, 0, 2)
			}},
		{Prop: "C23", Name: "mixed-pairs", Bin: "sched", ShardDepth: 3,
			Rule: "two tasks that build and render different kinds of fragments, all pairs; names of their own (thorough: also repeated and in common); every schedule with one preemption at a function start",
			Body: func(c *C) {
				a := sources()[c.Choose("one", len(fragments))]
				b := sources()[c.Choose("other", len(fragments))]
				sc := scene{key: a.name + " and " + b.name}
				for _, s := range []source{a, b} {
					sc.tasks = append(sc.tasks, sceneTask{s.name, s.make, jobsOf(s.typ, false)[0]})
				}
				sc.names = c.Choose("names", dep(1, nNames))
				c.schedules(sc, 0, 1)
			}},
		{Prop: "C23", Name: "three-tasks", Bin: "sched", ShardDepth: 4,
			Rule: "three tasks that build and render values of their own or one shared, of every kind of fragment; every schedule with one preemption at a function start",
			Body: func(c *C) {
				src := sources()[c.Choose("value", len(fragments))]
				j := jobsOf(src.typ, false)[0]
				c.schedules(pairScene(src, c.Bool("shared"), j, j, j), 0, 1)
			}},
		{Prop: "C23", Name: "first-use", Bin: "sched", ShardDepth: 2,
			Rule: "in a new process for every schedule: two tasks that build and render values of every type and by every function as the first thing that process does; not preempted, and (fragments) preempted once at every function start",
			Body: func(c *C) {
				scs := coldScenes()
				i := c.Choose("scene", len(scs))
				n := -1
				if (thorough() || i < len(fragments)) && c.Bool("preempted") {
					n = c.Choose("points", scs[i].alone(0, 0).points)
				}
				c.cold(i, 0, n)
			}},
		{Prop: "C23", Name: "races-shared-values", Bin: "race", ShardDepth: 2,
			Rule: sharedRule + "no preemption, both orders; every pair of conflicting accesses that the library does not order is a race",
			Body: func(c *C) { c.schedules(c.choosePair(true), 0, 0) }},
		{Prop: "C23", Name: "races-separate-values", Bin: "race", ShardDepth: 2,
			Rule: "two tasks that build and render values of their own, of every type and by every function, every call on them; no preemption; every pair of conflicting accesses that the library does not order is a race",
			Body: func(c *C) {
				ss := append(append([]source{}, sources()...), allRoots()...)
				src := ss[c.Choose("value", len(ss))]
				js := jobsOf(src.typ, true)
				j := js[c.Choose("job", len(js))]
				sc := pairScene(src, false, j, j)
				sc.names = c.Choose("names", nNames)
				c.schedules(sc, 0, 0)
			}},
		{Prop: "C23", Name: "races-mixed-pairs", Bin: "race", ShardDepth: 2,
			Rule: "two tasks that build and render different kinds of fragments, all pairs, both orders; every pair of conflicting accesses that the library does not order is a race",
			Body: func(c *C) {
				a := sources()[c.Choose("one", len(fragments))]
				b := sources()[c.Choose("other", len(fragments))]
				sc := scene{key: a.name + " and " + b.name}
				for _, s := range []source{a, b} {
					sc.tasks = append(sc.tasks, sceneTask{s.name, s.make, jobsOf(s.typ, false)[0]})
				}
				sc.names = c.Choose("names", nNames)
				c.schedules(sc, 0, 0)
			}},
		{Prop: "C23", Name: "races-first-use", Bin: "race", ShardDepth: 1,
			Rule: "in a new process: two tasks that build and render values of every type and by every function as the first thing that process does; every pair of conflicting accesses that the library does not order is a race",
			Body: func(c *C) {
				scs := coldScenes()
				c.cold(c.Choose("scene", len(scs)), 0, -1)
			}},
	}
}
