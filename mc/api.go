package main

// The exported API as one transition system: values are found by calling functions (the roots) and then any of the
// methods of their static type, with arguments made for the parameter types. Every value can be completed to a
// statement, whose text is what can be observed of it. Nothing here says what the text should be: the explorations
// that use it compare executions of the library with each other.

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var (
	tExpr      = ty[cy.Expression]()
	tCond      = ty[cy.Condition]()
	tNamed     = ty[cy.Named]()
	tPattern   = ty[cy.PatternElement]()
	tRelPat    = ty[cy.RelationshipPattern]()
	tNode      = ty[cy.Node]()
	tRel       = ty[cy.Relationship]()
	tChain     = ty[cy.RelationshipChain]()
	tPath      = ty[cy.NamedPath]()
	tSym       = ty[cy.SymbolicName]()
	tAliased   = ty[cy.AliasedExpression]()
	tProp      = ty[cy.Property]()
	tMap       = ty[cy.MapExpression]()
	tSort      = ty[cy.SortItem]()
	tCondC     = ty[cy.ConditionContainer]()
	tExprC     = ty[cy.ExpressionContainer]()
	tStmt      = ty[cy.Statement]()
	tParam     = ty[cy.Parameter]()
	tAny       = ty[interface{}]()
	tString    = ty[string]()
	tInt       = ty[int]()
	tFloat     = ty[float64]()
	tBool      = ty[bool]()
	tExprs     = ty[[]cy.Expression]()
	tLoc       = ty[*time.Location]()
	tBuildable = ty[cy.BuildableStatement]()
	tErr       = ty[error]()
	tCase      = ty[cy.Case]()
)

type apiFn struct {
	name string
	v    reflect.Value
}

// apiFns are the functions a user starts from.
var apiFns = func() []apiFn {
	m := map[string]interface{}{
		"NewNodeWithLabels": cy.NewNodeWithLabels, "NewNodeWithProperties": cy.NewNodeWithProperties, "ANode": cy.ANode,
		"AnyNode": cy.AnyNode, "AnyNodeNamed": cy.AnyNodeNamed, "AnAsterisk": cy.AnAsterisk, "AProperty": cy.AProperty,
		"APropertyByExpression": cy.APropertyByExpression, "APath": cy.APath, "APathBySymbolic": cy.APathBySymbolic,
		"AShortestPath": cy.AShortestPath, "AShortestPathBySymbolic": cy.AShortestPathBySymbolic, "ASymbolic": cy.ASymbolic,
		"AParam": cy.AParam, "Sort": cy.Sort, "MapOf": cy.MapOf, "ListOf": cy.ListOf, "ListOfRaw": cy.ListOfRaw,
		"LiteralTrue": cy.LiteralTrue, "LiteralFalse": cy.LiteralFalse, "LiteralOf": cy.LiteralOf,
		"Union": cy.Union, "UnionAll": cy.UnionAll, "CypherReturning": cy.CypherReturning, "ListBasedOn": cy.ListBasedOn,
		"ListBasedOnNamed": cy.ListBasedOnNamed, "CypherListWith": cy.CypherListWith, "GenericCaseExpression": cy.GenericCaseExpression,
		"CaseExpression": cy.CaseExpression, "ACallSimple": cy.ACallSimple, "ACall": cy.ACall, "ACallByStatement": cy.ACallByStatement,
		"StatementCall": cy.StatementCall, "ASubList": cy.ASubList, "CypherSubListFrom": cy.CypherSubListFrom,
		"ASubListFromByExpression": cy.ASubListFromByExpression, "ASubListUntil": cy.ASubListUntil,
		"CypherSubListUntilByExpression": cy.CypherSubListUntilByExpression, "CypherValueAt": cy.CypherValueAt,
		"CypherValueAtByExpression": cy.CypherValueAtByExpression, "SubList": cy.SubList, "Unwind": cy.Unwind, "UnwindMulti": cy.UnwindMulti,
		"Match": cy.Match, "AnOptionalMatch": cy.AnOptionalMatch, "MatchWithOption": cy.MatchWithOption,
		"Create": cy.Create, "Merge": cy.Merge, "With": cy.With, "WithByNamed": cy.WithByNamed, "WithByString": cy.WithByString,
		"PredicateAll": cy.PredicateAll, "PredicateAny": cy.PredicateAny, "PredicateNone": cy.PredicateNone, "PredicateSingle": cy.PredicateSingle,
		"PredicateAllBySymbolicName": cy.PredicateAllBySymbolicName, "PredicateExists": cy.PredicateExists,
		"PredicateExistsByPattern": cy.PredicateExistsByPattern, "ConditionsNot": cy.ConditionsNot, "ConditionsNotByPattern": cy.ConditionsNotByPattern,
		"ConditionsNoCondition": cy.ConditionsNoCondition, "ConditionsIsTrue": cy.ConditionsIsTrue, "ConditionsIsFalse": cy.ConditionsIsFalse,
		"ConditionWrap": cy.ConditionWrap, "ExpressionWrap": cy.ExpressionWrap, "AliasedExpressionCreate": cy.AliasedExpressionCreate,
		"RelationshipPatternConditionCreate": cy.RelationshipPatternConditionCreate, "EntryExpressionCreate": cy.EntryExpressionCreate,
		"OperationAdd": cy.OperationAdd, "OperationConcat": cy.OperationConcat, "OperationDivide": cy.OperationDivide,
		"OperationMultiply": cy.OperationMultiply, "OperationPow": cy.OperationPow, "OperationRemainder": cy.OperationRemainder,
		"OperationSubtract": cy.OperationSubtract,
		"Avg":               cy.Avg, "CollectDistinct": cy.CollectDistinct, "CollectByNamed": cy.CollectByNamed, "Coalesce": cy.Coalesce, "Count": cy.Count,
		"CountByExpression": cy.CountByExpression, "CountDistinct": cy.CountDistinct, "Date": cy.Date, "DateWithComponents": cy.DateWithComponents,
		"CalendarDate": cy.CalendarDate, "DateTimeWithExpression": cy.DateTimeWithExpression, "DateTimeWithTemporal": cy.DateTimeWithTemporal,
		"Distance": cy.Distance, "EndNode": cy.EndNode, "StartNode": cy.StartNode, "Exists": cy.Exists, "FunctionProperties": cy.FunctionProperties,
		"FunctionPropertiesByRelationship": cy.FunctionPropertiesByRelationship, "FunctionType": cy.FunctionType, "IdByNode": cy.IdByNode,
		"IdByRelationship": cy.IdByRelationship, "Labels": cy.Labels, "Nodes": cy.Nodes, "Relationships": cy.Relationships,
		"PercentileCont": cy.PercentileCont, "Point": cy.Point, "PointByParameter": cy.PointByParameter,
		"PropertiesByMapExpression": cy.PropertiesByMapExpression, "Range": cy.Range, "RangeRaw": cy.RangeRaw, "RangeWithStep": cy.RangeWithStep,
		"ShortestPath": cy.ShortestPath, "SizeByPattern": cy.SizeByPattern, "Size": cy.Size, "Max": cy.Max, "LocalTimeWithTimezone": cy.LocalTimeWithTimezone,
		"AvgDistinct": cy.AvgDistinct, "Collect": cy.Collect, "CollectDistinctByNamed": cy.CollectDistinctByNamed, "DateTimeWithComponents": cy.DateTimeWithComponents,
		"DateWithExpression": cy.DateWithExpression, "DateWithTemporal": cy.DateWithTemporal, "Datetime": cy.Datetime,
		"DurationWithComponents": cy.DurationWithComponents, "DurationWithExpression": cy.DurationWithExpression, "DurationWithTemporal": cy.DurationWithTemporal,
		"Head": cy.Head, "Last": cy.Last, "LocalDateTimeWithComponents": cy.LocalDateTimeWithComponents, "LocalDateTimeWithExpression": cy.LocalDateTimeWithExpression,
		"LocalDateTimeWithTemporal": cy.LocalDateTimeWithTemporal, "LocalDateTimeWithTimezone": cy.LocalDateTimeWithTimezone,
		"LocalDatetime": cy.LocalDatetime, "LocalTimeWithComponents": cy.LocalTimeWithComponents, "LocalTimeWithExpression": cy.LocalTimeWithExpression,
		"LocalTimeWithTemporal": cy.LocalTimeWithTemporal, "Localtime": cy.Localtime, "MaxDistinct": cy.MaxDistinct,
		"Min": cy.Min, "MinDistinct": cy.MinDistinct, "OrdinalDate": cy.OrdinalDate, "PercentileContDistinct": cy.PercentileContDistinct,
		"PercentileDisc": cy.PercentileDisc, "PercentileDiscDistinct": cy.PercentileDiscDistinct, "QuarterDate": cy.QuarterDate,
		"RangeWithStepRaw": cy.RangeWithStepRaw, "StDev": cy.StDev, "StDevDistinct": cy.StDevDistinct, "StDevP": cy.StDevP,
		"StDevPDistinct": cy.StDevPDistinct, "Sum": cy.Sum, "SumDistinct": cy.SumDistinct, "Time": cy.Time, "TimeWithComponents": cy.TimeWithComponents,
		"TimeWithExpression": cy.TimeWithExpression, "TimeWithTemporal": cy.TimeWithTemporal, "TimeWithTimeZone": cy.TimeWithTimeZone,
		"ToLower": cy.ToLower, "WeekDate": cy.WeekDate, "CountDistinctByExpression": cy.CountDistinctByExpression, "SubListFrom": cy.SubListFrom,
		"SubListUntil": cy.SubListUntil, "ValueAt": cy.ValueAt, "ListComprehensionWith": cy.ListComprehensionWith, "PatternComprehensionBasedOn": cy.PatternComprehensionBasedOn,
		"PatternComprehensionBasedOnNamePath": cy.PatternComprehensionBasedOnNamePath, "PredicateAnyBySymbolicName": cy.PredicateAnyBySymbolicName,
		"PredicateNoneBySymbolicName": cy.PredicateNoneBySymbolicName, "PredicateSingleBySymbolicName": cy.PredicateSingleBySymbolicName,
		"OperationSet": cy.OperationSet, "OperationSetLabel": cy.OperationSetLabel, "OperationRemove": cy.OperationRemove,
		"ParameterCreate": cy.ParameterCreate,
	}
	var r []apiFn
	for k, f := range m {
		r = append(r, apiFn{k, reflect.ValueOf(f)})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}()

func fnIndex(name string) int {
	for i, f := range apiFns {
		if f.name == name {
			return i
		}
	}
	panic("no function " + name)
}

// G makes arguments; the names it gives have its prefix.
type G struct {
	p string
	n int
	// names repeat after this many (0: never)
	cycle int
}

func (g *G) s() string {
	g.n++
	if g.cycle > 0 {
		return g.p + strconv.Itoa(g.n%g.cycle)
	}
	return g.p + strconv.Itoa(g.n)
}

func (g *G) i() int {
	g.n++
	return g.n
}

const nGExprs = 17

func (g *G) expr(k int) cy.Expression {
	switch k % nGExprs {
	case 0:
		return cy.ASymbolic(g.s())
	case 1:
		return cy.AliasedExpressionCreate(cy.AProperty(g.s(), g.s()), g.s())
	case 2:
		return cy.AProperty(g.s(), g.s())
	case 3:
		return cy.Coalesce(cy.ASymbolic(g.s()), cy.AProperty(g.s(), g.s()))
	case 4:
		return cy.LiteralOf(g.s())
	case 5:
		return cy.ListOf(cy.ASymbolic(g.s()), cy.LiteralOf(1))
	case 6:
		return cy.MapOf(g.s(), cy.ASymbolic(g.s()))
	case 7:
		return cy.GenericCaseExpression().When(g.cond(0)).Then(cy.ASymbolic(g.s())).ElseDefault(cy.LiteralOf(2))
	case 8:
		return cy.ASymbolic(g.s()).Add(cy.AProperty(g.s(), "p")).Get()
	case 9:
		return cy.AParam(g.s())
	case 10:
		return g.cond(1)
	case 11:
		return cy.CypherListWith(cy.ASymbolic(g.s())).In(cy.ASymbolic(g.s())).Where(g.cond(0)).Returning(cy.ASymbolic(g.s()))
	case 12:
		return cy.ListBasedOn(g.rel()).Where(g.cond(0)).Returning(cy.ASymbolic(g.s()))
	case 13:
		return g.node().Project(g.s(), g.s(), cy.ASymbolic(g.s()))
	case 14:
		return cy.CountDistinctByExpression(cy.ASymbolic(g.s()))
	case 15:
		return cy.LiteralOf(nil)
	}
	return cy.CypherValueAt(cy.ASymbolic(g.s()), 3)
}

const nGConds = 5

func (g *G) cond(k int) cy.Condition {
	a := func() cy.ConditionContainer { return cy.AProperty(g.s(), "p").IsEqualTo(cy.ASymbolic(g.s())) }
	switch k % nGConds {
	case 0:
		return a().Get()
	case 1:
		return a().And(a().Get()).Get()
	case 2:
		return a().Or(a().Get()).Get()
	case 3:
		return cy.RelationshipPatternConditionCreate(g.rel())
	}
	return cy.ConditionsNoCondition()
}

func (g *G) node() cy.Node { return cy.NewNodeWithLabels(g.s(), g.s()).NamedByString(g.s()) }
func (g *G) rel() cy.Relationship {
	return cy.AnyNodeNamed(g.s()).RelationshipTo(cy.ANode(g.s()), g.s()).NamedByString(g.s())
}
func (g *G) props() cy.MapExpression {
	return cy.MapOf(g.s(), cy.LiteralOf(1), g.s(), cy.ASymbolic(g.s()))
}

func (g *G) stmt() cy.Statement {
	s, err := cy.Match(g.node()).Returning(cy.ASymbolic(g.s())).Build()
	if err != nil {
		panic(err)
	}
	return s
}

func conv(t reflect.Type, x interface{}) reflect.Value {
	v := reflect.New(t).Elem()
	v.Set(reflect.ValueOf(x))
	return v
}

// arg makes an argument of a type; k picks among its shapes.
func (g *G) arg(t reflect.Type, k int) reflect.Value {
	switch t {
	case tExpr:
		return conv(t, g.expr(k))
	case tCond:
		return conv(t, g.cond(k))
	case tNamed:
		if k%2 == 0 {
			return conv(t, g.node())
		}
		return conv(t, g.rel())
	case tPattern:
		switch k % 4 {
		case 0:
			return conv(t, g.node())
		case 1:
			return conv(t, g.rel())
		case 2:
			return conv(t, g.chain())
		}
		return conv(t, cy.APath(g.s()).DefinedBy(g.rel()))
	case tRelPat:
		if k%2 == 0 {
			return conv(t, g.rel())
		}
		return conv(t, g.chain())
	case tNode:
		return conv(t, g.node())
	case tRel:
		return conv(t, g.rel())
	case tChain:
		return conv(t, g.chain())
	case tPath:
		return conv(t, cy.APath(g.s()).DefinedBy(g.rel()))
	case tSym:
		return conv(t, cy.ASymbolic(g.s()))
	case tAliased:
		return conv(t, cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	case tProp:
		return conv(t, cy.AProperty(g.s(), g.s()))
	case tMap:
		return conv(t, g.props())
	case tSort:
		return conv(t, cy.Sort(cy.ASymbolic(g.s())).Descending())
	case tCondC:
		return conv(t, cy.ConditionWrap(g.cond(k)))
	case tExprC:
		return conv(t, cy.ExpressionWrap(g.expr(k)))
	case tStmt:
		return conv(t, g.stmt())
	case tParam:
		return conv(t, cy.AParam(g.s()))
	case tString:
		return conv(t, g.s())
	case tInt:
		g.n++
		return conv(t, g.n)
	case tFloat:
		return conv(t, 0.5)
	case tBool:
		return conv(t, k%2 == 1)
	case tLoc:
		return conv(t, time.UTC)
	case tExprs:
		return conv(t, []cy.Expression{cy.EntryExpressionCreate(g.s(), cy.ASymbolic(g.s()))})
	case tAny:
		return conv(t, g.s())
	}
	panic("no argument of type " + t.String())
}

func (g *G) chain() cy.RelationshipChain {
	return cy.AnyNodeNamed(g.s()).RelationshipTo(cy.ANode(g.s()), g.s()).RelationshipFrom(cy.AnyNodeNamed(g.s()), g.s())
}

// variadic makes the last arguments of a variadic function.
func (g *G) variadic(name string, t reflect.Type, v int) []reflect.Value {
	n := 1 + 2*v
	var r []reflect.Value
	switch name {
	case "MapOf", "WithRawProperties", "PropertiesRaw":
		for i := 0; i < n; i++ {
			r = append(r, conv(t, g.s()), conv(t, g.expr(0)))
		}
		return r
	case "Project", "And":
		if t == tAny {
			for i := 0; i < n; i++ {
				if i%2 == 1 {
					r = append(r, conv(t, g.s()), conv(t, g.expr(0)))
				} else {
					r = append(r, conv(t, g.s()))
				}
			}
			return r
		}
	case "Set":
		for i := 0; i < n; i++ {
			r = append(r, conv(t, cy.AProperty(g.s(), g.s())), conv(t, g.expr(2*i)))
		}
		return r
	case "Union", "UnionAll":
		n++
	case "RelationshipTo", "RelationshipFrom", "RelationshipBetween":
		n = 1 + v
	}
	for i := 0; i < n; i++ {
		r = append(r, g.arg(t, i))
	}
	return r
}

// args makes the arguments of a call.
func (g *G) args(name string, t reflect.Type, v int) []reflect.Value {
	var r []reflect.Value
	n := t.NumIn()
	for i := 0; i < n; i++ {
		if t.IsVariadic() && i == n-1 {
			r = append(r, g.variadic(name, t.In(i).Elem(), v)...)
			continue
		}
		k := v
		if v > 0 {
			k = v + i
		}
		r = append(r, g.arg(t.In(i), k))
	}
	return r
}

// shapes is the number of argument shapes of a call.
func shapes(t reflect.Type) int {
	if t.IsVariadic() {
		return 2
	}
	for i := 0; i < t.NumIn(); i++ {
		switch t.In(i) {
		case tExpr, tCond, tPattern, tRelPat, tNamed, tBool, tCondC:
			return 2
		}
	}
	return 1
}

// methods that are no part of building a statement
var notFluent = map[string]bool{"GetError": true, "GetErr": true, "GetExpressionType": true, "GetContent": true, "AsString": true, "PrepareVisit": true,
	"IsPatternElement": true, "GetSymbolicName": true, "GetPropertyKeyName": true, "Wrap": true, "GetAlias": true, "GetRequiredSymbolicName": true,
	"BuildImpl": true, "AddWith": true, "Update": true, "BuildListOfVisitable": true, "Build": true, "CloseCurrentOngoingCall": true,
	"CloseCurrentOngoingMatch": true, "CloseCurrentOngoingUpdate": true, "OngoingOnAfterMerge": true}

// the operators all expressions have; a few of them stand for the others
var exprMethods = func() map[string]bool {
	r := map[string]bool{}
	for i := 0; i < tExpr.NumMethod(); i++ {
		r[tExpr.Method(i).Name] = true
	}
	for _, k := range []string{"As", "IsEqualTo", "Add", "Descending", "IsNotNull", "In"} {
		delete(r, k)
	}
	return r
}()

type apiStep struct {
	m string
	v int
}

var stepCache = map[reflect.Type][]apiStep{}
var stepLock sync.Mutex

// everyMethod lists every exported method, not only those that mc gen wrote down
var everyMethod bool

// apiSteps lists the calls that can be made on a value.
func apiSteps(t reflect.Type) []apiStep {
	stepLock.Lock()
	defer stepLock.Unlock()
	if r, ok := stepCache[t]; ok {
		return r
	}
	var r []apiStep
	builder := t.Implements(tBuildable) || t.Kind() == reflect.Interface && !t.Implements(tExpr)
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.PkgPath != "" || notFluent[m.Name] || exprMethods[m.Name] && !builder {
			continue
		}
		if !everyMethod && !genMethods[t.String()+"."+m.Name] {
			continue // not a call of the documented API
		}
		mt := methodType(t, m)
		if mt.NumOut() != 1 || mt.Out(0) == tErr {
			continue
		}
		for v := 0; v < shapes(mt); v++ {
			r = append(r, apiStep{m.Name, v})
		}
	}
	stepCache[t] = r
	return r
}

// methodType is the type of a method without its receiver.
func methodType(t reflect.Type, m reflect.Method) reflect.Type {
	if t.Kind() == reflect.Interface {
		return m.Type
	}
	in := make([]reflect.Type, 0, m.Type.NumIn())
	for i := 1; i < m.Type.NumIn(); i++ {
		in = append(in, m.Type.In(i))
	}
	out := make([]reflect.Type, 0, 1)
	for i := 0; i < m.Type.NumOut(); i++ {
		out = append(out, m.Type.Out(i))
	}
	return reflect.FuncOf(in, out, m.Type.IsVariadic())
}

// start calls a function.
func (g *G) start(f int, v int) reflect.Value {
	fn := apiFns[f]
	return fn.v.Call(g.args(fn.name, fn.v.Type(), v))[0]
}

// call makes a step on a value.
func (g *G) call(x reflect.Value, s apiStep) reflect.Value {
	m := x.MethodByName(s.m)
	return m.Call(g.args(s.m, m.Type(), s.v))[0]
}

func hasMethod(t reflect.Type, name string) bool {
	_, ok := t.MethodByName(name)
	return ok
}

// complete makes a statement of a value.
func (g *G) complete(x reflect.Value) (cy.Statement, error) {
	for i := 0; i < 8; i++ {
		t := x.Type()
		if !x.IsValid() || t.Kind() == reflect.Interface && x.IsNil() {
			return nil, fmt.Errorf("nil")
		}
		switch {
		case hasMethod(t, "Build") && t.Implements(tBuildable):
			return x.Interface().(cy.BuildableStatement).Build()
		case t.Implements(tPattern):
			return cy.Match(x.Interface().(cy.PatternElement)).Returning(cy.AnAsterisk()).Build()
		case t == tCondC || t == tExprC:
			x = x.MethodByName("Get").Call(nil)[0]
			continue
		case t == tSort:
			return cy.CypherReturning(cy.ASymbolic(g.s())).OrderBySortItem(x.Interface().(cy.SortItem)).Build()
		case t.Implements(tCond):
			return cy.Match(cy.AnyNode()).Where(x.Interface().(cy.Condition)).Returning(cy.AnAsterisk()).Build()
		case t.Implements(tExpr) && t != tCase:
			return cy.CypherReturning(x.Interface().(cy.Expression)).Build()
		case t == tStmt || t.Implements(tStmt) && t != tCase:
			s := x.Interface().(cy.Statement)
			return s, s.GetError()
		}
		found := false
		for _, m := range []string{"Then", "When", "Returning", "DefinedBy", "In", "Where", "As", "Set", "Ascending", "YieldString", "AsFunction"} {
			if hasMethod(t, m) {
				x = g.call(x, apiStep{m, 0})
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("no way to complete %s", t)
		}
	}
	return nil, fmt.Errorf("not completed")
}

// show renders a statement.
func show(s cy.Statement, err error) string {
	if err != nil {
		return "error"
	}
	t, err := cy.NewRenderer().Render(s)
	if err != nil {
		return "error"
	}
	return t
}

// observe is the text of a value.
func (g *G) observe(x reflect.Value) string { return show(g.complete(x)) }

// a program is a function and the calls made on its result.
type prog struct {
	f, v  int
	steps []apiStep
}

func (p prog) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%d", apiFns[p.f].name, p.v)
	for _, s := range p.steps {
		fmt.Fprintf(&b, ".%s/%d", s.m, s.v)
	}
	return b.String()
}

// run makes the value of the program.
func (p prog) run(g *G) reflect.Value {
	x := g.start(p.f, p.v)
	for _, s := range p.steps {
		x = g.call(x, s)
	}
	return x
}

// then is the program continued.
func (p prog) then(s ...apiStep) prog {
	return prog{p.f, p.v, append(append([]apiStep(nil), p.steps...), s...)}
}

var typeCache = map[string]reflect.Type{}

// typ is the static type of the program's value.
func (p prog) typ() reflect.Type {
	t := apiFns[p.f].v.Type().Out(0)
	for _, s := range p.steps {
		m, ok := t.MethodByName(s.m)
		if !ok {
			panic("no method " + s.m)
		}
		t = methodType(t, m).Out(0)
	}
	return t
}

func (p prog) next() []apiStep { return apiSteps(p.typ()) }

// chooseProg explores the functions and all calls up to a depth.
func (c *C) chooseProg(depth int) prog {
	p := prog{f: c.Choose("function", len(apiFns))}
	p.v = c.Choose("shape", shapes(apiFns[p.f].v.Type()))
	for i := 0; i < depth; i++ {
		ss := p.next()
		k := c.Choose("call", len(ss)+1)
		if k == len(ss) {
			break
		}
		p = p.then(ss[k])
	}
	return p
}
