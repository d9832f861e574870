//go:build sched

package main

// written by mc gen

import (
	"time"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

var _ = time.UTC

var genStart = map[string]func(g *G) interface{}{
	"ACall/0":                            func(g *G) interface{} { return cy.ACall(g.s()) },
	"ACall/1":                            func(g *G) interface{} { return cy.ACall(g.s(), g.s(), g.s()) },
	"ACallByStatement/0":                 func(g *G) interface{} { return cy.ACallByStatement(g.stmt()) },
	"ACallSimple/0":                      func(g *G) interface{} { return cy.ACallSimple(g.s()) },
	"ANode/0":                            func(g *G) interface{} { return cy.ANode(g.s()) },
	"AParam/0":                           func(g *G) interface{} { return cy.AParam(g.s()) },
	"APath/0":                            func(g *G) interface{} { return cy.APath(g.s()) },
	"APathBySymbolic/0":                  func(g *G) interface{} { return cy.APathBySymbolic(cy.ASymbolic(g.s())) },
	"AProperty/0":                        func(g *G) interface{} { return cy.AProperty(g.s(), g.s()) },
	"APropertyByExpression/0":            func(g *G) interface{} { return cy.APropertyByExpression(g.expr(0), g.s()) },
	"APropertyByExpression/1":            func(g *G) interface{} { return cy.APropertyByExpression(g.expr(1), g.s()) },
	"AShortestPath/0":                    func(g *G) interface{} { return cy.AShortestPath(g.s()) },
	"AShortestPathBySymbolic/0":          func(g *G) interface{} { return cy.AShortestPathBySymbolic(cy.ASymbolic(g.s())) },
	"ASubList/0":                         func(g *G) interface{} { return cy.ASubList(g.expr(0), g.i(), g.i()) },
	"ASubList/1":                         func(g *G) interface{} { return cy.ASubList(g.expr(1), g.i(), g.i()) },
	"ASubListFromByExpression/0":         func(g *G) interface{} { return cy.ASubListFromByExpression(g.expr(0), g.expr(0)) },
	"ASubListFromByExpression/1":         func(g *G) interface{} { return cy.ASubListFromByExpression(g.expr(1), g.expr(2)) },
	"ASubListUntil/0":                    func(g *G) interface{} { return cy.ASubListUntil(g.expr(0), g.i()) },
	"ASubListUntil/1":                    func(g *G) interface{} { return cy.ASubListUntil(g.expr(1), g.i()) },
	"ASymbolic/0":                        func(g *G) interface{} { return cy.ASymbolic(g.s()) },
	"AliasedExpressionCreate/0":          func(g *G) interface{} { return cy.AliasedExpressionCreate(g.expr(0), g.s()) },
	"AliasedExpressionCreate/1":          func(g *G) interface{} { return cy.AliasedExpressionCreate(g.expr(1), g.s()) },
	"AnAsterisk/0":                       func(g *G) interface{} { return cy.AnAsterisk() },
	"AnOptionalMatch/0":                  func(g *G) interface{} { return cy.AnOptionalMatch(g.node()) },
	"AnOptionalMatch/1":                  func(g *G) interface{} { return cy.AnOptionalMatch(g.node(), g.rel(), g.chain()) },
	"AnyNode/0":                          func(g *G) interface{} { return cy.AnyNode() },
	"AnyNodeNamed/0":                     func(g *G) interface{} { return cy.AnyNodeNamed(g.s()) },
	"Avg/0":                              func(g *G) interface{} { return cy.Avg(g.expr(0)) },
	"Avg/1":                              func(g *G) interface{} { return cy.Avg(g.expr(1)) },
	"AvgDistinct/0":                      func(g *G) interface{} { return cy.AvgDistinct(g.expr(0)) },
	"AvgDistinct/1":                      func(g *G) interface{} { return cy.AvgDistinct(g.expr(1)) },
	"CalendarDate/0":                     func(g *G) interface{} { return cy.CalendarDate(g.i(), g.i(), g.i()) },
	"CaseExpression/0":                   func(g *G) interface{} { return cy.CaseExpression(g.expr(0)) },
	"CaseExpression/1":                   func(g *G) interface{} { return cy.CaseExpression(g.expr(1)) },
	"Coalesce/0":                         func(g *G) interface{} { return cy.Coalesce(g.expr(0)) },
	"Coalesce/1":                         func(g *G) interface{} { return cy.Coalesce(g.expr(0), g.expr(1), g.expr(2)) },
	"Collect/0":                          func(g *G) interface{} { return cy.Collect(g.expr(0)) },
	"Collect/1":                          func(g *G) interface{} { return cy.Collect(g.expr(1)) },
	"CollectByNamed/0":                   func(g *G) interface{} { return cy.CollectByNamed(g.node()) },
	"CollectByNamed/1":                   func(g *G) interface{} { return cy.CollectByNamed(g.rel()) },
	"CollectDistinct/0":                  func(g *G) interface{} { return cy.CollectDistinct(g.expr(0)) },
	"CollectDistinct/1":                  func(g *G) interface{} { return cy.CollectDistinct(g.expr(1)) },
	"CollectDistinctByNamed/0":           func(g *G) interface{} { return cy.CollectDistinctByNamed(g.node()) },
	"CollectDistinctByNamed/1":           func(g *G) interface{} { return cy.CollectDistinctByNamed(g.rel()) },
	"ConditionWrap/0":                    func(g *G) interface{} { return cy.ConditionWrap(g.cond(0)) },
	"ConditionWrap/1":                    func(g *G) interface{} { return cy.ConditionWrap(g.cond(1)) },
	"ConditionsIsFalse/0":                func(g *G) interface{} { return cy.ConditionsIsFalse() },
	"ConditionsIsTrue/0":                 func(g *G) interface{} { return cy.ConditionsIsTrue() },
	"ConditionsNoCondition/0":            func(g *G) interface{} { return cy.ConditionsNoCondition() },
	"ConditionsNot/0":                    func(g *G) interface{} { return cy.ConditionsNot(g.cond(0)) },
	"ConditionsNot/1":                    func(g *G) interface{} { return cy.ConditionsNot(g.cond(1)) },
	"ConditionsNotByPattern/0":           func(g *G) interface{} { return cy.ConditionsNotByPattern(g.node()) },
	"ConditionsNotByPattern/1":           func(g *G) interface{} { return cy.ConditionsNotByPattern(g.rel()) },
	"Count/0":                            func(g *G) interface{} { return cy.Count(g.node()) },
	"CountByExpression/0":                func(g *G) interface{} { return cy.CountByExpression(g.expr(0)) },
	"CountByExpression/1":                func(g *G) interface{} { return cy.CountByExpression(g.expr(1)) },
	"CountDistinct/0":                    func(g *G) interface{} { return cy.CountDistinct(g.node()) },
	"CountDistinctByExpression/0":        func(g *G) interface{} { return cy.CountDistinctByExpression(g.expr(0)) },
	"CountDistinctByExpression/1":        func(g *G) interface{} { return cy.CountDistinctByExpression(g.expr(1)) },
	"Create/0":                           func(g *G) interface{} { return cy.Create(g.node()) },
	"Create/1":                           func(g *G) interface{} { return cy.Create(g.node(), g.rel(), g.chain()) },
	"CypherListWith/0":                   func(g *G) interface{} { return cy.CypherListWith(cy.ASymbolic(g.s())) },
	"CypherReturning/0":                  func(g *G) interface{} { return cy.CypherReturning(g.expr(0)) },
	"CypherReturning/1":                  func(g *G) interface{} { return cy.CypherReturning(g.expr(0), g.expr(1), g.expr(2)) },
	"CypherSubListFrom/0":                func(g *G) interface{} { return cy.CypherSubListFrom(g.expr(0), g.i()) },
	"CypherSubListFrom/1":                func(g *G) interface{} { return cy.CypherSubListFrom(g.expr(1), g.i()) },
	"CypherSubListUntilByExpression/0":   func(g *G) interface{} { return cy.CypherSubListUntilByExpression(g.expr(0), g.expr(0)) },
	"CypherSubListUntilByExpression/1":   func(g *G) interface{} { return cy.CypherSubListUntilByExpression(g.expr(1), g.expr(2)) },
	"CypherValueAt/0":                    func(g *G) interface{} { return cy.CypherValueAt(g.expr(0), g.i()) },
	"CypherValueAt/1":                    func(g *G) interface{} { return cy.CypherValueAt(g.expr(1), g.i()) },
	"CypherValueAtByExpression/0":        func(g *G) interface{} { return cy.CypherValueAtByExpression(g.expr(0), g.expr(0)) },
	"CypherValueAtByExpression/1":        func(g *G) interface{} { return cy.CypherValueAtByExpression(g.expr(1), g.expr(2)) },
	"Date/0":                             func(g *G) interface{} { return cy.Date() },
	"DateTimeWithComponents/0":           func(g *G) interface{} { return cy.DateTimeWithComponents(g.props()) },
	"DateTimeWithExpression/0":           func(g *G) interface{} { return cy.DateTimeWithExpression(g.expr(0)) },
	"DateTimeWithExpression/1":           func(g *G) interface{} { return cy.DateTimeWithExpression(g.expr(1)) },
	"DateTimeWithTemporal/0":             func(g *G) interface{} { return cy.DateTimeWithTemporal(g.s()) },
	"DateWithComponents/0":               func(g *G) interface{} { return cy.DateWithComponents(g.props()) },
	"DateWithExpression/0":               func(g *G) interface{} { return cy.DateWithExpression(g.expr(0)) },
	"DateWithExpression/1":               func(g *G) interface{} { return cy.DateWithExpression(g.expr(1)) },
	"DateWithTemporal/0":                 func(g *G) interface{} { return cy.DateWithTemporal(g.s()) },
	"Datetime/0":                         func(g *G) interface{} { return cy.Datetime() },
	"Distance/0":                         func(g *G) interface{} { return cy.Distance(g.expr(0), g.expr(0)) },
	"Distance/1":                         func(g *G) interface{} { return cy.Distance(g.expr(1), g.expr(2)) },
	"DurationWithComponents/0":           func(g *G) interface{} { return cy.DurationWithComponents(g.props()) },
	"DurationWithExpression/0":           func(g *G) interface{} { return cy.DurationWithExpression(g.expr(0)) },
	"DurationWithExpression/1":           func(g *G) interface{} { return cy.DurationWithExpression(g.expr(1)) },
	"DurationWithTemporal/0":             func(g *G) interface{} { return cy.DurationWithTemporal(g.s()) },
	"EndNode/0":                          func(g *G) interface{} { return cy.EndNode(g.rel()) },
	"EntryExpressionCreate/0":            func(g *G) interface{} { return cy.EntryExpressionCreate(g.s(), g.expr(0)) },
	"EntryExpressionCreate/1":            func(g *G) interface{} { return cy.EntryExpressionCreate(g.s(), g.expr(2)) },
	"Exists/0":                           func(g *G) interface{} { return cy.Exists(g.expr(0)) },
	"Exists/1":                           func(g *G) interface{} { return cy.Exists(g.expr(1)) },
	"ExpressionWrap/0":                   func(g *G) interface{} { return cy.ExpressionWrap(g.expr(0)) },
	"ExpressionWrap/1":                   func(g *G) interface{} { return cy.ExpressionWrap(g.expr(1)) },
	"FunctionProperties/0":               func(g *G) interface{} { return cy.FunctionProperties(g.node()) },
	"FunctionPropertiesByRelationship/0": func(g *G) interface{} { return cy.FunctionPropertiesByRelationship(g.rel()) },
	"FunctionType/0":                     func(g *G) interface{} { return cy.FunctionType(g.rel()) },
	"GenericCaseExpression/0":            func(g *G) interface{} { return cy.GenericCaseExpression() },
	"Head/0":                             func(g *G) interface{} { return cy.Head(g.expr(0)) },
	"Head/1":                             func(g *G) interface{} { return cy.Head(g.expr(1)) },
	"IdByNode/0":                         func(g *G) interface{} { return cy.IdByNode(g.node()) },
	"IdByRelationship/0":                 func(g *G) interface{} { return cy.IdByRelationship(g.rel()) },
	"Labels/0":                           func(g *G) interface{} { return cy.Labels(g.node()) },
	"Last/0":                             func(g *G) interface{} { return cy.Last(g.expr(0)) },
	"Last/1":                             func(g *G) interface{} { return cy.Last(g.expr(1)) },
	"ListBasedOn/0":                      func(g *G) interface{} { return cy.ListBasedOn(g.rel()) },
	"ListBasedOn/1":                      func(g *G) interface{} { return cy.ListBasedOn(g.chain()) },
	"ListBasedOnNamed/0":                 func(g *G) interface{} { return cy.ListBasedOnNamed(cy.APath(g.s()).DefinedBy(g.rel())) },
	"ListComprehensionWith/0":            func(g *G) interface{} { return cy.ListComprehensionWith(cy.ASymbolic(g.s())) },
	"ListOf/0":                           func(g *G) interface{} { return cy.ListOf(g.expr(0)) },
	"ListOf/1":                           func(g *G) interface{} { return cy.ListOf(g.expr(0), g.expr(1), g.expr(2)) },
	"ListOfRaw/0":                        func(g *G) interface{} { return cy.ListOfRaw(g.s()) },
	"ListOfRaw/1":                        func(g *G) interface{} { return cy.ListOfRaw(g.s(), g.s(), g.s()) },
	"LiteralFalse/0":                     func(g *G) interface{} { return cy.LiteralFalse() },
	"LiteralOf/0":                        func(g *G) interface{} { return cy.LiteralOf(g.s()) },
	"LiteralTrue/0":                      func(g *G) interface{} { return cy.LiteralTrue() },
	"LocalDateTimeWithComponents/0":      func(g *G) interface{} { return cy.LocalDateTimeWithComponents(g.props()) },
	"LocalDateTimeWithExpression/0":      func(g *G) interface{} { return cy.LocalDateTimeWithExpression(g.expr(0)) },
	"LocalDateTimeWithExpression/1":      func(g *G) interface{} { return cy.LocalDateTimeWithExpression(g.expr(1)) },
	"LocalDateTimeWithTemporal/0":        func(g *G) interface{} { return cy.LocalDateTimeWithTemporal(g.s()) },
	"LocalDateTimeWithTimezone/0":        func(g *G) interface{} { return cy.LocalDateTimeWithTimezone(time.UTC) },
	"LocalDatetime/0":                    func(g *G) interface{} { return cy.LocalDatetime() },
	"LocalTimeWithComponents/0":          func(g *G) interface{} { return cy.LocalTimeWithComponents(g.props()) },
	"LocalTimeWithExpression/0":          func(g *G) interface{} { return cy.LocalTimeWithExpression(g.expr(0)) },
	"LocalTimeWithExpression/1":          func(g *G) interface{} { return cy.LocalTimeWithExpression(g.expr(1)) },
	"LocalTimeWithTemporal/0":            func(g *G) interface{} { return cy.LocalTimeWithTemporal(g.s()) },
	"LocalTimeWithTimezone/0":            func(g *G) interface{} { return cy.LocalTimeWithTimezone(time.UTC) },
	"Localtime/0":                        func(g *G) interface{} { return cy.Localtime() },
	"MapOf/0":                            func(g *G) interface{} { return cy.MapOf(g.s(), g.expr(0)) },
	"MapOf/1":                            func(g *G) interface{} { return cy.MapOf(g.s(), g.expr(0), g.s(), g.expr(0), g.s(), g.expr(0)) },
	"Match/0":                            func(g *G) interface{} { return cy.Match(g.node()) },
	"Match/1":                            func(g *G) interface{} { return cy.Match(g.node(), g.rel(), g.chain()) },
	"MatchWithOption/0":                  func(g *G) interface{} { return cy.MatchWithOption(false, g.node()) },
	"MatchWithOption/1":                  func(g *G) interface{} { return cy.MatchWithOption(true, g.node(), g.rel(), g.chain()) },
	"Max/0":                              func(g *G) interface{} { return cy.Max(g.expr(0)) },
	"Max/1":                              func(g *G) interface{} { return cy.Max(g.expr(1)) },
	"MaxDistinct/0":                      func(g *G) interface{} { return cy.MaxDistinct(g.expr(0)) },
	"MaxDistinct/1":                      func(g *G) interface{} { return cy.MaxDistinct(g.expr(1)) },
	"Merge/0":                            func(g *G) interface{} { return cy.Merge(g.node()) },
	"Merge/1":                            func(g *G) interface{} { return cy.Merge(g.node(), g.rel(), g.chain()) },
	"Min/0":                              func(g *G) interface{} { return cy.Min(g.expr(0)) },
	"Min/1":                              func(g *G) interface{} { return cy.Min(g.expr(1)) },
	"MinDistinct/0":                      func(g *G) interface{} { return cy.MinDistinct(g.expr(0)) },
	"MinDistinct/1":                      func(g *G) interface{} { return cy.MinDistinct(g.expr(1)) },
	"NewNodeWithLabels/0":                func(g *G) interface{} { return cy.NewNodeWithLabels(g.s(), g.s()) },
	"NewNodeWithLabels/1":                func(g *G) interface{} { return cy.NewNodeWithLabels(g.s(), g.s(), g.s(), g.s()) },
	"NewNodeWithProperties/0":            func(g *G) interface{} { return cy.NewNodeWithProperties(g.s(), g.props(), g.s()) },
	"NewNodeWithProperties/1":            func(g *G) interface{} { return cy.NewNodeWithProperties(g.s(), g.props(), g.s(), g.s(), g.s()) },
	"Nodes/0":                            func(g *G) interface{} { return cy.Nodes(cy.APath(g.s()).DefinedBy(g.rel())) },
	"OperationAdd/0":                     func(g *G) interface{} { return cy.OperationAdd(g.expr(0), g.expr(0)) },
	"OperationAdd/1":                     func(g *G) interface{} { return cy.OperationAdd(g.expr(1), g.expr(2)) },
	"OperationConcat/0":                  func(g *G) interface{} { return cy.OperationConcat(g.expr(0), g.expr(0)) },
	"OperationConcat/1":                  func(g *G) interface{} { return cy.OperationConcat(g.expr(1), g.expr(2)) },
	"OperationDivide/0":                  func(g *G) interface{} { return cy.OperationDivide(g.expr(0), g.expr(0)) },
	"OperationDivide/1":                  func(g *G) interface{} { return cy.OperationDivide(g.expr(1), g.expr(2)) },
	"OperationMultiply/0":                func(g *G) interface{} { return cy.OperationMultiply(g.expr(0), g.expr(0)) },
	"OperationMultiply/1":                func(g *G) interface{} { return cy.OperationMultiply(g.expr(1), g.expr(2)) },
	"OperationPow/0":                     func(g *G) interface{} { return cy.OperationPow(g.expr(0), g.expr(0)) },
	"OperationPow/1":                     func(g *G) interface{} { return cy.OperationPow(g.expr(1), g.expr(2)) },
	"OperationRemainder/0":               func(g *G) interface{} { return cy.OperationRemainder(g.expr(0), g.expr(0)) },
	"OperationRemainder/1":               func(g *G) interface{} { return cy.OperationRemainder(g.expr(1), g.expr(2)) },
	"OperationRemove/0":                  func(g *G) interface{} { return cy.OperationRemove(g.node(), g.s()) },
	"OperationRemove/1":                  func(g *G) interface{} { return cy.OperationRemove(g.node(), g.s(), g.s(), g.s()) },
	"OperationSet/0":                     func(g *G) interface{} { return cy.OperationSet(g.expr(0), g.expr(0)) },
	"OperationSet/1":                     func(g *G) interface{} { return cy.OperationSet(g.expr(1), g.expr(2)) },
	"OperationSetLabel/0":                func(g *G) interface{} { return cy.OperationSetLabel(g.node(), g.s()) },
	"OperationSetLabel/1":                func(g *G) interface{} { return cy.OperationSetLabel(g.node(), g.s(), g.s(), g.s()) },
	"OperationSubtract/0":                func(g *G) interface{} { return cy.OperationSubtract(g.expr(0), g.expr(0)) },
	"OperationSubtract/1":                func(g *G) interface{} { return cy.OperationSubtract(g.expr(1), g.expr(2)) },
	"OrdinalDate/0":                      func(g *G) interface{} { return cy.OrdinalDate(g.i(), g.i()) },
	"ParameterCreate/0":                  func(g *G) interface{} { return cy.ParameterCreate(g.s()) },
	"PatternComprehensionBasedOn/0":      func(g *G) interface{} { return cy.PatternComprehensionBasedOn(g.rel()) },
	"PatternComprehensionBasedOn/1":      func(g *G) interface{} { return cy.PatternComprehensionBasedOn(g.chain()) },
	"PatternComprehensionBasedOnNamePath/0": func(g *G) interface{} {
		return cy.PatternComprehensionBasedOnNamePath(cy.APath(g.s()).DefinedBy(g.rel()))
	},
	"PercentileCont/0":                     func(g *G) interface{} { return cy.PercentileCont(g.expr(0), 0.5) },
	"PercentileCont/1":                     func(g *G) interface{} { return cy.PercentileCont(g.expr(1), 0.5) },
	"PercentileContDistinct/0":             func(g *G) interface{} { return cy.PercentileContDistinct(g.expr(0), 0.5) },
	"PercentileContDistinct/1":             func(g *G) interface{} { return cy.PercentileContDistinct(g.expr(1), 0.5) },
	"PercentileDisc/0":                     func(g *G) interface{} { return cy.PercentileDisc(g.expr(0), 0.5) },
	"PercentileDisc/1":                     func(g *G) interface{} { return cy.PercentileDisc(g.expr(1), 0.5) },
	"PercentileDiscDistinct/0":             func(g *G) interface{} { return cy.PercentileDiscDistinct(g.expr(0), 0.5) },
	"PercentileDiscDistinct/1":             func(g *G) interface{} { return cy.PercentileDiscDistinct(g.expr(1), 0.5) },
	"Point/0":                              func(g *G) interface{} { return cy.Point(g.props()) },
	"PointByParameter/0":                   func(g *G) interface{} { return cy.PointByParameter(cy.AParam(g.s())) },
	"PredicateAll/0":                       func(g *G) interface{} { return cy.PredicateAll(g.s()) },
	"PredicateAllBySymbolicName/0":         func(g *G) interface{} { return cy.PredicateAllBySymbolicName(cy.ASymbolic(g.s())) },
	"PredicateAny/0":                       func(g *G) interface{} { return cy.PredicateAny(g.s()) },
	"PredicateAnyBySymbolicName/0":         func(g *G) interface{} { return cy.PredicateAnyBySymbolicName(cy.ASymbolic(g.s())) },
	"PredicateExists/0":                    func(g *G) interface{} { return cy.PredicateExists(cy.AProperty(g.s(), g.s())) },
	"PredicateExistsByPattern/0":           func(g *G) interface{} { return cy.PredicateExistsByPattern(g.rel()) },
	"PredicateExistsByPattern/1":           func(g *G) interface{} { return cy.PredicateExistsByPattern(g.chain()) },
	"PredicateNone/0":                      func(g *G) interface{} { return cy.PredicateNone(g.s()) },
	"PredicateNoneBySymbolicName/0":        func(g *G) interface{} { return cy.PredicateNoneBySymbolicName(cy.ASymbolic(g.s())) },
	"PredicateSingle/0":                    func(g *G) interface{} { return cy.PredicateSingle(g.s()) },
	"PredicateSingleBySymbolicName/0":      func(g *G) interface{} { return cy.PredicateSingleBySymbolicName(cy.ASymbolic(g.s())) },
	"PropertiesByMapExpression/0":          func(g *G) interface{} { return cy.PropertiesByMapExpression(g.props()) },
	"QuarterDate/0":                        func(g *G) interface{} { return cy.QuarterDate(g.i(), g.i(), g.i()) },
	"Range/0":                              func(g *G) interface{} { return cy.Range(g.expr(0), g.expr(0)) },
	"Range/1":                              func(g *G) interface{} { return cy.Range(g.expr(1), g.expr(2)) },
	"RangeRaw/0":                           func(g *G) interface{} { return cy.RangeRaw(g.i(), g.i()) },
	"RangeWithStep/0":                      func(g *G) interface{} { return cy.RangeWithStep(g.expr(0), g.expr(0), g.expr(0)) },
	"RangeWithStep/1":                      func(g *G) interface{} { return cy.RangeWithStep(g.expr(1), g.expr(2), g.expr(3)) },
	"RangeWithStepRaw/0":                   func(g *G) interface{} { return cy.RangeWithStepRaw(g.i(), g.i(), g.i()) },
	"RelationshipPatternConditionCreate/0": func(g *G) interface{} { return cy.RelationshipPatternConditionCreate(g.rel()) },
	"RelationshipPatternConditionCreate/1": func(g *G) interface{} { return cy.RelationshipPatternConditionCreate(g.chain()) },
	"Relationships/0":                      func(g *G) interface{} { return cy.Relationships(cy.APath(g.s()).DefinedBy(g.rel())) },
	"ShortestPath/0":                       func(g *G) interface{} { return cy.ShortestPath(g.rel()) },
	"Size/0":                               func(g *G) interface{} { return cy.Size(g.expr(0)) },
	"Size/1":                               func(g *G) interface{} { return cy.Size(g.expr(1)) },
	"SizeByPattern/0":                      func(g *G) interface{} { return cy.SizeByPattern(g.rel()) },
	"SizeByPattern/1":                      func(g *G) interface{} { return cy.SizeByPattern(g.chain()) },
	"Sort/0":                               func(g *G) interface{} { return cy.Sort(g.expr(0)) },
	"Sort/1":                               func(g *G) interface{} { return cy.Sort(g.expr(1)) },
	"StDev/0":                              func(g *G) interface{} { return cy.StDev(g.expr(0)) },
	"StDev/1":                              func(g *G) interface{} { return cy.StDev(g.expr(1)) },
	"StDevDistinct/0":                      func(g *G) interface{} { return cy.StDevDistinct(g.expr(0)) },
	"StDevDistinct/1":                      func(g *G) interface{} { return cy.StDevDistinct(g.expr(1)) },
	"StDevP/0":                             func(g *G) interface{} { return cy.StDevP(g.expr(0)) },
	"StDevP/1":                             func(g *G) interface{} { return cy.StDevP(g.expr(1)) },
	"StDevPDistinct/0":                     func(g *G) interface{} { return cy.StDevPDistinct(g.expr(0)) },
	"StDevPDistinct/1":                     func(g *G) interface{} { return cy.StDevPDistinct(g.expr(1)) },
	"StartNode/0":                          func(g *G) interface{} { return cy.StartNode(g.rel()) },
	"StatementCall/0":                      func(g *G) interface{} { return cy.StatementCall(g.s()) },
	"StatementCall/1":                      func(g *G) interface{} { return cy.StatementCall(g.s(), g.s(), g.s()) },
	"SubList/0":                            func(g *G) interface{} { return cy.SubList(g.expr(0), g.expr(0), g.expr(0)) },
	"SubList/1":                            func(g *G) interface{} { return cy.SubList(g.expr(1), g.expr(2), g.expr(3)) },
	"SubListFrom/0":                        func(g *G) interface{} { return cy.SubListFrom(g.expr(0), g.expr(0)) },
	"SubListFrom/1":                        func(g *G) interface{} { return cy.SubListFrom(g.expr(1), g.expr(2)) },
	"SubListUntil/0":                       func(g *G) interface{} { return cy.SubListUntil(g.expr(0), g.expr(0)) },
	"SubListUntil/1":                       func(g *G) interface{} { return cy.SubListUntil(g.expr(1), g.expr(2)) },
	"Sum/0":                                func(g *G) interface{} { return cy.Sum(g.expr(0)) },
	"Sum/1":                                func(g *G) interface{} { return cy.Sum(g.expr(1)) },
	"SumDistinct/0":                        func(g *G) interface{} { return cy.SumDistinct(g.expr(0)) },
	"SumDistinct/1":                        func(g *G) interface{} { return cy.SumDistinct(g.expr(1)) },
	"Time/0":                               func(g *G) interface{} { return cy.Time() },
	"TimeWithComponents/0":                 func(g *G) interface{} { return cy.TimeWithComponents(g.props()) },
	"TimeWithExpression/0":                 func(g *G) interface{} { return cy.TimeWithExpression(g.expr(0)) },
	"TimeWithExpression/1":                 func(g *G) interface{} { return cy.TimeWithExpression(g.expr(1)) },
	"TimeWithTemporal/0":                   func(g *G) interface{} { return cy.TimeWithTemporal(g.s()) },
	"TimeWithTimeZone/0":                   func(g *G) interface{} { return cy.TimeWithTimeZone(time.UTC) },
	"ToLower/0":                            func(g *G) interface{} { return cy.ToLower(g.expr(0)) },
	"ToLower/1":                            func(g *G) interface{} { return cy.ToLower(g.expr(1)) },
	"Union/0":                              func(g *G) interface{} { return cy.Union(g.stmt(), g.stmt()) },
	"Union/1":                              func(g *G) interface{} { return cy.Union(g.stmt(), g.stmt(), g.stmt(), g.stmt()) },
	"UnionAll/0":                           func(g *G) interface{} { return cy.UnionAll(g.stmt(), g.stmt()) },
	"UnionAll/1":                           func(g *G) interface{} { return cy.UnionAll(g.stmt(), g.stmt(), g.stmt(), g.stmt()) },
	"Unwind/0":                             func(g *G) interface{} { return cy.Unwind(g.expr(0)) },
	"Unwind/1":                             func(g *G) interface{} { return cy.Unwind(g.expr(1)) },
	"UnwindMulti/0":                        func(g *G) interface{} { return cy.UnwindMulti(g.expr(0)) },
	"UnwindMulti/1":                        func(g *G) interface{} { return cy.UnwindMulti(g.expr(0), g.expr(1), g.expr(2)) },
	"ValueAt/0":                            func(g *G) interface{} { return cy.ValueAt(g.expr(0), g.expr(0)) },
	"ValueAt/1":                            func(g *G) interface{} { return cy.ValueAt(g.expr(1), g.expr(2)) },
	"WeekDate/0":                           func(g *G) interface{} { return cy.WeekDate(g.i(), g.i(), g.i()) },
	"With/0":                               func(g *G) interface{} { return cy.With(g.expr(0)) },
	"With/1":                               func(g *G) interface{} { return cy.With(g.expr(0), g.expr(1), g.expr(2)) },
	"WithByNamed/0":                        func(g *G) interface{} { return cy.WithByNamed(g.node()) },
	"WithByNamed/1":                        func(g *G) interface{} { return cy.WithByNamed(g.node(), g.rel(), g.node()) },
	"WithByString/0":                       func(g *G) interface{} { return cy.WithByString(g.s()) },
	"WithByString/1":                       func(g *G) interface{} { return cy.WithByString(g.s(), g.s(), g.s()) },
}

var genStep = map[string]func(g *G, x interface{}) interface{}{
	"cypher.AliasedExpression.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).Add(g.expr(0)) },
	"cypher.AliasedExpression.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).Add(g.expr(1)) },
	"cypher.AliasedExpression.Aliased/0":    func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).Aliased(g.s()) },
	"cypher.AliasedExpression.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).As(g.s()) },
	"cypher.AliasedExpression.AsName/0":     func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).AsName() },
	"cypher.AliasedExpression.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).Descending() },
	"cypher.AliasedExpression.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).Get() },
	"cypher.AliasedExpression.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).In(g.expr(0)) },
	"cypher.AliasedExpression.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).In(g.expr(1)) },
	"cypher.AliasedExpression.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).IsEqualTo(g.expr(0)) },
	"cypher.AliasedExpression.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).IsEqualTo(g.expr(1)) },
	"cypher.AliasedExpression.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.AliasedExpression).IsNotNull() },
	"cypher.Asterisk.Add/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).Add(g.expr(0)) },
	"cypher.Asterisk.Add/1":                 func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).Add(g.expr(1)) },
	"cypher.Asterisk.As/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).As(g.s()) },
	"cypher.Asterisk.Descending/0":          func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).Descending() },
	"cypher.Asterisk.Get/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).Get() },
	"cypher.Asterisk.In/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).In(g.expr(0)) },
	"cypher.Asterisk.In/1":                  func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).In(g.expr(1)) },
	"cypher.Asterisk.IsEqualTo/0":           func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).IsEqualTo(g.expr(0)) },
	"cypher.Asterisk.IsEqualTo/1":           func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).IsEqualTo(g.expr(1)) },
	"cypher.Asterisk.IsNotNull/0":           func(g *G, x interface{}) interface{} { return x.(cy.Asterisk).IsNotNull() },
	"cypher.BooleanLiteral.Add/0":           func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).Add(g.expr(0)) },
	"cypher.BooleanLiteral.Add/1":           func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).Add(g.expr(1)) },
	"cypher.BooleanLiteral.As/0":            func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).As(g.s()) },
	"cypher.BooleanLiteral.Descending/0":    func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).Descending() },
	"cypher.BooleanLiteral.Get/0":           func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).Get() },
	"cypher.BooleanLiteral.In/0":            func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).In(g.expr(0)) },
	"cypher.BooleanLiteral.In/1":            func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).In(g.expr(1)) },
	"cypher.BooleanLiteral.IsEqualTo/0":     func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).IsEqualTo(g.expr(0)) },
	"cypher.BooleanLiteral.IsEqualTo/1":     func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).IsEqualTo(g.expr(1)) },
	"cypher.BooleanLiteral.IsNotNull/0":     func(g *G, x interface{}) interface{} { return x.(cy.BooleanLiteral).IsNotNull() },
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Create(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Delete(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DeleteByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DeleteByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDelete(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDeleteByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDeleteByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Merge(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).RemoveByNode(g.node(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Returning(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinct(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinctByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinctByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).SetByNode(g.node(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).With(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinct(g.expr(0))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinctByNamed(g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinctByString(g.s())
	},
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.BuildableStatementAndOngoingMatchAndUpdate).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.Case.Add/0":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Add(g.expr(0)) },
	"cypher.Case.Add/1":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Add(g.expr(1)) },
	"cypher.Case.And/0":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).And(g.cond(0)) },
	"cypher.Case.And/1":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).And(g.cond(1)) },
	"cypher.Case.AndPattern/0":               func(g *G, x interface{}) interface{} { return x.(cy.Case).AndPattern(g.rel()) },
	"cypher.Case.AndPattern/1":               func(g *G, x interface{}) interface{} { return x.(cy.Case).AndPattern(g.chain()) },
	"cypher.Case.As/0":                       func(g *G, x interface{}) interface{} { return x.(cy.Case).As(g.s()) },
	"cypher.Case.Descending/0":               func(g *G, x interface{}) interface{} { return x.(cy.Case).Descending() },
	"cypher.Case.ElseDefault/0":              func(g *G, x interface{}) interface{} { return x.(cy.Case).ElseDefault(g.expr(0)) },
	"cypher.Case.ElseDefault/1":              func(g *G, x interface{}) interface{} { return x.(cy.Case).ElseDefault(g.expr(1)) },
	"cypher.Case.Get/0":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Get() },
	"cypher.Case.In/0":                       func(g *G, x interface{}) interface{} { return x.(cy.Case).In(g.expr(0)) },
	"cypher.Case.In/1":                       func(g *G, x interface{}) interface{} { return x.(cy.Case).In(g.expr(1)) },
	"cypher.Case.IsEqualTo/0":                func(g *G, x interface{}) interface{} { return x.(cy.Case).IsEqualTo(g.expr(0)) },
	"cypher.Case.IsEqualTo/1":                func(g *G, x interface{}) interface{} { return x.(cy.Case).IsEqualTo(g.expr(1)) },
	"cypher.Case.IsNotNull/0":                func(g *G, x interface{}) interface{} { return x.(cy.Case).IsNotNull() },
	"cypher.Case.Not/0":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Not() },
	"cypher.Case.Or/0":                       func(g *G, x interface{}) interface{} { return x.(cy.Case).Or(g.cond(0)) },
	"cypher.Case.Or/1":                       func(g *G, x interface{}) interface{} { return x.(cy.Case).Or(g.cond(1)) },
	"cypher.Case.OrPattern/0":                func(g *G, x interface{}) interface{} { return x.(cy.Case).OrPattern(g.rel()) },
	"cypher.Case.OrPattern/1":                func(g *G, x interface{}) interface{} { return x.(cy.Case).OrPattern(g.chain()) },
	"cypher.Case.When/0":                     func(g *G, x interface{}) interface{} { return x.(cy.Case).When(g.expr(0)) },
	"cypher.Case.When/1":                     func(g *G, x interface{}) interface{} { return x.(cy.Case).When(g.expr(1)) },
	"cypher.Case.Xor/0":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Xor(g.cond(0)) },
	"cypher.Case.Xor/1":                      func(g *G, x interface{}) interface{} { return x.(cy.Case).Xor(g.cond(1)) },
	"cypher.Case.XorPattern/0":               func(g *G, x interface{}) interface{} { return x.(cy.Case).XorPattern(g.rel()) },
	"cypher.Case.XorPattern/1":               func(g *G, x interface{}) interface{} { return x.(cy.Case).XorPattern(g.chain()) },
	"cypher.CaseEnding.Add/0":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Add(g.expr(0)) },
	"cypher.CaseEnding.Add/1":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Add(g.expr(1)) },
	"cypher.CaseEnding.And/0":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).And(g.cond(0)) },
	"cypher.CaseEnding.And/1":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).And(g.cond(1)) },
	"cypher.CaseEnding.AndPattern/0":         func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).AndPattern(g.rel()) },
	"cypher.CaseEnding.AndPattern/1":         func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).AndPattern(g.chain()) },
	"cypher.CaseEnding.As/0":                 func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).As(g.s()) },
	"cypher.CaseEnding.Descending/0":         func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Descending() },
	"cypher.CaseEnding.ElseDefault/0":        func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).ElseDefault(g.expr(0)) },
	"cypher.CaseEnding.ElseDefault/1":        func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).ElseDefault(g.expr(1)) },
	"cypher.CaseEnding.In/0":                 func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).In(g.expr(0)) },
	"cypher.CaseEnding.In/1":                 func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).In(g.expr(1)) },
	"cypher.CaseEnding.IsEqualTo/0":          func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).IsEqualTo(g.expr(0)) },
	"cypher.CaseEnding.IsEqualTo/1":          func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).IsEqualTo(g.expr(1)) },
	"cypher.CaseEnding.IsNotNull/0":          func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).IsNotNull() },
	"cypher.CaseEnding.Not/0":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Not() },
	"cypher.CaseEnding.Or/0":                 func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Or(g.cond(0)) },
	"cypher.CaseEnding.Or/1":                 func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Or(g.cond(1)) },
	"cypher.CaseEnding.OrPattern/0":          func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).OrPattern(g.rel()) },
	"cypher.CaseEnding.OrPattern/1":          func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).OrPattern(g.chain()) },
	"cypher.CaseEnding.When/0":               func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).When(g.expr(0)) },
	"cypher.CaseEnding.When/1":               func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).When(g.expr(1)) },
	"cypher.CaseEnding.Xor/0":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Xor(g.cond(0)) },
	"cypher.CaseEnding.Xor/1":                func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).Xor(g.cond(1)) },
	"cypher.CaseEnding.XorPattern/0":         func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).XorPattern(g.rel()) },
	"cypher.CaseEnding.XorPattern/1":         func(g *G, x interface{}) interface{} { return x.(cy.CaseEnding).XorPattern(g.chain()) },
	"cypher.Condition.Add/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).Add(g.expr(0)) },
	"cypher.Condition.Add/1":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).Add(g.expr(1)) },
	"cypher.Condition.And/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).And(g.cond(0)) },
	"cypher.Condition.And/1":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).And(g.cond(1)) },
	"cypher.Condition.AndPattern/0":          func(g *G, x interface{}) interface{} { return x.(cy.Condition).AndPattern(g.rel()) },
	"cypher.Condition.AndPattern/1":          func(g *G, x interface{}) interface{} { return x.(cy.Condition).AndPattern(g.chain()) },
	"cypher.Condition.As/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Condition).As(g.s()) },
	"cypher.Condition.Descending/0":          func(g *G, x interface{}) interface{} { return x.(cy.Condition).Descending() },
	"cypher.Condition.In/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Condition).In(g.expr(0)) },
	"cypher.Condition.In/1":                  func(g *G, x interface{}) interface{} { return x.(cy.Condition).In(g.expr(1)) },
	"cypher.Condition.IsEqualTo/0":           func(g *G, x interface{}) interface{} { return x.(cy.Condition).IsEqualTo(g.expr(0)) },
	"cypher.Condition.IsEqualTo/1":           func(g *G, x interface{}) interface{} { return x.(cy.Condition).IsEqualTo(g.expr(1)) },
	"cypher.Condition.IsNotNull/0":           func(g *G, x interface{}) interface{} { return x.(cy.Condition).IsNotNull() },
	"cypher.Condition.Not/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).Not() },
	"cypher.Condition.Or/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Condition).Or(g.cond(0)) },
	"cypher.Condition.Or/1":                  func(g *G, x interface{}) interface{} { return x.(cy.Condition).Or(g.cond(1)) },
	"cypher.Condition.OrPattern/0":           func(g *G, x interface{}) interface{} { return x.(cy.Condition).OrPattern(g.rel()) },
	"cypher.Condition.OrPattern/1":           func(g *G, x interface{}) interface{} { return x.(cy.Condition).OrPattern(g.chain()) },
	"cypher.Condition.Xor/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).Xor(g.cond(0)) },
	"cypher.Condition.Xor/1":                 func(g *G, x interface{}) interface{} { return x.(cy.Condition).Xor(g.cond(1)) },
	"cypher.Condition.XorPattern/0":          func(g *G, x interface{}) interface{} { return x.(cy.Condition).XorPattern(g.rel()) },
	"cypher.Condition.XorPattern/1":          func(g *G, x interface{}) interface{} { return x.(cy.Condition).XorPattern(g.chain()) },
	"cypher.ConditionContainer.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Add(g.expr(0)) },
	"cypher.ConditionContainer.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Add(g.expr(1)) },
	"cypher.ConditionContainer.And/0":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).And(g.cond(0)) },
	"cypher.ConditionContainer.And/1":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).And(g.cond(1)) },
	"cypher.ConditionContainer.AndPattern/0": func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).AndPattern(g.rel()) },
	"cypher.ConditionContainer.AndPattern/1": func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).AndPattern(g.chain()) },
	"cypher.ConditionContainer.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).As(g.s()) },
	"cypher.ConditionContainer.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Descending() },
	"cypher.ConditionContainer.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Get() },
	"cypher.ConditionContainer.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).In(g.expr(0)) },
	"cypher.ConditionContainer.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).In(g.expr(1)) },
	"cypher.ConditionContainer.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).IsEqualTo(g.expr(0)) },
	"cypher.ConditionContainer.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).IsEqualTo(g.expr(1)) },
	"cypher.ConditionContainer.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).IsNotNull() },
	"cypher.ConditionContainer.Not/0":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Not() },
	"cypher.ConditionContainer.Or/0":         func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Or(g.cond(0)) },
	"cypher.ConditionContainer.Or/1":         func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Or(g.cond(1)) },
	"cypher.ConditionContainer.OrPattern/0":  func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).OrPattern(g.rel()) },
	"cypher.ConditionContainer.OrPattern/1":  func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).OrPattern(g.chain()) },
	"cypher.ConditionContainer.Xor/0":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Xor(g.cond(0)) },
	"cypher.ConditionContainer.Xor/1":        func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).Xor(g.cond(1)) },
	"cypher.ConditionContainer.XorPattern/0": func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).XorPattern(g.rel()) },
	"cypher.ConditionContainer.XorPattern/1": func(g *G, x interface{}) interface{} { return x.(cy.ConditionContainer).XorPattern(g.chain()) },
	"cypher.EntryExpression.Add/0":           func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).Add(g.expr(0)) },
	"cypher.EntryExpression.Add/1":           func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).Add(g.expr(1)) },
	"cypher.EntryExpression.As/0":            func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).As(g.s()) },
	"cypher.EntryExpression.Descending/0":    func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).Descending() },
	"cypher.EntryExpression.Get/0":           func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).Get() },
	"cypher.EntryExpression.In/0":            func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).In(g.expr(0)) },
	"cypher.EntryExpression.In/1":            func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).In(g.expr(1)) },
	"cypher.EntryExpression.IsEqualTo/0":     func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).IsEqualTo(g.expr(0)) },
	"cypher.EntryExpression.IsEqualTo/1":     func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).IsEqualTo(g.expr(1)) },
	"cypher.EntryExpression.IsNotNull/0":     func(g *G, x interface{}) interface{} { return x.(cy.EntryExpression).IsNotNull() },
	"cypher.ExposesLimitAndOngoingReadingAndWith.Call/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Call(g.stmt())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Call1/0": func(g *G, x interface{}) interface{} { return x.(cy.ExposesLimitAndOngoingReadingAndWith).Call1(g.s()) },
	"cypher.ExposesLimitAndOngoingReadingAndWith.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Call1(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Create(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Delete(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DeleteByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DeleteByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDelete(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDeleteByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDeleteByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Limit/0": func(g *G, x interface{}) interface{} { return x.(cy.ExposesLimitAndOngoingReadingAndWith).Limit(g.i()) },
	"cypher.ExposesLimitAndOngoingReadingAndWith.Match/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Match(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).MatchDefault(false, g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Merge(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.OptionalMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).OptionalMatch(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).RemoveByNode(g.node(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Returning(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinct(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinctByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinctByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).SetByNode(g.node(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwind/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Unwind(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwind/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Unwind(g.expr(1))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.UnwindByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).UnwindByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwinds/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Unwinds(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).With(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinct(g.expr(0))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinctByNamed(g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinctByString(g.s())
	},
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.ExposesLimitAndOngoingReadingAndWith).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.Expression.Add/0":                 func(g *G, x interface{}) interface{} { return x.(cy.Expression).Add(g.expr(0)) },
	"cypher.Expression.Add/1":                 func(g *G, x interface{}) interface{} { return x.(cy.Expression).Add(g.expr(1)) },
	"cypher.Expression.As/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Expression).As(g.s()) },
	"cypher.Expression.Descending/0":          func(g *G, x interface{}) interface{} { return x.(cy.Expression).Descending() },
	"cypher.Expression.In/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Expression).In(g.expr(0)) },
	"cypher.Expression.In/1":                  func(g *G, x interface{}) interface{} { return x.(cy.Expression).In(g.expr(1)) },
	"cypher.Expression.IsEqualTo/0":           func(g *G, x interface{}) interface{} { return x.(cy.Expression).IsEqualTo(g.expr(0)) },
	"cypher.Expression.IsEqualTo/1":           func(g *G, x interface{}) interface{} { return x.(cy.Expression).IsEqualTo(g.expr(1)) },
	"cypher.Expression.IsNotNull/0":           func(g *G, x interface{}) interface{} { return x.(cy.Expression).IsNotNull() },
	"cypher.ExpressionContainer.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).Add(g.expr(0)) },
	"cypher.ExpressionContainer.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).Add(g.expr(1)) },
	"cypher.ExpressionContainer.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).As(g.s()) },
	"cypher.ExpressionContainer.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).Descending() },
	"cypher.ExpressionContainer.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).Get() },
	"cypher.ExpressionContainer.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).In(g.expr(0)) },
	"cypher.ExpressionContainer.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).In(g.expr(1)) },
	"cypher.ExpressionContainer.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).IsEqualTo(g.expr(0)) },
	"cypher.ExpressionContainer.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).IsEqualTo(g.expr(1)) },
	"cypher.ExpressionContainer.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.ExpressionContainer).IsNotNull() },
	"cypher.FunctionInvocation.Add/0":         func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).Add(g.expr(0)) },
	"cypher.FunctionInvocation.Add/1":         func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).Add(g.expr(1)) },
	"cypher.FunctionInvocation.As/0":          func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).As(g.s()) },
	"cypher.FunctionInvocation.Descending/0":  func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).Descending() },
	"cypher.FunctionInvocation.Get/0":         func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).Get() },
	"cypher.FunctionInvocation.In/0":          func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).In(g.expr(0)) },
	"cypher.FunctionInvocation.In/1":          func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).In(g.expr(1)) },
	"cypher.FunctionInvocation.IsEqualTo/0":   func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).IsEqualTo(g.expr(0)) },
	"cypher.FunctionInvocation.IsEqualTo/1":   func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).IsEqualTo(g.expr(1)) },
	"cypher.FunctionInvocation.IsNotNull/0":   func(g *G, x interface{}) interface{} { return x.(cy.FunctionInvocation).IsNotNull() },
	"cypher.ListComprehension.Add/0":          func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).Add(g.expr(0)) },
	"cypher.ListComprehension.Add/1":          func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).Add(g.expr(1)) },
	"cypher.ListComprehension.As/0":           func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).As(g.s()) },
	"cypher.ListComprehension.Descending/0":   func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).Descending() },
	"cypher.ListComprehension.Get/0":          func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).Get() },
	"cypher.ListComprehension.In/0":           func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).In(g.expr(0)) },
	"cypher.ListComprehension.In/1":           func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).In(g.expr(1)) },
	"cypher.ListComprehension.IsEqualTo/0":    func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).IsEqualTo(g.expr(0)) },
	"cypher.ListComprehension.IsEqualTo/1":    func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).IsEqualTo(g.expr(1)) },
	"cypher.ListComprehension.IsNotNull/0":    func(g *G, x interface{}) interface{} { return x.(cy.ListComprehension).IsNotNull() },
	"cypher.ListExpression.Add/0":             func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).Add(g.expr(0)) },
	"cypher.ListExpression.Add/1":             func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).Add(g.expr(1)) },
	"cypher.ListExpression.As/0":              func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).As(g.s()) },
	"cypher.ListExpression.Descending/0":      func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).Descending() },
	"cypher.ListExpression.Get/0":             func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).Get() },
	"cypher.ListExpression.In/0":              func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).In(g.expr(0)) },
	"cypher.ListExpression.In/1":              func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).In(g.expr(1)) },
	"cypher.ListExpression.IsEqualTo/0":       func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).IsEqualTo(g.expr(0)) },
	"cypher.ListExpression.IsEqualTo/1":       func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).IsEqualTo(g.expr(1)) },
	"cypher.ListExpression.IsNotNull/0":       func(g *G, x interface{}) interface{} { return x.(cy.ListExpression).IsNotNull() },
	"cypher.ListOperator.Add/0":               func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).Add(g.expr(0)) },
	"cypher.ListOperator.Add/1":               func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).Add(g.expr(1)) },
	"cypher.ListOperator.As/0":                func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).As(g.s()) },
	"cypher.ListOperator.Descending/0":        func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).Descending() },
	"cypher.ListOperator.Get/0":               func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).Get() },
	"cypher.ListOperator.In/0":                func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).In(g.expr(0)) },
	"cypher.ListOperator.In/1":                func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).In(g.expr(1)) },
	"cypher.ListOperator.IsEqualTo/0":         func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).IsEqualTo(g.expr(0)) },
	"cypher.ListOperator.IsEqualTo/1":         func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).IsEqualTo(g.expr(1)) },
	"cypher.ListOperator.IsNotNull/0":         func(g *G, x interface{}) interface{} { return x.(cy.ListOperator).IsNotNull() },
	"cypher.Literal.Add/0":                    func(g *G, x interface{}) interface{} { return x.(cy.Literal).Add(g.expr(0)) },
	"cypher.Literal.Add/1":                    func(g *G, x interface{}) interface{} { return x.(cy.Literal).Add(g.expr(1)) },
	"cypher.Literal.As/0":                     func(g *G, x interface{}) interface{} { return x.(cy.Literal).As(g.s()) },
	"cypher.Literal.Descending/0":             func(g *G, x interface{}) interface{} { return x.(cy.Literal).Descending() },
	"cypher.Literal.In/0":                     func(g *G, x interface{}) interface{} { return x.(cy.Literal).In(g.expr(0)) },
	"cypher.Literal.In/1":                     func(g *G, x interface{}) interface{} { return x.(cy.Literal).In(g.expr(1)) },
	"cypher.Literal.IsEqualTo/0":              func(g *G, x interface{}) interface{} { return x.(cy.Literal).IsEqualTo(g.expr(0)) },
	"cypher.Literal.IsEqualTo/1":              func(g *G, x interface{}) interface{} { return x.(cy.Literal).IsEqualTo(g.expr(1)) },
	"cypher.Literal.IsNotNull/0":              func(g *G, x interface{}) interface{} { return x.(cy.Literal).IsNotNull() },
	"cypher.MapExpression.Add/0":              func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).Add(g.expr(0)) },
	"cypher.MapExpression.Add/1":              func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).Add(g.expr(1)) },
	"cypher.MapExpression.AddEntries/0": func(g *G, x interface{}) interface{} {
		return x.(cy.MapExpression).AddEntries([]cy.Expression{cy.EntryExpressionCreate(g.s(), cy.ASymbolic(g.s()))})
	},
	"cypher.MapExpression.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).As(g.s()) },
	"cypher.MapExpression.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).Descending() },
	"cypher.MapExpression.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).Get() },
	"cypher.MapExpression.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).In(g.expr(0)) },
	"cypher.MapExpression.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).In(g.expr(1)) },
	"cypher.MapExpression.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).IsEqualTo(g.expr(0)) },
	"cypher.MapExpression.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).IsEqualTo(g.expr(1)) },
	"cypher.MapExpression.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.MapExpression).IsNotNull() },
	"cypher.MapProjection.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).Add(g.expr(0)) },
	"cypher.MapProjection.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).Add(g.expr(1)) },
	"cypher.MapProjection.And/0":        func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).And(g.s()) },
	"cypher.MapProjection.And/1":        func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).And(g.s(), g.s(), g.expr(0), g.s()) },
	"cypher.MapProjection.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).As(g.s()) },
	"cypher.MapProjection.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).Descending() },
	"cypher.MapProjection.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).Get() },
	"cypher.MapProjection.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).In(g.expr(0)) },
	"cypher.MapProjection.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).In(g.expr(1)) },
	"cypher.MapProjection.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).IsEqualTo(g.expr(0)) },
	"cypher.MapProjection.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).IsEqualTo(g.expr(1)) },
	"cypher.MapProjection.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.MapProjection).IsNotNull() },
	"cypher.Node.As/0":                  func(g *G, x interface{}) interface{} { return x.(cy.Node).As(g.s()) },
	"cypher.Node.HasLabels/0":           func(g *G, x interface{}) interface{} { return x.(cy.Node).HasLabels(g.s()) },
	"cypher.Node.HasLabels/1":           func(g *G, x interface{}) interface{} { return x.(cy.Node).HasLabels(g.s(), g.s(), g.s()) },
	"cypher.Node.InternalId/0":          func(g *G, x interface{}) interface{} { return x.(cy.Node).InternalId() },
	"cypher.Node.Labels/0":              func(g *G, x interface{}) interface{} { return x.(cy.Node).Labels() },
	"cypher.Node.Named/0":               func(g *G, x interface{}) interface{} { return x.(cy.Node).Named(cy.ASymbolic(g.s())) },
	"cypher.Node.NamedByString/0":       func(g *G, x interface{}) interface{} { return x.(cy.Node).NamedByString(g.s()) },
	"cypher.Node.Project/0":             func(g *G, x interface{}) interface{} { return x.(cy.Node).Project(g.s()) },
	"cypher.Node.Project/1":             func(g *G, x interface{}) interface{} { return x.(cy.Node).Project(g.s(), g.s(), g.expr(0), g.s()) },
	"cypher.Node.Property/0":            func(g *G, x interface{}) interface{} { return x.(cy.Node).Property(g.s()) },
	"cypher.Node.RelationshipBetween/0": func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipBetween(g.node(), g.s()) },
	"cypher.Node.RelationshipBetween/1": func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipBetween(g.node(), g.s(), g.s()) },
	"cypher.Node.RelationshipFrom/0":    func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipFrom(g.node(), g.s()) },
	"cypher.Node.RelationshipFrom/1":    func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipFrom(g.node(), g.s(), g.s()) },
	"cypher.Node.RelationshipTo/0":      func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipTo(g.node(), g.s()) },
	"cypher.Node.RelationshipTo/1":      func(g *G, x interface{}) interface{} { return x.(cy.Node).RelationshipTo(g.node(), g.s(), g.s()) },
	"cypher.Node.WithProperties/0":      func(g *G, x interface{}) interface{} { return x.(cy.Node).WithProperties(g.props()) },
	"cypher.Node.WithRawProperties/0":   func(g *G, x interface{}) interface{} { return x.(cy.Node).WithRawProperties(g.s(), g.expr(0)) },
	"cypher.Node.WithRawProperties/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Node).WithRawProperties(g.s(), g.expr(0), g.s(), g.expr(0), g.s(), g.expr(0))
	},
	"cypher.OngoingDefinitionWithList.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithList).Returning(g.expr(0)) },
	"cypher.OngoingDefinitionWithList.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithList).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingDefinitionWithList.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithList).ReturningByNamed(g.node())
	},
	"cypher.OngoingDefinitionWithList.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithList).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingDefinitionWithList.ReturningDefault/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithList).ReturningDefault() },
	"cypher.OngoingDefinitionWithList.Where/0":            func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithList).Where(g.cond(0)) },
	"cypher.OngoingDefinitionWithList.Where/1":            func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithList).Where(g.cond(1)) },
	"cypher.OngoingDefinitionWithName.DefinedBy/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithName).DefinedBy(g.rel()) },
	"cypher.OngoingDefinitionWithName.DefinedBy/1":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithName).DefinedBy(g.chain()) },
	"cypher.OngoingDefinitionWithVariable.In/0":           func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithVariable).In(g.expr(0)) },
	"cypher.OngoingDefinitionWithVariable.In/1":           func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithVariable).In(g.expr(1)) },
	"cypher.OngoingDefinitionWithoutReturn.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithoutReturn).Returning(g.expr(0))
	},
	"cypher.OngoingDefinitionWithoutReturn.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithoutReturn).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingDefinitionWithoutReturn.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithoutReturn).ReturningByNamed(g.node())
	},
	"cypher.OngoingDefinitionWithoutReturn.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingDefinitionWithoutReturn).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingDefinitionWithoutReturn.ReturningDefault/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingDefinitionWithoutReturn).ReturningDefault() },
	"cypher.OngoingInQueryCallWithArguments.Yield/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingInQueryCallWithArguments.Yield/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingInQueryCallWithArguments.YieldString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).YieldString(g.s())
	},
	"cypher.OngoingInQueryCallWithArguments.YieldString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).YieldString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithArguments.YieldSymbolic/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).YieldSymbolic(cy.ASymbolic(g.s()))
	},
	"cypher.OngoingInQueryCallWithArguments.YieldSymbolic/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithArguments).YieldSymbolic(cy.ASymbolic(g.s()), cy.ASymbolic(g.s()), cy.ASymbolic(g.s()))
	},
	"cypher.OngoingInQueryCallWithReturnFields.Call/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingInQueryCallWithReturnFields).Call(g.stmt()) },
	"cypher.OngoingInQueryCallWithReturnFields.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).Returning(g.expr(0))
	},
	"cypher.OngoingInQueryCallWithReturnFields.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningByNamed(g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningByString(g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.Where/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).Where(g.cond(0))
	},
	"cypher.OngoingInQueryCallWithReturnFields.Where/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).Where(g.cond(1))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WhereConditionContainer/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WhereConditionContainer(cy.ConditionWrap(g.cond(0)))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WhereConditionContainer/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WhereConditionContainer(cy.ConditionWrap(g.cond(1)))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WherePattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WherePattern(g.rel())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WherePattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WherePattern(g.chain())
	},
	"cypher.OngoingInQueryCallWithReturnFields.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).With(g.expr(0))
	},
	"cypher.OngoingInQueryCallWithReturnFields.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithByNamed(g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithByString(g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinct(g.expr(0))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinctByString(g.s())
	},
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithReturnFields).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithoutArguments.WithArgs/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).WithArgs(g.expr(0))
	},
	"cypher.OngoingInQueryCallWithoutArguments.WithArgs/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).WithArgs(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingInQueryCallWithoutArguments.Yield/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingInQueryCallWithoutArguments.Yield/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingInQueryCallWithoutArguments.YieldString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).YieldString(g.s())
	},
	"cypher.OngoingInQueryCallWithoutArguments.YieldString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).YieldString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingInQueryCallWithoutArguments.YieldSymbolic/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).YieldSymbolic(cy.ASymbolic(g.s()))
	},
	"cypher.OngoingInQueryCallWithoutArguments.YieldSymbolic/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingInQueryCallWithoutArguments).YieldSymbolic(cy.ASymbolic(g.s()), cy.ASymbolic(g.s()), cy.ASymbolic(g.s()))
	},
	"cypher.OngoingListBasedPredicateFunction.In/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingListBasedPredicateFunction).In(g.expr(0)) },
	"cypher.OngoingListBasedPredicateFunction.In/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingListBasedPredicateFunction).In(g.expr(1)) },
	"cypher.OngoingListBasedPredicateFunctionWithList.Where/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingListBasedPredicateFunctionWithList).Where(g.cond(0))
	},
	"cypher.OngoingListBasedPredicateFunctionWithList.Where/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingListBasedPredicateFunctionWithList).Where(g.cond(1))
	},
	"cypher.OngoingMatchAndReturnWithOrder.And/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingMatchAndReturnWithOrder).And(g.expr(0)) },
	"cypher.OngoingMatchAndReturnWithOrder.And/1":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingMatchAndReturnWithOrder).And(g.expr(1)) },
	"cypher.OngoingMatchAndReturnWithOrder.Limit/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingMatchAndReturnWithOrder).Limit(g.i()) },
	"cypher.OngoingMatchAndReturnWithOrder.Skip/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingMatchAndReturnWithOrder).Skip(g.i()) },
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Create(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Delete(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DeleteByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DeleteByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDelete(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDeleteByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Merge(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.OnCreate/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).OnCreate()
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.OnMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).OnMatch()
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).RemoveByNode(g.node(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Returning(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).SetByNode(g.node(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).With(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinct(g.expr(0))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinctByString(g.s())
	},
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingMergeAction.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMergeAction).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingMergeAction.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMergeAction).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingMergeAction.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMergeAction).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingMergeAction.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingMergeAction).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingOrderDefinition.Ascending/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingOrderDefinition).Ascending() },
	"cypher.OngoingOrderDefinition.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingOrderDefinition).Descending() },
	"cypher.OngoingOrderDefinition.Limit/0":      func(g *G, x interface{}) interface{} { return x.(cy.OngoingOrderDefinition).Limit(g.i()) },
	"cypher.OngoingOrderDefinition.Skip/0":       func(g *G, x interface{}) interface{} { return x.(cy.OngoingOrderDefinition).Skip(g.i()) },
	"cypher.OngoingReading.Call/0":               func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Call(g.stmt()) },
	"cypher.OngoingReading.Call1/0":              func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Call1(g.s()) },
	"cypher.OngoingReading.Call1/1":              func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Call1(g.s(), g.s(), g.s()) },
	"cypher.OngoingReading.Create/0":             func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Create(g.node()) },
	"cypher.OngoingReading.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReading.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Delete(g.expr(0)) },
	"cypher.OngoingReading.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.DeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).DeleteByNamed(g.node()) },
	"cypher.OngoingReading.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).DeleteByString(g.s()) },
	"cypher.OngoingReading.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.DetachDelete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).DetachDelete(g.expr(0)) },
	"cypher.OngoingReading.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).DetachDeleteByNamed(g.node()) },
	"cypher.OngoingReading.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.DetachDeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).DetachDeleteByString(g.s()) },
	"cypher.OngoingReading.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.Merge/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Merge(g.node()) },
	"cypher.OngoingReading.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReading.Remove/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Remove(cy.AProperty(g.s(), g.s())) },
	"cypher.OngoingReading.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReading.RemoveByNode/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).RemoveByNode(g.node(), g.s()) },
	"cypher.OngoingReading.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Returning(g.expr(0)) },
	"cypher.OngoingReading.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.ReturningByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).ReturningByNamed(g.node()) },
	"cypher.OngoingReading.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.ReturningByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).ReturningByString(g.s()) },
	"cypher.OngoingReading.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.ReturningDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).ReturningDistinct(g.expr(0)) },
	"cypher.OngoingReading.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).ReturningDistinctByNamed(g.node()) },
	"cypher.OngoingReading.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).ReturningDistinctByString(g.s()) },
	"cypher.OngoingReading.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingReading.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingReading.SetByNode/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).SetByNode(g.node(), g.s()) },
	"cypher.OngoingReading.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReading.SetWithNamed/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).SetWithNamed(g.node(), g.expr(0)) },
	"cypher.OngoingReading.SetWithNamed/1":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).SetWithNamed(g.rel(), g.expr(2)) },
	"cypher.OngoingReading.Unwind/0":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Unwind(g.expr(0)) },
	"cypher.OngoingReading.Unwind/1":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Unwind(g.expr(1)) },
	"cypher.OngoingReading.UnwindByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).UnwindByString(g.s()) },
	"cypher.OngoingReading.Unwinds/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).Unwinds(g.expr(0)) },
	"cypher.OngoingReading.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).With(g.expr(0)) },
	"cypher.OngoingReading.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithByNamed(g.node()) },
	"cypher.OngoingReading.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithByString(g.s()) },
	"cypher.OngoingReading.WithByString/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithByString(g.s(), g.s(), g.s()) },
	"cypher.OngoingReading.WithDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithDistinct(g.expr(0)) },
	"cypher.OngoingReading.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReading.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithDistinctByNamed(g.node()) },
	"cypher.OngoingReading.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReading.WithDistinctByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReading).WithDistinctByString(g.s()) },
	"cypher.OngoingReading.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReading).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndReturn.Limit/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndReturn).Limit(g.i()) },
	"cypher.OngoingReadingAndReturn.OrderBy/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndReturn).OrderBy(g.expr(0)) },
	"cypher.OngoingReadingAndReturn.OrderBy/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndReturn).OrderBy(g.expr(1)) },
	"cypher.OngoingReadingAndReturn.OrderBySortItem/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndReturn).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OngoingReadingAndReturn.OrderBySortItem/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndReturn).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OngoingReadingAndReturn.Skip/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndReturn).Skip(g.i()) },
	"cypher.OngoingReadingAndWith.Call/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Call(g.stmt()) },
	"cypher.OngoingReadingAndWith.Call1/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Call1(g.s()) },
	"cypher.OngoingReadingAndWith.Call1/1":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Call1(g.s(), g.s(), g.s()) },
	"cypher.OngoingReadingAndWith.Create/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Create(g.node()) },
	"cypher.OngoingReadingAndWith.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWith.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Delete(g.expr(0)) },
	"cypher.OngoingReadingAndWith.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.DeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).DeleteByNamed(g.node()) },
	"cypher.OngoingReadingAndWith.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).DeleteByString(g.s()) },
	"cypher.OngoingReadingAndWith.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.DetachDelete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).DetachDelete(g.expr(0)) },
	"cypher.OngoingReadingAndWith.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingReadingAndWith.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.DetachDeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).DetachDeleteByString(g.s()) },
	"cypher.OngoingReadingAndWith.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.Match/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Match(g.node()) },
	"cypher.OngoingReadingAndWith.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWith.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).MatchDefault(false, g.node())
	},
	"cypher.OngoingReadingAndWith.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWith.Merge/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Merge(g.node()) },
	"cypher.OngoingReadingAndWith.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWith.OptionalMatch/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).OptionalMatch(g.node()) },
	"cypher.OngoingReadingAndWith.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWith.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingAndWith.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingAndWith.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).RemoveByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingAndWith.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Returning(g.expr(0)) },
	"cypher.OngoingReadingAndWith.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.ReturningByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).ReturningByNamed(g.node()) },
	"cypher.OngoingReadingAndWith.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.ReturningByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).ReturningByString(g.s()) },
	"cypher.OngoingReadingAndWith.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingReadingAndWith.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingAndWith.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingReadingAndWith.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingReadingAndWith.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingReadingAndWith.SetByNode/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).SetByNode(g.node(), g.s()) },
	"cypher.OngoingReadingAndWith.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingReadingAndWith.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.Unwind/0":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Unwind(g.expr(0)) },
	"cypher.OngoingReadingAndWith.Unwind/1":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Unwind(g.expr(1)) },
	"cypher.OngoingReadingAndWith.UnwindByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).UnwindByString(g.s()) },
	"cypher.OngoingReadingAndWith.Unwinds/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).Unwinds(g.expr(0)) },
	"cypher.OngoingReadingAndWith.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).With(g.expr(0)) },
	"cypher.OngoingReadingAndWith.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).WithByNamed(g.node()) },
	"cypher.OngoingReadingAndWith.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).WithByString(g.s()) },
	"cypher.OngoingReadingAndWith.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWith.WithDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).WithDistinct(g.expr(0)) },
	"cypher.OngoingReadingAndWith.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWith.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingAndWith.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWith.WithDistinctByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingAndWith).WithDistinctByString(g.s()) },
	"cypher.OngoingReadingAndWith.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWith).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.And1/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).And1(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.And1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).And1(g.expr(1))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Call/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Call(g.stmt())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Call1/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Call1(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Call1(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Create(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Delete(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DeleteByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DeleteByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDelete(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDeleteByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Limit/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Limit(g.i())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Match/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Match(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).MatchDefault(false, g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Merge(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.OptionalMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).OptionalMatch(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).RemoveByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Returning(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).SetByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Skip/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Skip(g.i())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwind/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Unwind(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwind/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Unwind(g.expr(1))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.UnwindByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).UnwindByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwinds/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Unwinds(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).With(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinct(g.expr(0))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinctByString(g.s())
	},
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingAndWithWithWhereAndOrder).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.And/0":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).And(g.cond(0)) },
	"cypher.OngoingReadingWithWhere.And/1":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).And(g.cond(1)) },
	"cypher.OngoingReadingWithWhere.AndPattern/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).AndPattern(g.rel()) },
	"cypher.OngoingReadingWithWhere.AndPattern/1":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).AndPattern(g.chain()) },
	"cypher.OngoingReadingWithWhere.AsCondition/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).AsCondition() },
	"cypher.OngoingReadingWithWhere.Call/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Call(g.stmt()) },
	"cypher.OngoingReadingWithWhere.Call1/0":       func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Call1(g.s()) },
	"cypher.OngoingReadingWithWhere.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Call1(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.Create/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Create(g.node()) },
	"cypher.OngoingReadingWithWhere.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithWhere.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Delete(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.DeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).DeleteByNamed(g.node()) },
	"cypher.OngoingReadingWithWhere.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).DeleteByString(g.s()) },
	"cypher.OngoingReadingWithWhere.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.DetachDelete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).DetachDelete(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingReadingWithWhere.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DetachDeleteByString(g.s())
	},
	"cypher.OngoingReadingWithWhere.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.Match/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Match(g.node()) },
	"cypher.OngoingReadingWithWhere.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithWhere.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).MatchDefault(false, g.node())
	},
	"cypher.OngoingReadingWithWhere.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithWhere.Merge/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Merge(g.node()) },
	"cypher.OngoingReadingWithWhere.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithWhere.OptionalMatch/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).OptionalMatch(g.node()) },
	"cypher.OngoingReadingWithWhere.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithWhere.Or/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Or(g.cond(0)) },
	"cypher.OngoingReadingWithWhere.Or/1":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Or(g.cond(1)) },
	"cypher.OngoingReadingWithWhere.OrPattern/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).OrPattern(g.rel()) },
	"cypher.OngoingReadingWithWhere.OrPattern/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).OrPattern(g.chain()) },
	"cypher.OngoingReadingWithWhere.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingWithWhere.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingWithWhere.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).RemoveByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingWithWhere.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Returning(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningByNamed(g.node())
	},
	"cypher.OngoingReadingWithWhere.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.ReturningByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).ReturningByString(g.s()) },
	"cypher.OngoingReadingWithWhere.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingReadingWithWhere.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingReadingWithWhere.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingReadingWithWhere.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).SetByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingWithWhere.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingReadingWithWhere.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.Unwind/0":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Unwind(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.Unwind/1":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Unwind(g.expr(1)) },
	"cypher.OngoingReadingWithWhere.UnwindByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).UnwindByString(g.s()) },
	"cypher.OngoingReadingWithWhere.Unwinds/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).Unwinds(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).With(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).WithByNamed(g.node()) },
	"cypher.OngoingReadingWithWhere.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).WithByString(g.s()) },
	"cypher.OngoingReadingWithWhere.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithWhere.WithDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithWhere).WithDistinct(g.expr(0)) },
	"cypher.OngoingReadingWithWhere.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithWhere.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingWithWhere.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithWhere.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithDistinctByString(g.s())
	},
	"cypher.OngoingReadingWithWhere.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithWhere).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.AsCondition/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).AsCondition() },
	"cypher.OngoingReadingWithoutWhere.Call/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Call(g.stmt()) },
	"cypher.OngoingReadingWithoutWhere.Call1/0":       func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Call1(g.s()) },
	"cypher.OngoingReadingWithoutWhere.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Call1(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.Create/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Create(g.node()) },
	"cypher.OngoingReadingWithoutWhere.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Delete(g.expr(0)) },
	"cypher.OngoingReadingWithoutWhere.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DeleteByNamed(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).DeleteByString(g.s()) },
	"cypher.OngoingReadingWithoutWhere.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDelete(g.expr(0))
	},
	"cypher.OngoingReadingWithoutWhere.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDeleteByString(g.s())
	},
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.Match/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Match(g.node()) },
	"cypher.OngoingReadingWithoutWhere.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).MatchDefault(false, g.node())
	},
	"cypher.OngoingReadingWithoutWhere.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.Merge/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Merge(g.node()) },
	"cypher.OngoingReadingWithoutWhere.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.OptionalMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).OptionalMatch(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingWithoutWhere.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OngoingReadingWithoutWhere.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).RemoveByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Returning(g.expr(0)) },
	"cypher.OngoingReadingWithoutWhere.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningByNamed(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningByString(g.s())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingReadingWithoutWhere.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingReadingWithoutWhere.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).SetByNode(g.node(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingReadingWithoutWhere.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.Unwind/0":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Unwind(g.expr(0)) },
	"cypher.OngoingReadingWithoutWhere.Unwind/1":         func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Unwind(g.expr(1)) },
	"cypher.OngoingReadingWithoutWhere.UnwindByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).UnwindByString(g.s()) },
	"cypher.OngoingReadingWithoutWhere.Unwinds/0":        func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Unwinds(g.expr(0)) },
	"cypher.OngoingReadingWithoutWhere.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.Where/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Where(g.cond(0)) },
	"cypher.OngoingReadingWithoutWhere.Where/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).Where(g.cond(1)) },
	"cypher.OngoingReadingWithoutWhere.WhereConditionContainer/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WhereConditionContainer(cy.ConditionWrap(g.cond(0)))
	},
	"cypher.OngoingReadingWithoutWhere.WhereConditionContainer/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WhereConditionContainer(cy.ConditionWrap(g.cond(1)))
	},
	"cypher.OngoingReadingWithoutWhere.WherePattern/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).WherePattern(g.rel()) },
	"cypher.OngoingReadingWithoutWhere.WherePattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WherePattern(g.chain())
	},
	"cypher.OngoingReadingWithoutWhere.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).With(g.expr(0)) },
	"cypher.OngoingReadingWithoutWhere.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).WithByNamed(g.node()) },
	"cypher.OngoingReadingWithoutWhere.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingReadingWithoutWhere).WithByString(g.s()) },
	"cypher.OngoingReadingWithoutWhere.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinct(g.expr(0))
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinctByString(g.s())
	},
	"cypher.OngoingReadingWithoutWhere.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingReadingWithoutWhere).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingShortestPathDefinitionWithName.DefinedBy/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingShortestPathDefinitionWithName).DefinedBy(g.rel())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.Call/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).Call(g.stmt())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).Returning(g.expr(0))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningByNamed(g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningByString(g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.Where/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).Where(g.cond(0))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.Where/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).Where(g.cond(1))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WhereConditionContainer/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WhereConditionContainer(cy.ConditionWrap(g.cond(0)))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WhereConditionContainer/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WhereConditionContainer(cy.ConditionWrap(g.cond(1)))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WherePattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WherePattern(g.rel())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WherePattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WherePattern(g.chain())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).With(g.expr(0))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithByNamed(g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithByString(g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinct(g.expr(0))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinctByString(g.s())
	},
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithReturnFields).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingStandaloneCallWithoutArguments.AsFunction/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).AsFunction()
	},
	"cypher.OngoingStandaloneCallWithoutArguments.WithArgs/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).WithArgs(g.expr(0))
	},
	"cypher.OngoingStandaloneCallWithoutArguments.WithArgs/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).WithArgs(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingStandaloneCallWithoutArguments.Yield/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingStandaloneCallWithoutArguments.Yield/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).Yield(cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()), cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s()))
	},
	"cypher.OngoingStandaloneCallWithoutArguments.YieldString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).YieldString(g.s())
	},
	"cypher.OngoingStandaloneCallWithoutArguments.YieldString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).YieldString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingStandaloneCallWithoutArguments.YieldSymbolic/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).YieldSymbolic(cy.ASymbolic(g.s()))
	},
	"cypher.OngoingStandaloneCallWithoutArguments.YieldSymbolic/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingStandaloneCallWithoutArguments).YieldSymbolic(cy.ASymbolic(g.s()), cy.ASymbolic(g.s()), cy.ASymbolic(g.s()))
	},
	"cypher.OngoingUnwind.As/0":     func(g *G, x interface{}) interface{} { return x.(cy.OngoingUnwind).As(g.s()) },
	"cypher.OngoingUpdate.Create/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).Create(g.node()) },
	"cypher.OngoingUpdate.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingUpdate.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).Delete(g.expr(0)) },
	"cypher.OngoingUpdate.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.DeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DeleteByNamed(g.node()) },
	"cypher.OngoingUpdate.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DeleteByString(g.s()) },
	"cypher.OngoingUpdate.DeleteByString/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DeleteByString(g.s(), g.s(), g.s()) },
	"cypher.OngoingUpdate.DetachDelete/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DetachDelete(g.expr(0)) },
	"cypher.OngoingUpdate.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DetachDeleteByNamed(g.node()) },
	"cypher.OngoingUpdate.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.DetachDeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).DetachDeleteByString(g.s()) },
	"cypher.OngoingUpdate.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdate.Merge/0":     func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).Merge(g.node()) },
	"cypher.OngoingUpdate.Merge/1":     func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).Merge(g.node(), g.rel(), g.chain()) },
	"cypher.OngoingUpdate.OnCreate/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).OnCreate() },
	"cypher.OngoingUpdate.OnMatch/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).OnMatch() },
	"cypher.OngoingUpdate.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).Returning(g.expr(0)) },
	"cypher.OngoingUpdate.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.ReturningByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).ReturningByNamed(g.node()) },
	"cypher.OngoingUpdate.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.ReturningByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).ReturningByString(g.s()) },
	"cypher.OngoingUpdate.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdate.ReturningDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).ReturningDistinct(g.expr(0)) },
	"cypher.OngoingUpdate.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).ReturningDistinctByNamed(g.node()) },
	"cypher.OngoingUpdate.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).ReturningDistinctByString(g.s()) },
	"cypher.OngoingUpdate.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdate.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).With(g.expr(0)) },
	"cypher.OngoingUpdate.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithByNamed(g.node()) },
	"cypher.OngoingUpdate.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithByString(g.s()) },
	"cypher.OngoingUpdate.WithByString/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithByString(g.s(), g.s(), g.s()) },
	"cypher.OngoingUpdate.WithDistinct/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithDistinct(g.expr(0)) },
	"cypher.OngoingUpdate.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdate.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithDistinctByNamed(g.node()) },
	"cypher.OngoingUpdate.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdate.WithDistinctByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdate).WithDistinctByString(g.s()) },
	"cypher.OngoingUpdate.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdate).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.Create/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).Create(g.node()) },
	"cypher.OngoingUpdateAndExposesSet.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingUpdateAndExposesSet.Delete/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).Delete(g.expr(0)) },
	"cypher.OngoingUpdateAndExposesSet.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DeleteByNamed(g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.DeleteByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).DeleteByString(g.s()) },
	"cypher.OngoingUpdateAndExposesSet.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDelete(g.expr(0))
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDeleteByNamed(g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDeleteByString(g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.Merge/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).Merge(g.node()) },
	"cypher.OngoingUpdateAndExposesSet.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OngoingUpdateAndExposesSet.OnCreate/0":  func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).OnCreate() },
	"cypher.OngoingUpdateAndExposesSet.OnMatch/0":   func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).OnMatch() },
	"cypher.OngoingUpdateAndExposesSet.Returning/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).Returning(g.expr(0)) },
	"cypher.OngoingUpdateAndExposesSet.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningByNamed(g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningByString(g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinct(g.expr(0))
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinctByNamed(g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinctByString(g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OngoingUpdateAndExposesSet.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OngoingUpdateAndExposesSet.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OngoingUpdateAndExposesSet.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.With/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).With(g.expr(0)) },
	"cypher.OngoingUpdateAndExposesSet.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.WithByNamed/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).WithByNamed(g.node()) },
	"cypher.OngoingUpdateAndExposesSet.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.WithByString/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingUpdateAndExposesSet).WithByString(g.s()) },
	"cypher.OngoingUpdateAndExposesSet.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinct(g.expr(0))
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinctByNamed(g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinctByString(g.s())
	},
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OngoingUpdateAndExposesSet).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OngoingWhenThen.Then/0": func(g *G, x interface{}) interface{} { return x.(cy.OngoingWhenThen).Then(g.expr(0)) },
	"cypher.OngoingWhenThen.Then/1": func(g *G, x interface{}) interface{} { return x.(cy.OngoingWhenThen).Then(g.expr(1)) },
	"cypher.Operation.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.Operation).Add(g.expr(0)) },
	"cypher.Operation.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.Operation).Add(g.expr(1)) },
	"cypher.Operation.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.Operation).As(g.s()) },
	"cypher.Operation.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.Operation).Descending() },
	"cypher.Operation.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.Operation).Get() },
	"cypher.Operation.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.Operation).In(g.expr(0)) },
	"cypher.Operation.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.Operation).In(g.expr(1)) },
	"cypher.Operation.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.Operation).IsEqualTo(g.expr(0)) },
	"cypher.Operation.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.Operation).IsEqualTo(g.expr(1)) },
	"cypher.Operation.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.Operation).IsNotNull() },
	"cypher.OrderableOngoingReadingAndWithWithWhere.And/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).And(g.cond(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.And/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).And(g.cond(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.AndPattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).AndPattern(g.rel())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.AndPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).AndPattern(g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Call/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Call(g.stmt())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Call1/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Call1(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Call1(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Create(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Delete(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DeleteByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DeleteByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDelete(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDeleteByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDeleteByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Limit/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Limit(g.i())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Match/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Match(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).MatchDefault(false, g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Merge(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OptionalMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OptionalMatch(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Or/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Or(g.cond(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Or/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Or(g.cond(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrPattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrPattern(g.rel())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrPattern(g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderByExpression/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrderByExpression(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderByExpression/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrderByExpression(g.expr(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderBySortItem/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderBySortItem/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).RemoveByNode(g.node(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Returning(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinct(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinctByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinctByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).SetByNode(g.node(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Skip/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Skip(g.i())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwind/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Unwind(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwind/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Unwind(g.expr(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.UnwindByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).UnwindByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwinds/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Unwinds(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).With(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinct(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinctByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinctByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithWhere).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Call/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Call(g.stmt())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Call1/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Call1(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Call1/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Call1(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Create/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Create(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Create/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Create(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Delete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Delete(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Delete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Delete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DeleteByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DeleteByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDelete/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDelete(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDelete/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDelete(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDeleteByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDeleteByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDeleteByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).DetachDeleteByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Limit/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Limit(g.i())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Match/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Match(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Match/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Match(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.MatchDefault/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).MatchDefault(false, g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.MatchDefault/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).MatchDefault(true, g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Merge/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Merge(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Merge/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Merge(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OptionalMatch/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OptionalMatch(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OptionalMatch/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OptionalMatch(g.node(), g.rel(), g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderByExpression/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OrderByExpression(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderByExpression/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OrderByExpression(g.expr(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderBySortItem/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderBySortItem/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).OrderBySortItem(cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending(), cy.Sort(cy.ASymbolic(g.s())).Descending())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Remove/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Remove(cy.AProperty(g.s(), g.s()))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Remove/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Remove(cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()), cy.AProperty(g.s(), g.s()))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.RemoveByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).RemoveByNode(g.node(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.RemoveByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).RemoveByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Returning(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinct(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinctByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinctByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).ReturningDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Set/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Set/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Set(cy.AProperty(g.s(), g.s()), g.expr(0), cy.AProperty(g.s(), g.s()), g.expr(2), cy.AProperty(g.s(), g.s()), g.expr(4))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetByNode/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).SetByNode(g.node(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetByNode/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).SetByNode(g.node(), g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetWithNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).SetWithNamed(g.node(), g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetWithNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).SetWithNamed(g.rel(), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Skip/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Skip(g.i())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwind/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Unwind(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwind/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Unwind(g.expr(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.UnwindByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).UnwindByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwinds/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Unwinds(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwinds/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Unwinds(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Where/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Where(g.cond(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Where/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).Where(g.cond(1))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WherePattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WherePattern(g.rel())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WherePattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WherePattern(g.chain())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.With/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).With(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.With/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).With(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithByString(g.s(), g.s(), g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinct/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinct(g.expr(0))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinct/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinct(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinctByNamed(g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinctByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByString/0": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinctByString(g.s())
	},
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByString/1": func(g *G, x interface{}) interface{} {
		return x.(cy.OrderableOngoingReadingAndWithWithoutWhere).WithDistinctByString(g.s(), g.s(), g.s())
	},
	"cypher.Parameter.Add/0":                   func(g *G, x interface{}) interface{} { return x.(cy.Parameter).Add(g.expr(0)) },
	"cypher.Parameter.Add/1":                   func(g *G, x interface{}) interface{} { return x.(cy.Parameter).Add(g.expr(1)) },
	"cypher.Parameter.As/0":                    func(g *G, x interface{}) interface{} { return x.(cy.Parameter).As(g.s()) },
	"cypher.Parameter.Descending/0":            func(g *G, x interface{}) interface{} { return x.(cy.Parameter).Descending() },
	"cypher.Parameter.Get/0":                   func(g *G, x interface{}) interface{} { return x.(cy.Parameter).Get() },
	"cypher.Parameter.In/0":                    func(g *G, x interface{}) interface{} { return x.(cy.Parameter).In(g.expr(0)) },
	"cypher.Parameter.In/1":                    func(g *G, x interface{}) interface{} { return x.(cy.Parameter).In(g.expr(1)) },
	"cypher.Parameter.IsEqualTo/0":             func(g *G, x interface{}) interface{} { return x.(cy.Parameter).IsEqualTo(g.expr(0)) },
	"cypher.Parameter.IsEqualTo/1":             func(g *G, x interface{}) interface{} { return x.(cy.Parameter).IsEqualTo(g.expr(1)) },
	"cypher.Parameter.IsNotNull/0":             func(g *G, x interface{}) interface{} { return x.(cy.Parameter).IsNotNull() },
	"cypher.PatternComprehension.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).Add(g.expr(0)) },
	"cypher.PatternComprehension.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).Add(g.expr(1)) },
	"cypher.PatternComprehension.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).As(g.s()) },
	"cypher.PatternComprehension.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).Descending() },
	"cypher.PatternComprehension.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).Get() },
	"cypher.PatternComprehension.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).In(g.expr(0)) },
	"cypher.PatternComprehension.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).In(g.expr(1)) },
	"cypher.PatternComprehension.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).IsEqualTo(g.expr(0)) },
	"cypher.PatternComprehension.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).IsEqualTo(g.expr(1)) },
	"cypher.PatternComprehension.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.PatternComprehension).IsNotNull() },
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).Returning(g.expr(0))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).ReturningByNamed(g.node())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Where/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).Where(g.cond(0))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Where/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).Where(g.cond(1))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.WherePattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).WherePattern(g.rel())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.WherePattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPattern).WherePattern(g.chain())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.And/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).And(g.cond(0))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.And/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).And(g.cond(1))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.AndPattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).AndPattern(g.rel())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.AndPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).AndPattern(g.chain())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Or/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).Or(g.cond(0))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Or/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).Or(g.cond(1))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.OrPattern/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).OrPattern(g.rel())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.OrPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).OrPattern(g.chain())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Returning/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).Returning(g.expr(0))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Returning/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).Returning(g.expr(0), g.expr(1), g.expr(2))
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.ReturningByNamed/0": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).ReturningByNamed(g.node())
	},
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.ReturningByNamed/1": func(g *G, x interface{}) interface{} {
		return x.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere).ReturningByNamed(g.node(), g.rel(), g.node())
	},
	"cypher.Property.Add/0":               func(g *G, x interface{}) interface{} { return x.(cy.Property).Add(g.expr(0)) },
	"cypher.Property.Add/1":               func(g *G, x interface{}) interface{} { return x.(cy.Property).Add(g.expr(1)) },
	"cypher.Property.As/0":                func(g *G, x interface{}) interface{} { return x.(cy.Property).As(g.s()) },
	"cypher.Property.Descending/0":        func(g *G, x interface{}) interface{} { return x.(cy.Property).Descending() },
	"cypher.Property.Get/0":               func(g *G, x interface{}) interface{} { return x.(cy.Property).Get() },
	"cypher.Property.In/0":                func(g *G, x interface{}) interface{} { return x.(cy.Property).In(g.expr(0)) },
	"cypher.Property.In/1":                func(g *G, x interface{}) interface{} { return x.(cy.Property).In(g.expr(1)) },
	"cypher.Property.IsEqualTo/0":         func(g *G, x interface{}) interface{} { return x.(cy.Property).IsEqualTo(g.expr(0)) },
	"cypher.Property.IsEqualTo/1":         func(g *G, x interface{}) interface{} { return x.(cy.Property).IsEqualTo(g.expr(1)) },
	"cypher.Property.IsNotNull/0":         func(g *G, x interface{}) interface{} { return x.(cy.Property).IsNotNull() },
	"cypher.Property.To/0":                func(g *G, x interface{}) interface{} { return x.(cy.Property).To(g.expr(0)) },
	"cypher.Property.To/1":                func(g *G, x interface{}) interface{} { return x.(cy.Property).To(g.expr(1)) },
	"cypher.Relationship.Length/0":        func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Length(g.i(), g.i()) },
	"cypher.Relationship.Max/0":           func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Max(g.i()) },
	"cypher.Relationship.Min/0":           func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Min(g.i()) },
	"cypher.Relationship.Named/0":         func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Named(g.s()) },
	"cypher.Relationship.NamedByString/0": func(g *G, x interface{}) interface{} { return x.(cy.Relationship).NamedByString(g.s()) },
	"cypher.Relationship.NamedC/0":        func(g *G, x interface{}) interface{} { return x.(cy.Relationship).NamedC(g.s()) },
	"cypher.Relationship.Project/0":       func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Project(g.s()) },
	"cypher.Relationship.Project/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Relationship).Project(g.s(), g.s(), g.expr(0), g.s())
	},
	"cypher.Relationship.Property/0":            func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Property(g.s()) },
	"cypher.Relationship.RelationshipBetween/0": func(g *G, x interface{}) interface{} { return x.(cy.Relationship).RelationshipBetween(g.node(), g.s()) },
	"cypher.Relationship.RelationshipBetween/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Relationship).RelationshipBetween(g.node(), g.s(), g.s())
	},
	"cypher.Relationship.RelationshipFrom/0": func(g *G, x interface{}) interface{} { return x.(cy.Relationship).RelationshipFrom(g.node(), g.s()) },
	"cypher.Relationship.RelationshipFrom/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Relationship).RelationshipFrom(g.node(), g.s(), g.s())
	},
	"cypher.Relationship.RelationshipTo/0": func(g *G, x interface{}) interface{} { return x.(cy.Relationship).RelationshipTo(g.node(), g.s()) },
	"cypher.Relationship.RelationshipTo/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Relationship).RelationshipTo(g.node(), g.s(), g.s())
	},
	"cypher.Relationship.Unbounded/0":         func(g *G, x interface{}) interface{} { return x.(cy.Relationship).Unbounded() },
	"cypher.Relationship.WithProperties/0":    func(g *G, x interface{}) interface{} { return x.(cy.Relationship).WithProperties(g.props()) },
	"cypher.Relationship.WithRawProperties/0": func(g *G, x interface{}) interface{} { return x.(cy.Relationship).WithRawProperties(g.s(), g.expr(0)) },
	"cypher.Relationship.WithRawProperties/1": func(g *G, x interface{}) interface{} {
		return x.(cy.Relationship).WithRawProperties(g.s(), g.expr(0), g.s(), g.expr(0), g.s(), g.expr(0))
	},
	"cypher.RelationshipChain.Add/0":           func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Add(g.rel()) },
	"cypher.RelationshipChain.Length/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Length(g.i(), g.i()) },
	"cypher.RelationshipChain.Max/0":           func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Max(g.i()) },
	"cypher.RelationshipChain.Min/0":           func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Min(g.i()) },
	"cypher.RelationshipChain.Named/0":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Named(g.s()) },
	"cypher.RelationshipChain.NamedC/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).NamedC(g.s()) },
	"cypher.RelationshipChain.Properties/0":    func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Properties(g.props()) },
	"cypher.RelationshipChain.PropertiesRaw/0": func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).PropertiesRaw(g.s(), g.expr(0)) },
	"cypher.RelationshipChain.PropertiesRaw/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).PropertiesRaw(g.s(), g.expr(0), g.s(), g.expr(0), g.s(), g.expr(0))
	},
	"cypher.RelationshipChain.RelationshipBetween/0": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).RelationshipBetween(g.node(), g.s())
	},
	"cypher.RelationshipChain.RelationshipBetween/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).RelationshipBetween(g.node(), g.s(), g.s())
	},
	"cypher.RelationshipChain.RelationshipFrom/0": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).RelationshipFrom(g.node(), g.s())
	},
	"cypher.RelationshipChain.RelationshipFrom/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).RelationshipFrom(g.node(), g.s(), g.s())
	},
	"cypher.RelationshipChain.RelationshipTo/0": func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).RelationshipTo(g.node(), g.s()) },
	"cypher.RelationshipChain.RelationshipTo/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipChain).RelationshipTo(g.node(), g.s(), g.s())
	},
	"cypher.RelationshipChain.Unbounded/0":             func(g *G, x interface{}) interface{} { return x.(cy.RelationshipChain).Unbounded() },
	"cypher.RelationshipPatternCondition.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Add(g.expr(0)) },
	"cypher.RelationshipPatternCondition.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Add(g.expr(1)) },
	"cypher.RelationshipPatternCondition.And/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).And(g.cond(0)) },
	"cypher.RelationshipPatternCondition.And/1":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).And(g.cond(1)) },
	"cypher.RelationshipPatternCondition.AndPattern/0": func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).AndPattern(g.rel()) },
	"cypher.RelationshipPatternCondition.AndPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipPatternCondition).AndPattern(g.chain())
	},
	"cypher.RelationshipPatternCondition.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).As(g.s()) },
	"cypher.RelationshipPatternCondition.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Descending() },
	"cypher.RelationshipPatternCondition.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Get() },
	"cypher.RelationshipPatternCondition.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).In(g.expr(0)) },
	"cypher.RelationshipPatternCondition.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).In(g.expr(1)) },
	"cypher.RelationshipPatternCondition.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).IsEqualTo(g.expr(0)) },
	"cypher.RelationshipPatternCondition.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).IsEqualTo(g.expr(1)) },
	"cypher.RelationshipPatternCondition.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).IsNotNull() },
	"cypher.RelationshipPatternCondition.Not/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Not() },
	"cypher.RelationshipPatternCondition.Or/0":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Or(g.cond(0)) },
	"cypher.RelationshipPatternCondition.Or/1":         func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Or(g.cond(1)) },
	"cypher.RelationshipPatternCondition.OrPattern/0":  func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).OrPattern(g.rel()) },
	"cypher.RelationshipPatternCondition.OrPattern/1":  func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).OrPattern(g.chain()) },
	"cypher.RelationshipPatternCondition.Xor/0":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Xor(g.cond(0)) },
	"cypher.RelationshipPatternCondition.Xor/1":        func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).Xor(g.cond(1)) },
	"cypher.RelationshipPatternCondition.XorPattern/0": func(g *G, x interface{}) interface{} { return x.(cy.RelationshipPatternCondition).XorPattern(g.rel()) },
	"cypher.RelationshipPatternCondition.XorPattern/1": func(g *G, x interface{}) interface{} {
		return x.(cy.RelationshipPatternCondition).XorPattern(g.chain())
	},
	"cypher.SortItem.Descending/0":     func(g *G, x interface{}) interface{} { return x.(cy.SortItem).Descending() },
	"cypher.SymbolicName.Add/0":        func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).Add(g.expr(0)) },
	"cypher.SymbolicName.Add/1":        func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).Add(g.expr(1)) },
	"cypher.SymbolicName.As/0":         func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).As(g.s()) },
	"cypher.SymbolicName.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).Descending() },
	"cypher.SymbolicName.Get/0":        func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).Get() },
	"cypher.SymbolicName.In/0":         func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).In(g.expr(0)) },
	"cypher.SymbolicName.In/1":         func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).In(g.expr(1)) },
	"cypher.SymbolicName.IsEqualTo/0":  func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).IsEqualTo(g.expr(0)) },
	"cypher.SymbolicName.IsEqualTo/1":  func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).IsEqualTo(g.expr(1)) },
	"cypher.SymbolicName.IsNotNull/0":  func(g *G, x interface{}) interface{} { return x.(cy.SymbolicName).IsNotNull() },
	"cypher.TerminalExposesLimitAndBuildableStatement.Limit/0": func(g *G, x interface{}) interface{} {
		return x.(cy.TerminalExposesLimitAndBuildableStatement).Limit(g.i())
	},
	"cypher.TerminalOngoingOrderDefinition.Ascending/0":  func(g *G, x interface{}) interface{} { return x.(cy.TerminalOngoingOrderDefinition).Ascending() },
	"cypher.TerminalOngoingOrderDefinition.Descending/0": func(g *G, x interface{}) interface{} { return x.(cy.TerminalOngoingOrderDefinition).Descending() },
	"cypher.TerminalOngoingOrderDefinition.Limit/0":      func(g *G, x interface{}) interface{} { return x.(cy.TerminalOngoingOrderDefinition).Limit(g.i()) },
	"cypher.TerminalOngoingOrderDefinition.Skip/0":       func(g *G, x interface{}) interface{} { return x.(cy.TerminalOngoingOrderDefinition).Skip(g.i()) },
}
