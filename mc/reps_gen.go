package main

// written by mc gen

var genReps = []repKey{
	{"ACall", 0, []apiStep{}},
	{"AnOptionalMatch", 0, []apiStep{}},
	{"AnyNodeNamed", 0, []apiStep{}},
	{"AParam", 0, []apiStep{}},
	{"APath", 0, []apiStep{}},
	{"AProperty", 0, []apiStep{}},
	{"AShortestPath", 0, []apiStep{}},
	{"ASubList", 0, []apiStep{}},
	{"ASymbolic", 0, []apiStep{}},
	{"AliasedExpressionCreate", 0, []apiStep{}},
	{"AnAsterisk", 0, []apiStep{}},
	{"Avg", 0, []apiStep{}},
	{"CaseExpression", 0, []apiStep{}},
	{"ConditionWrap", 0, []apiStep{}},
	{"ConditionsIsFalse", 0, []apiStep{}},
	{"Merge", 0, []apiStep{}},
	{"CypherListWith", 0, []apiStep{}},
	{"CypherReturning", 0, []apiStep{}},
	{"EntryExpressionCreate", 0, []apiStep{}},
	{"ExpressionWrap", 0, []apiStep{}},
	{"ListBasedOn", 0, []apiStep{}},
	{"ListOf", 0, []apiStep{}},
	{"LiteralFalse", 0, []apiStep{}},
	{"LiteralOf", 0, []apiStep{}},
	{"MapOf", 0, []apiStep{}},
	{"OperationAdd", 0, []apiStep{}},
	{"PredicateAll", 0, []apiStep{}},
	{"RelationshipPatternConditionCreate", 0, []apiStep{}},
	{"Sort", 0, []apiStep{}},
	{"SubList", 0, []apiStep{}},
	{"Union", 0, []apiStep{}},
	{"Unwind", 0, []apiStep{}},
	{"With", 0, []apiStep{}},
	{"ACall", 0, []apiStep{{"Yield", 0}}},
	{"ACallByStatement", 0, []apiStep{{"Call1", 0}}},
	{"ACallByStatement", 0, []apiStep{{"Delete", 0}}},
	{"ACallByStatement", 0, []apiStep{{"Remove", 0}}},
	{"AnOptionalMatch", 0, []apiStep{{"Where", 0}}},
	{"AnyNodeNamed", 0, []apiStep{{"Project", 0}}},
	{"ANode", 0, []apiStep{{"RelationshipBetween", 0}, {"Named", 0}}},
	{"APath", 0, []apiStep{{"DefinedBy", 0}}},
	{"CaseExpression", 0, []apiStep{{"ElseDefault", 0}}},
	{"CaseExpression", 0, []apiStep{{"When", 0}}},
	{"Merge", 0, []apiStep{{"OnCreate", 0}}},
	{"CypherListWith", 0, []apiStep{{"In", 0}}},
	{"CypherReturning", 0, []apiStep{{"Limit", 0}}},
	{"CypherReturning", 0, []apiStep{{"OrderBy", 0}}},
	{"CypherReturning", 0, []apiStep{{"OrderBySortItem", 0}}},
	{"CypherReturning", 0, []apiStep{{"Skip", 0}}},
	{"ListBasedOn", 0, []apiStep{{"Returning", 0}}},
	{"ListBasedOn", 0, []apiStep{{"Where", 0}}},
	{"PredicateAll", 0, []apiStep{{"In", 0}}},
	{"Unwind", 0, []apiStep{{"As", 0}}},
	{"With", 0, []apiStep{{"Limit", 0}}},
	{"With", 0, []apiStep{{"OrderByExpression", 0}}},
	{"With", 0, []apiStep{{"OrderBySortItem", 0}}},
	{"With", 0, []apiStep{{"Skip", 0}}},
	{"ACallByStatement", 0, []apiStep{{"Call1", 0}, {"WithArgs", 0}}},
	{"ACallByStatement", 0, []apiStep{{"Call1", 0}, {"Yield", 0}}},
	{"ANode", 0, []apiStep{{"RelationshipBetween", 0}, {"RelationshipBetween", 0}}},
	{"Merge", 0, []apiStep{{"OnCreate", 0}, {"Set", 0}}},
	{"CypherListWith", 0, []apiStep{{"In", 0}, {"Returning", 0}}},
	{"CypherListWith", 0, []apiStep{{"In", 0}, {"Where", 0}}},
	{"With", 0, []apiStep{{"OrderByExpression", 0}, {"Ascending", 0}}},
}

var genMethods = map[string]bool{
	"cypher.AliasedExpression.Add":                                                true,
	"cypher.AliasedExpression.Aliased":                                            true,
	"cypher.AliasedExpression.As":                                                 true,
	"cypher.AliasedExpression.AsName":                                             true,
	"cypher.AliasedExpression.Descending":                                         true,
	"cypher.AliasedExpression.Get":                                                true,
	"cypher.AliasedExpression.In":                                                 true,
	"cypher.AliasedExpression.IsEqualTo":                                          true,
	"cypher.AliasedExpression.IsNotNull":                                          true,
	"cypher.Asterisk.Add":                                                         true,
	"cypher.Asterisk.As":                                                          true,
	"cypher.Asterisk.Descending":                                                  true,
	"cypher.Asterisk.Get":                                                         true,
	"cypher.Asterisk.In":                                                          true,
	"cypher.Asterisk.IsEqualTo":                                                   true,
	"cypher.Asterisk.IsNotNull":                                                   true,
	"cypher.BooleanLiteral.Add":                                                   true,
	"cypher.BooleanLiteral.As":                                                    true,
	"cypher.BooleanLiteral.Descending":                                            true,
	"cypher.BooleanLiteral.Get":                                                   true,
	"cypher.BooleanLiteral.In":                                                    true,
	"cypher.BooleanLiteral.IsEqualTo":                                             true,
	"cypher.BooleanLiteral.IsNotNull":                                             true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Create":                    true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Delete":                    true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByNamed":             true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DeleteByString":            true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDelete":              true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByNamed":       true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.DetachDeleteByString":      true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Merge":                     true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Remove":                    true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.RemoveByNode":              true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Returning":                 true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByNamed":          true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningByString":         true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinct":         true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByNamed":  true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.ReturningDistinctByString": true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.Set":                       true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetByNode":                 true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.SetWithNamed":              true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.With":                      true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByNamed":               true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithByString":              true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinct":              true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByNamed":       true,
	"cypher.BuildableStatementAndOngoingMatchAndUpdate.WithDistinctByString":      true,
	"cypher.Case.Add":                                                               true,
	"cypher.Case.And":                                                               true,
	"cypher.Case.AndPattern":                                                        true,
	"cypher.Case.As":                                                                true,
	"cypher.Case.Descending":                                                        true,
	"cypher.Case.ElseDefault":                                                       true,
	"cypher.Case.Get":                                                               true,
	"cypher.Case.In":                                                                true,
	"cypher.Case.IsEqualTo":                                                         true,
	"cypher.Case.IsNotNull":                                                         true,
	"cypher.Case.Not":                                                               true,
	"cypher.Case.Or":                                                                true,
	"cypher.Case.OrPattern":                                                         true,
	"cypher.Case.When":                                                              true,
	"cypher.Case.Xor":                                                               true,
	"cypher.Case.XorPattern":                                                        true,
	"cypher.CaseEnding.Add":                                                         true,
	"cypher.CaseEnding.And":                                                         true,
	"cypher.CaseEnding.AndPattern":                                                  true,
	"cypher.CaseEnding.As":                                                          true,
	"cypher.CaseEnding.Descending":                                                  true,
	"cypher.CaseEnding.ElseDefault":                                                 true,
	"cypher.CaseEnding.In":                                                          true,
	"cypher.CaseEnding.IsEqualTo":                                                   true,
	"cypher.CaseEnding.IsNotNull":                                                   true,
	"cypher.CaseEnding.Not":                                                         true,
	"cypher.CaseEnding.Or":                                                          true,
	"cypher.CaseEnding.OrPattern":                                                   true,
	"cypher.CaseEnding.When":                                                        true,
	"cypher.CaseEnding.Xor":                                                         true,
	"cypher.CaseEnding.XorPattern":                                                  true,
	"cypher.Condition.Add":                                                          true,
	"cypher.Condition.And":                                                          true,
	"cypher.Condition.AndPattern":                                                   true,
	"cypher.Condition.As":                                                           true,
	"cypher.Condition.Descending":                                                   true,
	"cypher.Condition.In":                                                           true,
	"cypher.Condition.IsEqualTo":                                                    true,
	"cypher.Condition.IsNotNull":                                                    true,
	"cypher.Condition.Not":                                                          true,
	"cypher.Condition.Or":                                                           true,
	"cypher.Condition.OrPattern":                                                    true,
	"cypher.Condition.Xor":                                                          true,
	"cypher.Condition.XorPattern":                                                   true,
	"cypher.ConditionContainer.Add":                                                 true,
	"cypher.ConditionContainer.And":                                                 true,
	"cypher.ConditionContainer.AndPattern":                                          true,
	"cypher.ConditionContainer.As":                                                  true,
	"cypher.ConditionContainer.Descending":                                          true,
	"cypher.ConditionContainer.Get":                                                 true,
	"cypher.ConditionContainer.In":                                                  true,
	"cypher.ConditionContainer.IsEqualTo":                                           true,
	"cypher.ConditionContainer.IsNotNull":                                           true,
	"cypher.ConditionContainer.Not":                                                 true,
	"cypher.ConditionContainer.Or":                                                  true,
	"cypher.ConditionContainer.OrPattern":                                           true,
	"cypher.ConditionContainer.Xor":                                                 true,
	"cypher.ConditionContainer.XorPattern":                                          true,
	"cypher.EntryExpression.Add":                                                    true,
	"cypher.EntryExpression.As":                                                     true,
	"cypher.EntryExpression.Descending":                                             true,
	"cypher.EntryExpression.Get":                                                    true,
	"cypher.EntryExpression.In":                                                     true,
	"cypher.EntryExpression.IsEqualTo":                                              true,
	"cypher.EntryExpression.IsNotNull":                                              true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Call":                              true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Call1":                             true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Create":                            true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Delete":                            true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByNamed":                     true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.DeleteByString":                    true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDelete":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByNamed":               true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.DetachDeleteByString":              true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Limit":                             true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Match":                             true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.MatchDefault":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Merge":                             true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.OptionalMatch":                     true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Remove":                            true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.RemoveByNode":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Returning":                         true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByNamed":                  true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningByString":                 true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinct":                 true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByNamed":          true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.ReturningDistinctByString":         true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Set":                               true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetByNode":                         true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.SetWithNamed":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwind":                            true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.UnwindByString":                    true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.Unwinds":                           true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.With":                              true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByNamed":                       true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithByString":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinct":                      true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByNamed":               true,
	"cypher.ExposesLimitAndOngoingReadingAndWith.WithDistinctByString":              true,
	"cypher.Expression.Add":                                                         true,
	"cypher.Expression.As":                                                          true,
	"cypher.Expression.Descending":                                                  true,
	"cypher.Expression.In":                                                          true,
	"cypher.Expression.IsEqualTo":                                                   true,
	"cypher.Expression.IsNotNull":                                                   true,
	"cypher.ExpressionContainer.Add":                                                true,
	"cypher.ExpressionContainer.As":                                                 true,
	"cypher.ExpressionContainer.Descending":                                         true,
	"cypher.ExpressionContainer.Get":                                                true,
	"cypher.ExpressionContainer.In":                                                 true,
	"cypher.ExpressionContainer.IsEqualTo":                                          true,
	"cypher.ExpressionContainer.IsNotNull":                                          true,
	"cypher.FunctionInvocation.Add":                                                 true,
	"cypher.FunctionInvocation.As":                                                  true,
	"cypher.FunctionInvocation.Descending":                                          true,
	"cypher.FunctionInvocation.Get":                                                 true,
	"cypher.FunctionInvocation.In":                                                  true,
	"cypher.FunctionInvocation.IsEqualTo":                                           true,
	"cypher.FunctionInvocation.IsNotNull":                                           true,
	"cypher.ListComprehension.Add":                                                  true,
	"cypher.ListComprehension.As":                                                   true,
	"cypher.ListComprehension.Descending":                                           true,
	"cypher.ListComprehension.Get":                                                  true,
	"cypher.ListComprehension.In":                                                   true,
	"cypher.ListComprehension.IsEqualTo":                                            true,
	"cypher.ListComprehension.IsNotNull":                                            true,
	"cypher.ListExpression.Add":                                                     true,
	"cypher.ListExpression.As":                                                      true,
	"cypher.ListExpression.Descending":                                              true,
	"cypher.ListExpression.Get":                                                     true,
	"cypher.ListExpression.In":                                                      true,
	"cypher.ListExpression.IsEqualTo":                                               true,
	"cypher.ListExpression.IsNotNull":                                               true,
	"cypher.ListOperator.Add":                                                       true,
	"cypher.ListOperator.As":                                                        true,
	"cypher.ListOperator.Descending":                                                true,
	"cypher.ListOperator.Get":                                                       true,
	"cypher.ListOperator.In":                                                        true,
	"cypher.ListOperator.IsEqualTo":                                                 true,
	"cypher.ListOperator.IsNotNull":                                                 true,
	"cypher.Literal.Add":                                                            true,
	"cypher.Literal.As":                                                             true,
	"cypher.Literal.Descending":                                                     true,
	"cypher.Literal.In":                                                             true,
	"cypher.Literal.IsEqualTo":                                                      true,
	"cypher.Literal.IsNotNull":                                                      true,
	"cypher.MapExpression.Add":                                                      true,
	"cypher.MapExpression.AddEntries":                                               true,
	"cypher.MapExpression.As":                                                       true,
	"cypher.MapExpression.Descending":                                               true,
	"cypher.MapExpression.Get":                                                      true,
	"cypher.MapExpression.In":                                                       true,
	"cypher.MapExpression.IsEqualTo":                                                true,
	"cypher.MapExpression.IsNotNull":                                                true,
	"cypher.MapProjection.Add":                                                      true,
	"cypher.MapProjection.And":                                                      true,
	"cypher.MapProjection.As":                                                       true,
	"cypher.MapProjection.Descending":                                               true,
	"cypher.MapProjection.Get":                                                      true,
	"cypher.MapProjection.In":                                                       true,
	"cypher.MapProjection.IsEqualTo":                                                true,
	"cypher.MapProjection.IsNotNull":                                                true,
	"cypher.Node.As":                                                                true,
	"cypher.Node.HasLabels":                                                         true,
	"cypher.Node.InternalId":                                                        true,
	"cypher.Node.Labels":                                                            true,
	"cypher.Node.Named":                                                             true,
	"cypher.Node.NamedByString":                                                     true,
	"cypher.Node.Project":                                                           true,
	"cypher.Node.Property":                                                          true,
	"cypher.Node.RelationshipBetween":                                               true,
	"cypher.Node.RelationshipFrom":                                                  true,
	"cypher.Node.RelationshipTo":                                                    true,
	"cypher.Node.WithProperties":                                                    true,
	"cypher.Node.WithRawProperties":                                                 true,
	"cypher.OngoingDefinitionWithList.Returning":                                    true,
	"cypher.OngoingDefinitionWithList.ReturningByNamed":                             true,
	"cypher.OngoingDefinitionWithList.ReturningDefault":                             true,
	"cypher.OngoingDefinitionWithList.Where":                                        true,
	"cypher.OngoingDefinitionWithName.DefinedBy":                                    true,
	"cypher.OngoingDefinitionWithVariable.In":                                       true,
	"cypher.OngoingDefinitionWithoutReturn.Returning":                               true,
	"cypher.OngoingDefinitionWithoutReturn.ReturningByNamed":                        true,
	"cypher.OngoingDefinitionWithoutReturn.ReturningDefault":                        true,
	"cypher.OngoingInQueryCallWithArguments.Yield":                                  true,
	"cypher.OngoingInQueryCallWithArguments.YieldString":                            true,
	"cypher.OngoingInQueryCallWithArguments.YieldSymbolic":                          true,
	"cypher.OngoingInQueryCallWithReturnFields.Call":                                true,
	"cypher.OngoingInQueryCallWithReturnFields.Returning":                           true,
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByNamed":                    true,
	"cypher.OngoingInQueryCallWithReturnFields.ReturningByString":                   true,
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinct":                   true,
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByNamed":            true,
	"cypher.OngoingInQueryCallWithReturnFields.ReturningDistinctByString":           true,
	"cypher.OngoingInQueryCallWithReturnFields.Where":                               true,
	"cypher.OngoingInQueryCallWithReturnFields.WhereConditionContainer":             true,
	"cypher.OngoingInQueryCallWithReturnFields.WherePattern":                        true,
	"cypher.OngoingInQueryCallWithReturnFields.With":                                true,
	"cypher.OngoingInQueryCallWithReturnFields.WithByNamed":                         true,
	"cypher.OngoingInQueryCallWithReturnFields.WithByString":                        true,
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinct":                        true,
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByNamed":                 true,
	"cypher.OngoingInQueryCallWithReturnFields.WithDistinctByString":                true,
	"cypher.OngoingInQueryCallWithoutArguments.WithArgs":                            true,
	"cypher.OngoingInQueryCallWithoutArguments.Yield":                               true,
	"cypher.OngoingInQueryCallWithoutArguments.YieldString":                         true,
	"cypher.OngoingInQueryCallWithoutArguments.YieldSymbolic":                       true,
	"cypher.OngoingListBasedPredicateFunction.In":                                   true,
	"cypher.OngoingListBasedPredicateFunctionWithList.Where":                        true,
	"cypher.OngoingMatchAndReturnWithOrder.And":                                     true,
	"cypher.OngoingMatchAndReturnWithOrder.Limit":                                   true,
	"cypher.OngoingMatchAndReturnWithOrder.Skip":                                    true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Create": true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Delete": true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByNamed":             true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DeleteByString":            true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDelete":              true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByNamed":       true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.DetachDeleteByString":      true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Merge":                     true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.OnCreate":                  true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.OnMatch":                   true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Remove":                    true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.RemoveByNode":              true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Returning":                 true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByNamed":          true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningByString":         true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinct":         true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByNamed":  true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.ReturningDistinctByString": true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.Set":                       true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetByNode":                 true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.SetWithNamed":              true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.With":                      true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByNamed":               true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithByString":              true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinct":              true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByNamed":       true,
	"cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction.WithDistinctByString":      true,
	"cypher.OngoingMergeAction.Set":                                                    true,
	"cypher.OngoingMergeAction.SetWithNamed":                                           true,
	"cypher.OngoingOrderDefinition.Ascending":                                          true,
	"cypher.OngoingOrderDefinition.Descending":                                         true,
	"cypher.OngoingOrderDefinition.Limit":                                              true,
	"cypher.OngoingOrderDefinition.Skip":                                               true,
	"cypher.OngoingReading.Call":                                                       true,
	"cypher.OngoingReading.Call1":                                                      true,
	"cypher.OngoingReading.Create":                                                     true,
	"cypher.OngoingReading.Delete":                                                     true,
	"cypher.OngoingReading.DeleteByNamed":                                              true,
	"cypher.OngoingReading.DeleteByString":                                             true,
	"cypher.OngoingReading.DetachDelete":                                               true,
	"cypher.OngoingReading.DetachDeleteByNamed":                                        true,
	"cypher.OngoingReading.DetachDeleteByString":                                       true,
	"cypher.OngoingReading.Merge":                                                      true,
	"cypher.OngoingReading.Remove":                                                     true,
	"cypher.OngoingReading.RemoveByNode":                                               true,
	"cypher.OngoingReading.Returning":                                                  true,
	"cypher.OngoingReading.ReturningByNamed":                                           true,
	"cypher.OngoingReading.ReturningByString":                                          true,
	"cypher.OngoingReading.ReturningDistinct":                                          true,
	"cypher.OngoingReading.ReturningDistinctByNamed":                                   true,
	"cypher.OngoingReading.ReturningDistinctByString":                                  true,
	"cypher.OngoingReading.Set":                                                        true,
	"cypher.OngoingReading.SetByNode":                                                  true,
	"cypher.OngoingReading.SetWithNamed":                                               true,
	"cypher.OngoingReading.Unwind":                                                     true,
	"cypher.OngoingReading.UnwindByString":                                             true,
	"cypher.OngoingReading.Unwinds":                                                    true,
	"cypher.OngoingReading.With":                                                       true,
	"cypher.OngoingReading.WithByNamed":                                                true,
	"cypher.OngoingReading.WithByString":                                               true,
	"cypher.OngoingReading.WithDistinct":                                               true,
	"cypher.OngoingReading.WithDistinctByNamed":                                        true,
	"cypher.OngoingReading.WithDistinctByString":                                       true,
	"cypher.OngoingReadingAndReturn.Limit":                                             true,
	"cypher.OngoingReadingAndReturn.OrderBy":                                           true,
	"cypher.OngoingReadingAndReturn.OrderBySortItem":                                   true,
	"cypher.OngoingReadingAndReturn.Skip":                                              true,
	"cypher.OngoingReadingAndWith.Call":                                                true,
	"cypher.OngoingReadingAndWith.Call1":                                               true,
	"cypher.OngoingReadingAndWith.Create":                                              true,
	"cypher.OngoingReadingAndWith.Delete":                                              true,
	"cypher.OngoingReadingAndWith.DeleteByNamed":                                       true,
	"cypher.OngoingReadingAndWith.DeleteByString":                                      true,
	"cypher.OngoingReadingAndWith.DetachDelete":                                        true,
	"cypher.OngoingReadingAndWith.DetachDeleteByNamed":                                 true,
	"cypher.OngoingReadingAndWith.DetachDeleteByString":                                true,
	"cypher.OngoingReadingAndWith.Match":                                               true,
	"cypher.OngoingReadingAndWith.MatchDefault":                                        true,
	"cypher.OngoingReadingAndWith.Merge":                                               true,
	"cypher.OngoingReadingAndWith.OptionalMatch":                                       true,
	"cypher.OngoingReadingAndWith.Remove":                                              true,
	"cypher.OngoingReadingAndWith.RemoveByNode":                                        true,
	"cypher.OngoingReadingAndWith.Returning":                                           true,
	"cypher.OngoingReadingAndWith.ReturningByNamed":                                    true,
	"cypher.OngoingReadingAndWith.ReturningByString":                                   true,
	"cypher.OngoingReadingAndWith.ReturningDistinct":                                   true,
	"cypher.OngoingReadingAndWith.ReturningDistinctByNamed":                            true,
	"cypher.OngoingReadingAndWith.ReturningDistinctByString":                           true,
	"cypher.OngoingReadingAndWith.Set":                                                 true,
	"cypher.OngoingReadingAndWith.SetByNode":                                           true,
	"cypher.OngoingReadingAndWith.SetWithNamed":                                        true,
	"cypher.OngoingReadingAndWith.Unwind":                                              true,
	"cypher.OngoingReadingAndWith.UnwindByString":                                      true,
	"cypher.OngoingReadingAndWith.Unwinds":                                             true,
	"cypher.OngoingReadingAndWith.With":                                                true,
	"cypher.OngoingReadingAndWith.WithByNamed":                                         true,
	"cypher.OngoingReadingAndWith.WithByString":                                        true,
	"cypher.OngoingReadingAndWith.WithDistinct":                                        true,
	"cypher.OngoingReadingAndWith.WithDistinctByNamed":                                 true,
	"cypher.OngoingReadingAndWith.WithDistinctByString":                                true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.And1":                               true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Call":                               true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Call1":                              true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Create":                             true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Delete":                             true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByNamed":                      true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DeleteByString":                     true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDelete":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByNamed":                true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.DetachDeleteByString":               true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Limit":                              true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Match":                              true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.MatchDefault":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Merge":                              true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.OptionalMatch":                      true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Remove":                             true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.RemoveByNode":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Returning":                          true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByNamed":                   true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningByString":                  true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinct":                  true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByNamed":           true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.ReturningDistinctByString":          true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Set":                                true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetByNode":                          true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.SetWithNamed":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Skip":                               true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwind":                             true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.UnwindByString":                     true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.Unwinds":                            true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.With":                               true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByNamed":                        true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithByString":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinct":                       true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByNamed":                true,
	"cypher.OngoingReadingAndWithWithWhereAndOrder.WithDistinctByString":               true,
	"cypher.OngoingReadingWithWhere.And":                                               true,
	"cypher.OngoingReadingWithWhere.AndPattern":                                        true,
	"cypher.OngoingReadingWithWhere.AsCondition":                                       true,
	"cypher.OngoingReadingWithWhere.Call":                                              true,
	"cypher.OngoingReadingWithWhere.Call1":                                             true,
	"cypher.OngoingReadingWithWhere.Create":                                            true,
	"cypher.OngoingReadingWithWhere.Delete":                                            true,
	"cypher.OngoingReadingWithWhere.DeleteByNamed":                                     true,
	"cypher.OngoingReadingWithWhere.DeleteByString":                                    true,
	"cypher.OngoingReadingWithWhere.DetachDelete":                                      true,
	"cypher.OngoingReadingWithWhere.DetachDeleteByNamed":                               true,
	"cypher.OngoingReadingWithWhere.DetachDeleteByString":                              true,
	"cypher.OngoingReadingWithWhere.Match":                                             true,
	"cypher.OngoingReadingWithWhere.MatchDefault":                                      true,
	"cypher.OngoingReadingWithWhere.Merge":                                             true,
	"cypher.OngoingReadingWithWhere.OptionalMatch":                                     true,
	"cypher.OngoingReadingWithWhere.Or":                                                true,
	"cypher.OngoingReadingWithWhere.OrPattern":                                         true,
	"cypher.OngoingReadingWithWhere.Remove":                                            true,
	"cypher.OngoingReadingWithWhere.RemoveByNode":                                      true,
	"cypher.OngoingReadingWithWhere.Returning":                                         true,
	"cypher.OngoingReadingWithWhere.ReturningByNamed":                                  true,
	"cypher.OngoingReadingWithWhere.ReturningByString":                                 true,
	"cypher.OngoingReadingWithWhere.ReturningDistinct":                                 true,
	"cypher.OngoingReadingWithWhere.ReturningDistinctByNamed":                          true,
	"cypher.OngoingReadingWithWhere.ReturningDistinctByString":                         true,
	"cypher.OngoingReadingWithWhere.Set":                                               true,
	"cypher.OngoingReadingWithWhere.SetByNode":                                         true,
	"cypher.OngoingReadingWithWhere.SetWithNamed":                                      true,
	"cypher.OngoingReadingWithWhere.Unwind":                                            true,
	"cypher.OngoingReadingWithWhere.UnwindByString":                                    true,
	"cypher.OngoingReadingWithWhere.Unwinds":                                           true,
	"cypher.OngoingReadingWithWhere.With":                                              true,
	"cypher.OngoingReadingWithWhere.WithByNamed":                                       true,
	"cypher.OngoingReadingWithWhere.WithByString":                                      true,
	"cypher.OngoingReadingWithWhere.WithDistinct":                                      true,
	"cypher.OngoingReadingWithWhere.WithDistinctByNamed":                               true,
	"cypher.OngoingReadingWithWhere.WithDistinctByString":                              true,
	"cypher.OngoingReadingWithoutWhere.AsCondition":                                    true,
	"cypher.OngoingReadingWithoutWhere.Call":                                           true,
	"cypher.OngoingReadingWithoutWhere.Call1":                                          true,
	"cypher.OngoingReadingWithoutWhere.Create":                                         true,
	"cypher.OngoingReadingWithoutWhere.Delete":                                         true,
	"cypher.OngoingReadingWithoutWhere.DeleteByNamed":                                  true,
	"cypher.OngoingReadingWithoutWhere.DeleteByString":                                 true,
	"cypher.OngoingReadingWithoutWhere.DetachDelete":                                   true,
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByNamed":                            true,
	"cypher.OngoingReadingWithoutWhere.DetachDeleteByString":                           true,
	"cypher.OngoingReadingWithoutWhere.Match":                                          true,
	"cypher.OngoingReadingWithoutWhere.MatchDefault":                                   true,
	"cypher.OngoingReadingWithoutWhere.Merge":                                          true,
	"cypher.OngoingReadingWithoutWhere.OptionalMatch":                                  true,
	"cypher.OngoingReadingWithoutWhere.Remove":                                         true,
	"cypher.OngoingReadingWithoutWhere.RemoveByNode":                                   true,
	"cypher.OngoingReadingWithoutWhere.Returning":                                      true,
	"cypher.OngoingReadingWithoutWhere.ReturningByNamed":                               true,
	"cypher.OngoingReadingWithoutWhere.ReturningByString":                              true,
	"cypher.OngoingReadingWithoutWhere.ReturningDistinct":                              true,
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByNamed":                       true,
	"cypher.OngoingReadingWithoutWhere.ReturningDistinctByString":                      true,
	"cypher.OngoingReadingWithoutWhere.Set":                                            true,
	"cypher.OngoingReadingWithoutWhere.SetByNode":                                      true,
	"cypher.OngoingReadingWithoutWhere.SetWithNamed":                                   true,
	"cypher.OngoingReadingWithoutWhere.Unwind":                                         true,
	"cypher.OngoingReadingWithoutWhere.UnwindByString":                                 true,
	"cypher.OngoingReadingWithoutWhere.Unwinds":                                        true,
	"cypher.OngoingReadingWithoutWhere.Where":                                          true,
	"cypher.OngoingReadingWithoutWhere.WhereConditionContainer":                        true,
	"cypher.OngoingReadingWithoutWhere.WherePattern":                                   true,
	"cypher.OngoingReadingWithoutWhere.With":                                           true,
	"cypher.OngoingReadingWithoutWhere.WithByNamed":                                    true,
	"cypher.OngoingReadingWithoutWhere.WithByString":                                   true,
	"cypher.OngoingReadingWithoutWhere.WithDistinct":                                   true,
	"cypher.OngoingReadingWithoutWhere.WithDistinctByNamed":                            true,
	"cypher.OngoingReadingWithoutWhere.WithDistinctByString":                           true,
	"cypher.OngoingShortestPathDefinitionWithName.DefinedBy":                           true,
	"cypher.OngoingStandaloneCallWithReturnFields.Call":                                true,
	"cypher.OngoingStandaloneCallWithReturnFields.Returning":                           true,
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByNamed":                    true,
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningByString":                   true,
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinct":                   true,
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByNamed":            true,
	"cypher.OngoingStandaloneCallWithReturnFields.ReturningDistinctByString":           true,
	"cypher.OngoingStandaloneCallWithReturnFields.Where":                               true,
	"cypher.OngoingStandaloneCallWithReturnFields.WhereConditionContainer":             true,
	"cypher.OngoingStandaloneCallWithReturnFields.WherePattern":                        true,
	"cypher.OngoingStandaloneCallWithReturnFields.With":                                true,
	"cypher.OngoingStandaloneCallWithReturnFields.WithByNamed":                         true,
	"cypher.OngoingStandaloneCallWithReturnFields.WithByString":                        true,
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinct":                        true,
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByNamed":                 true,
	"cypher.OngoingStandaloneCallWithReturnFields.WithDistinctByString":                true,
	"cypher.OngoingStandaloneCallWithoutArguments.AsFunction":                          true,
	"cypher.OngoingStandaloneCallWithoutArguments.WithArgs":                            true,
	"cypher.OngoingStandaloneCallWithoutArguments.Yield":                               true,
	"cypher.OngoingStandaloneCallWithoutArguments.YieldString":                         true,
	"cypher.OngoingStandaloneCallWithoutArguments.YieldSymbolic":                       true,
	"cypher.OngoingUnwind.As":                                                          true,
	"cypher.OngoingUpdate.Create":                                                      true,
	"cypher.OngoingUpdate.Delete":                                                      true,
	"cypher.OngoingUpdate.DeleteByNamed":                                               true,
	"cypher.OngoingUpdate.DeleteByString":                                              true,
	"cypher.OngoingUpdate.DetachDelete":                                                true,
	"cypher.OngoingUpdate.DetachDeleteByNamed":                                         true,
	"cypher.OngoingUpdate.DetachDeleteByString":                                        true,
	"cypher.OngoingUpdate.Merge":                                                       true,
	"cypher.OngoingUpdate.OnCreate":                                                    true,
	"cypher.OngoingUpdate.OnMatch":                                                     true,
	"cypher.OngoingUpdate.Returning":                                                   true,
	"cypher.OngoingUpdate.ReturningByNamed":                                            true,
	"cypher.OngoingUpdate.ReturningByString":                                           true,
	"cypher.OngoingUpdate.ReturningDistinct":                                           true,
	"cypher.OngoingUpdate.ReturningDistinctByNamed":                                    true,
	"cypher.OngoingUpdate.ReturningDistinctByString":                                   true,
	"cypher.OngoingUpdate.With":                                                        true,
	"cypher.OngoingUpdate.WithByNamed":                                                 true,
	"cypher.OngoingUpdate.WithByString":                                                true,
	"cypher.OngoingUpdate.WithDistinct":                                                true,
	"cypher.OngoingUpdate.WithDistinctByNamed":                                         true,
	"cypher.OngoingUpdate.WithDistinctByString":                                        true,
	"cypher.OngoingUpdateAndExposesSet.Create":                                         true,
	"cypher.OngoingUpdateAndExposesSet.Delete":                                         true,
	"cypher.OngoingUpdateAndExposesSet.DeleteByNamed":                                  true,
	"cypher.OngoingUpdateAndExposesSet.DeleteByString":                                 true,
	"cypher.OngoingUpdateAndExposesSet.DetachDelete":                                   true,
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByNamed":                            true,
	"cypher.OngoingUpdateAndExposesSet.DetachDeleteByString":                           true,
	"cypher.OngoingUpdateAndExposesSet.Merge":                                          true,
	"cypher.OngoingUpdateAndExposesSet.OnCreate":                                       true,
	"cypher.OngoingUpdateAndExposesSet.OnMatch":                                        true,
	"cypher.OngoingUpdateAndExposesSet.Returning":                                      true,
	"cypher.OngoingUpdateAndExposesSet.ReturningByNamed":                               true,
	"cypher.OngoingUpdateAndExposesSet.ReturningByString":                              true,
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinct":                              true,
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByNamed":                       true,
	"cypher.OngoingUpdateAndExposesSet.ReturningDistinctByString":                      true,
	"cypher.OngoingUpdateAndExposesSet.Set":                                            true,
	"cypher.OngoingUpdateAndExposesSet.SetWithNamed":                                   true,
	"cypher.OngoingUpdateAndExposesSet.With":                                           true,
	"cypher.OngoingUpdateAndExposesSet.WithByNamed":                                    true,
	"cypher.OngoingUpdateAndExposesSet.WithByString":                                   true,
	"cypher.OngoingUpdateAndExposesSet.WithDistinct":                                   true,
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByNamed":                            true,
	"cypher.OngoingUpdateAndExposesSet.WithDistinctByString":                           true,
	"cypher.OngoingWhenThen.Then":                                                      true,
	"cypher.Operation.Add":                                                             true,
	"cypher.Operation.As":                                                              true,
	"cypher.Operation.Descending":                                                      true,
	"cypher.Operation.Get":                                                             true,
	"cypher.Operation.In":                                                              true,
	"cypher.Operation.IsEqualTo":                                                       true,
	"cypher.Operation.IsNotNull":                                                       true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.And":                               true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.AndPattern":                        true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Call":                              true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Call1":                             true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Create":                            true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Delete":                            true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByNamed":                     true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.DeleteByString":                    true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDelete":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByNamed":               true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.DetachDeleteByString":              true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Limit":                             true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Match":                             true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.MatchDefault":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Merge":                             true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.OptionalMatch":                     true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Or":                                true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrPattern":                         true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderByExpression":                 true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.OrderBySortItem":                   true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Remove":                            true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.RemoveByNode":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Returning":                         true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByNamed":                  true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningByString":                 true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinct":                 true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByNamed":          true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.ReturningDistinctByString":         true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Set":                               true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetByNode":                         true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.SetWithNamed":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Skip":                              true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwind":                            true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.UnwindByString":                    true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.Unwinds":                           true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.With":                              true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByNamed":                       true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithByString":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinct":                      true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByNamed":               true,
	"cypher.OrderableOngoingReadingAndWithWithWhere.WithDistinctByString":              true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Call":                           true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Call1":                          true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Create":                         true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Delete":                         true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByNamed":                  true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DeleteByString":                 true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDelete":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByNamed":            true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.DetachDeleteByString":           true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Limit":                          true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Match":                          true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.MatchDefault":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Merge":                          true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OptionalMatch":                  true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderByExpression":              true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.OrderBySortItem":                true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Remove":                         true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.RemoveByNode":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Returning":                      true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByNamed":               true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningByString":              true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinct":              true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByNamed":       true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.ReturningDistinctByString":      true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Set":                            true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetByNode":                      true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.SetWithNamed":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Skip":                           true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwind":                         true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.UnwindByString":                 true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Unwinds":                        true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.Where":                          true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WherePattern":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.With":                           true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByNamed":                    true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithByString":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinct":                   true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByNamed":            true,
	"cypher.OrderableOngoingReadingAndWithWithoutWhere.WithDistinctByString":           true,
	"cypher.Parameter.Add":                                                             true,
	"cypher.Parameter.As":                                                              true,
	"cypher.Parameter.Descending":                                                      true,
	"cypher.Parameter.Get":                                                             true,
	"cypher.Parameter.In":                                                              true,
	"cypher.Parameter.IsEqualTo":                                                       true,
	"cypher.Parameter.IsNotNull":                                                       true,
	"cypher.PatternComprehension.Add":                                                  true,
	"cypher.PatternComprehension.As":                                                   true,
	"cypher.PatternComprehension.Descending":                                           true,
	"cypher.PatternComprehension.Get":                                                  true,
	"cypher.PatternComprehension.In":                                                   true,
	"cypher.PatternComprehension.IsEqualTo":                                            true,
	"cypher.PatternComprehension.IsNotNull":                                            true,
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Returning":                true,
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.ReturningByNamed":         true,
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.Where":                    true,
	"cypher.PatternComprehensionOngoingDefinitionWithPattern.WherePattern":             true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.And":              true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.AndPattern":       true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Or":               true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.OrPattern":        true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.Returning":        true,
	"cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere.ReturningByNamed": true,
	"cypher.Property.Add":                                                              true,
	"cypher.Property.As":                                                               true,
	"cypher.Property.Descending":                                                       true,
	"cypher.Property.Get":                                                              true,
	"cypher.Property.In":                                                               true,
	"cypher.Property.IsEqualTo":                                                        true,
	"cypher.Property.IsNotNull":                                                        true,
	"cypher.Property.To":                                                               true,
	"cypher.Relationship.Length":                                                       true,
	"cypher.Relationship.Max":                                                          true,
	"cypher.Relationship.Min":                                                          true,
	"cypher.Relationship.Named":                                                        true,
	"cypher.Relationship.NamedByString":                                                true,
	"cypher.Relationship.NamedC":                                                       true,
	"cypher.Relationship.Project":                                                      true,
	"cypher.Relationship.Property":                                                     true,
	"cypher.Relationship.RelationshipBetween":                                          true,
	"cypher.Relationship.RelationshipFrom":                                             true,
	"cypher.Relationship.RelationshipTo":                                               true,
	"cypher.Relationship.Unbounded":                                                    true,
	"cypher.Relationship.WithProperties":                                               true,
	"cypher.Relationship.WithRawProperties":                                            true,
	"cypher.RelationshipChain.Add":                                                     true,
	"cypher.RelationshipChain.Length":                                                  true,
	"cypher.RelationshipChain.Max":                                                     true,
	"cypher.RelationshipChain.Min":                                                     true,
	"cypher.RelationshipChain.Named":                                                   true,
	"cypher.RelationshipChain.NamedC":                                                  true,
	"cypher.RelationshipChain.Properties":                                              true,
	"cypher.RelationshipChain.PropertiesRaw":                                           true,
	"cypher.RelationshipChain.RelationshipBetween":                                     true,
	"cypher.RelationshipChain.RelationshipFrom":                                        true,
	"cypher.RelationshipChain.RelationshipTo":                                          true,
	"cypher.RelationshipChain.Unbounded":                                               true,
	"cypher.RelationshipPatternCondition.Add":                                          true,
	"cypher.RelationshipPatternCondition.And":                                          true,
	"cypher.RelationshipPatternCondition.AndPattern":                                   true,
	"cypher.RelationshipPatternCondition.As":                                           true,
	"cypher.RelationshipPatternCondition.Descending":                                   true,
	"cypher.RelationshipPatternCondition.Get":                                          true,
	"cypher.RelationshipPatternCondition.In":                                           true,
	"cypher.RelationshipPatternCondition.IsEqualTo":                                    true,
	"cypher.RelationshipPatternCondition.IsNotNull":                                    true,
	"cypher.RelationshipPatternCondition.Not":                                          true,
	"cypher.RelationshipPatternCondition.Or":                                           true,
	"cypher.RelationshipPatternCondition.OrPattern":                                    true,
	"cypher.RelationshipPatternCondition.Xor":                                          true,
	"cypher.RelationshipPatternCondition.XorPattern":                                   true,
	"cypher.SortItem.Descending":                                                       true,
	"cypher.SymbolicName.Add":                                                          true,
	"cypher.SymbolicName.As":                                                           true,
	"cypher.SymbolicName.Descending":                                                   true,
	"cypher.SymbolicName.Get":                                                          true,
	"cypher.SymbolicName.In":                                                           true,
	"cypher.SymbolicName.IsEqualTo":                                                    true,
	"cypher.SymbolicName.IsNotNull":                                                    true,
	"cypher.TerminalExposesLimitAndBuildableStatement.Limit":                           true,
	"cypher.TerminalOngoingOrderDefinition.Ascending":                                  true,
	"cypher.TerminalOngoingOrderDefinition.Descending":                                 true,
	"cypher.TerminalOngoingOrderDefinition.Limit":                                      true,
	"cypher.TerminalOngoingOrderDefinition.Skip":                                       true,
}
