From d01f6a35eecedb7a378f9d3c37f532171f5d74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:13 +0000
Subject: [PATCH 01/39] fix: identity keys must not depend on memory addresses

getAddress returned the address of a local variable that is freed while copies of the element live on;
after a garbage collection two elements could get the same key and be taken for one another.
---
 support.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..8829cb2 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
-func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+var lastKey uint64
+
+// getAddress gives out a key that no other element has. The address itself can not be used: elements are copied
+// around by value, so their memory is reused while copies of them are still alive.
+func getAddress(_ interface{}) string {
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 16)
 }
 
-- 
2.43.0


From 045913da3a0d1f7a14ee7f16df2b38530a610684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 02/39] fix: every node gets its own identity

Nodes made by AnyNode and NewNodeWithLabels had no key, so they were taken for one another and for their own
labels; a node named twice shared one key, so its second name lost the labels. NewNodeWithLabels also
skipped the label checks and marked the node as absent, which dropped it at the end of a chain.
---
 cypher.go | 9 +--------
 node.go   | 8 ++++++--
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..959ad46 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
diff --git a/node.go b/node.go
index c6b77af..3d29240 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -30,7 +31,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,12 +68,13 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
@@ -189,6 +191,7 @@ func (node Node) Property(name string) Property {
 
 func (node Node) NamedByString(name string) Node {
 	node.symbolicName = SymbolicNameCreate(name)
+	node.injectKey()
 	return node
 }
 
@@ -200,6 +203,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
-- 
2.43.0


From 2deac4bc12dd2b66bda588b849940407d0a81a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 03/39] fix: empty names and labels and broken properties of
 nodes and relationships are errors

They were dropped from the statement or rendered as nothing; an error carried by a node was lost when it got
properties, and a node without a name in a label operation was rendered with a generated name.
---
 has_label_condition.go |  3 +++
 node.go                | 18 +++++++++++++++++-
 operation.go           | 12 ++++++++++--
 properties.go          |  3 +++
 relationship_type.go   | 10 +++++++++-
 5 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..ef939af 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -24,6 +24,9 @@ func HasLabelConditionCreate(nodeName SymbolicName, labels ...string) HasLabelCo
 	nodeLabels := make([]NodeLabel, len(labels))
 	for i := range labels {
 		nodeLabels[i] = NodeLabelCreate(labels[i])
+		if nodeLabels[i].GetError() != nil {
+			return HasLabelConditionError(nodeLabels[i].GetError())
+		}
 	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
diff --git a/node.go b/node.go
index 3d29240..f443910 100644
--- a/node.go
+++ b/node.go
@@ -22,6 +22,9 @@ func NodeCreate() Node {
 }
 
 func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ...string) Node {
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	if primaryLabel == "" {
 		return NodeError(errors.New("primary label is required"))
 	}
@@ -81,7 +84,14 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
-	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
+	if node.GetError() != nil {
+		return node
+	}
+	properties := PropertiesCreate(newProperties)
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
+	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: properties}
 	newNode.injectKey()
 	return newNode
 }
@@ -190,6 +200,9 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
+	if name == "" {
+		return NodeError(errors.New("node named: symbolic name is required"))
+	}
 	node.symbolicName = SymbolicNameCreate(name)
 	node.injectKey()
 	return node
@@ -239,6 +252,9 @@ type NodeLabel struct {
 }
 
 func NodeLabelCreate(value string) NodeLabel {
+	if value == "" {
+		return NodeLabelError(errors.New("empty label is not allowed"))
+	}
 	n := NodeLabel{
 		value:  value,
 		notNil: true,
diff --git a/operation.go b/operation.go
index 9e3f3db..65abe72 100644
--- a/operation.go
+++ b/operation.go
@@ -98,10 +98,18 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	for _, nodeLabel := range nodeLabels {
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
+	name := op1.GetRequiredSymbolicName()
+	if name.GetError() != nil {
+		return OperationError(name.GetError())
+	}
+	newLabels := NodeLabelsCreate(labels)
+	if newLabels.GetError() != nil {
+		return OperationError(newLabels.GetError())
+	}
 	o := Operation{
-		left:     op1.GetRequiredSymbolicName(),
+		left:     name,
 		operator: operator,
-		right:    NodeLabelsCreate(labels),
+		right:    newLabels,
 		notNil:   true,
 	}
 	o.key = getAddress(&o)
diff --git a/properties.go b/properties.go
index 555c57d..478a1da 100644
--- a/properties.go
+++ b/properties.go
@@ -11,6 +11,9 @@ func PropertiesCreate(newProperties MapExpression) Properties {
 	if newProperties.GetError() != nil {
 		return PropertiesError(newProperties.GetError())
 	}
+	if !newProperties.isNotNil() {
+		return Properties{}
+	}
 	p := Properties{properties: newProperties, notNil: true}
 	p.key = getAddress(&p)
 	return p
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..ee821db 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type RelationshipTypes struct {
 	values []string
@@ -10,6 +13,11 @@ type RelationshipTypes struct {
 }
 
 func RelationshipTypesCreate(types []string) RelationshipTypes {
+	for _, value := range types {
+		if value == "" {
+			return RelationshipTypesError(errors.New("empty relationship type is not allowed"))
+		}
+	}
 	r := RelationshipTypes{
 		values: types,
 		notNil: true,
-- 
2.43.0


From 417985f7ce7516cdda9ebb85f7c575ec2f7a64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 04/39] fix: chained conditions keep the order of the calls, do
 not share state and report invalid parts

---
 boolean_function_condition.go     |  3 ++
 comparison.go                     |  2 +-
 compound_condition.go             | 85 ++++++++++++++++++++++---------
 condition_container.go            | 43 ++++++++--------
 conditions.go                     |  3 ++
 excluded_pattern.go               |  9 +++-
 existential_subquery.go           |  2 +-
 list_predicate.go                 |  4 +-
 nested_expression.go              |  5 ++
 predicates.go                     | 17 ++++++-
 relationship_pattern_condition.go |  5 ++
 11 files changed, 126 insertions(+), 52 deletions(-)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..986fea8 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/comparison.go b/comparison.go
index de49515..f091015 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..0b59f19 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -44,11 +44,7 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
 	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return condition.add(operator, left).add(operator, right).renew()
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
@@ -122,21 +118,52 @@ func (c CompoundCondition) GetExpressionType() ExpressionType {
 }
 
 func (c CompoundCondition) Or(condition Condition) ConditionContainer {
-	return ConditionWrap(c.add(OR, condition))
+	return ConditionWrap(c.add(OR, condition).renew())
 }
 
 func (c CompoundCondition) And(condition Condition) ConditionContainer {
-	return ConditionWrap(c.add(AND, condition))
+	return ConditionWrap(c.add(AND, condition).renew())
 }
 
 func (c CompoundCondition) Xor(condition Condition) ConditionContainer {
-	return ConditionWrap(c.add(XOR, condition))
+	return ConditionWrap(c.add(XOR, condition).renew())
+}
+
+func (c CompoundCondition) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.Or(RelationshipPatternConditionCreate(pathPattern))
+}
+
+func (c CompoundCondition) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.And(RelationshipPatternConditionCreate(pathPattern))
+}
+
+func (c CompoundCondition) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.Xor(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (c *CompoundCondition) injectKey() {
 	c.key = getAddress(c)
 }
 
+//renew makes this condition a condition of its own: the embedded container has to wrap the condition as it is now, not
+//the one it was made from.
+func (c CompoundCondition) renew() CompoundCondition {
+	if c.err != nil || !c.hasCondition() {
+		return c
+	}
+	c.injectKey()
+	c.ConditionContainer = ConditionWrap(c)
+	return c
+}
+
+//with gives a copy of this condition that has the additional conditions; the slice of this one is not touched.
+func (c CompoundCondition) with(additionalConditions ...Condition) CompoundCondition {
+	conditions := make([]Condition, 0, len(c.conditions)+len(additionalConditions))
+	conditions = append(conditions, c.conditions...)
+	c.conditions = append(conditions, additionalConditions...)
+	return c
+}
+
 var EMPTY_CONDITION = CompoundCondition{
 	conditions:    make([]Condition, 0),
 	conditionType: EMPTY_CONDITION_EXPRESSION,
@@ -145,34 +172,46 @@ var EMPTY_CONDITION = CompoundCondition{
 
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.err != nil {
+		return c
+	}
+	if condition != nil && condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
+	if condition == nil || !condition.isNotNil() {
+		return CompoundConditionError(errors.New("the condition to chain is required"))
+	}
+	compoundCondition, isCompound := condition.(CompoundCondition)
+	if isCompound && !compoundCondition.hasCondition() {
+		return c
+	}
 	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
 	}
-	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
-		if !compoundCondition.hasCondition() {
-			return *c
-		}
+	if len(c.conditions) < 2 {
+		c.operator = chainingOperator
+	}
+	if isCompound {
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				return c.with(compoundCondition.conditions...)
 			}
-		} else {
+			return c.with(compoundCondition)
+		}
+		//AND binds stronger than OR
+		if c.operator == chainingOperator || c.operator == AND && chainingOperator == OR {
 			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			return c.with(inner.with(compoundCondition).renew())
 		}
-		return *c
+		return CompoundConditionCreate(c, chainingOperator, compoundCondition)
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+		return c.with(condition)
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
+	return CompoundConditionCreate(c, chainingOperator, condition)
 }
 
 func (c CompoundCondition) hasCondition() bool {
diff --git a/condition_container.go b/condition_container.go
index c1e6007..e406835 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -11,42 +13,27 @@ func ConditionWrap(condition Condition) ConditionContainer {
 }
 
 func (b ConditionContainer) And(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.And(condition)
-	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
-	return b
+	return b.chain(AND, condition)
 }
 
 func (b ConditionContainer) Or(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.Or(condition)
-	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
-	return b
+	return b.chain(OR, condition)
 }
 
 func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
-	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
-		return compoundCondition.Xor(condition)
-	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
-	return b
+	return b.chain(XOR, condition)
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.chain(AND, RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.chain(OR, RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.chain(XOR, RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) Not() ConditionContainer {
@@ -55,5 +42,17 @@ func (b ConditionContainer) Not() ConditionContainer {
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	condition, isCondition := b.expression.(Condition)
+	if !isCondition {
+		return CompoundConditionError(errors.New("condition container: a valid condition is required"))
+	}
+	return condition
+}
+
+func (b ConditionContainer) chain(operator Operator, condition Condition) ConditionContainer {
+	chained := b.Get()
+	if compoundCondition, isCompound := chained.(CompoundCondition); isCompound {
+		return ConditionWrap(compoundCondition.add(operator, condition).renew())
+	}
+	return ConditionWrap(CompoundConditionCreate(chained, operator, condition))
 }
diff --git a/conditions.go b/conditions.go
index 5e43241..d3d9a5a 100644
--- a/conditions.go
+++ b/conditions.go
@@ -7,6 +7,9 @@ func ConditionsNotByPattern(element PatternElement) Condition {
 }
 
 func ConditionsNot(condition Condition) Condition {
+	if condition != nil && condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return CompoundConditionError(xerrors.New("condition not: condition to negate must not be nil"))
 	}
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..7e1ba53 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExcludedPattern struct {
 	ConditionContainer
 	patternElement PatternElement
@@ -9,6 +11,9 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
+	if patternElement == nil {
+		return ExcludedPatternError(errors.New("excluded pattern: the pattern is required"))
+	}
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
@@ -53,9 +58,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..bf2eb20 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..2eb960c 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -15,10 +15,10 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..51d8018 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type NestedExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -12,6 +14,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 	if delegate != nil && delegate.GetError() != nil {
 		return NestedExpressionError(delegate.GetError())
 	}
+	if delegate == nil {
+		return NestedExpressionError(errors.New("nested expression: the expression to nest is required"))
+	}
 	nested := NestedExpression{
 		delegate: delegate,
 		notNil:   true,
diff --git a/predicates.go b/predicates.go
index f930db8..cc725cc 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if condition != nil && condition.GetError() != nil {
+		return BooleanFunctionConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..3b9a2e9 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type RelationshipPatternCondition struct {
 	ConditionContainer
 	pathPattern RelationshipPattern
@@ -9,6 +11,9 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
+	if pathPattern == nil {
+		return RelationshipPatternConditionError(errors.New("relationship pattern condition: the pattern is required"))
+	}
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
-- 
2.43.0


From 19f2c3e2052327baa8003adce4c747e30e8a2942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 05/39] fix: invalid expressions in clauses and lists are
 reported instead of dropped, endless or a panic

---
 distinct_expression.go |  4 ++--
 expression_list.go     |  8 +++-----
 expressions.go         | 13 ++++++++-----
 function_invocation.go | 28 +++++++---------------------
 limit.go               |  3 +++
 list_literal.go        | 12 +++++++++---
 merge_action.go        |  3 +++
 multi_part_query.go    |  3 ++-
 pattern.go             |  6 ++----
 raw_string_literal.go  |  2 +-
 return_body.go         |  8 ++++----
 skip.go                |  5 +++++
 sort_item.go           | 13 ++++++++-----
 string_literal.go      |  2 +-
 support.go             | 27 +++++++++++++++++++++++++++
 unwind.go              |  9 +++++++--
 where.go               |  5 +++++
 with.go                | 16 ++++++++++------
 yield_items.go         |  8 +++-----
 19 files changed, 110 insertions(+), 65 deletions(-)

diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..e984ffa 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -9,8 +9,8 @@ type DistinctExpression struct {
 }
 
 func DistinctExpressionCreate(delegate Expression) DistinctExpression {
-	if delegate != nil && delegate.GetError() != nil {
-		return DistinctExpressionError(delegate.GetError())
+	if err := checkExpressions(delegate); err != nil {
+		return DistinctExpressionError(err)
 	}
 	d := DistinctExpression{
 		delegate: delegate,
diff --git a/expression_list.go b/expression_list.go
index c9a7596..52e9907 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -9,10 +9,8 @@ type ExpressionList struct {
 }
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
-	for _, expression := range expressions {
-		if expression.GetError() != nil {
-			return ExpressionListError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return ExpressionListError(err)
 	}
 	e := ExpressionList{
 		expressions: expressions,
@@ -72,5 +70,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/expressions.go b/expressions.go
index d5fd352..9114626 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
@@ -11,18 +13,19 @@ func NameOrExpression(expression Expression) Expression {
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
+		if named == nil {
+			expressions = append(expressions, SymbolicNameError(errors.New("named element must be not nil")))
+		} else {
+			expressions = append(expressions, named.GetRequiredSymbolicName())
 		}
 	}
 	return expressions
 }
+
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..bab213c 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -18,12 +18,8 @@ func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-	if arguments != nil {
-		for _, expression := range arguments {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := checkExpressions(arguments...); err != nil {
+		return FunctionInvocationError(err)
 	}
 	argumentVisitables := make([]Visitable, len(arguments))
 	for i := range arguments {
@@ -40,12 +36,8 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
 		return FunctionInvocationError(errors.Errorf("function invocation create: expression for %s is required", definition.getImplementationName()))
@@ -105,12 +97,8 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !definition.isAggregate() {
 		return FunctionInvocationError(errors.New("the distinct operator can only be applied within aggregate functions"))
@@ -119,9 +107,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
diff --git a/limit.go b/limit.go
index 5a5fd5c..7b99b94 100644
--- a/limit.go
+++ b/limit.go
@@ -13,6 +13,9 @@ func LimitCreate(number int) Limit {
 	if number == 0 {
 		return LimitError(errors.New("limit can not be zero"))
 	}
+	if number < 0 {
+		return LimitError(errors.New("limit: the number must not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	l := Limit{limitAmount: literal, notNil: true}
 	l.key = getAddress(&l)
diff --git a/list_literal.go b/list_literal.go
index 7ada298..b42bd9c 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type ListLiteral struct {
 	ExpressionContainer
@@ -12,16 +15,19 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return ListLiteralError(errors.New("list literal: the elements must be not nil"))
+		}
+		if content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..532fa22 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,13 +20,14 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{err: err}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/pattern.go b/pattern.go
index dcc9396..6c53012 100644
--- a/pattern.go
+++ b/pattern.go
@@ -8,10 +8,8 @@ type Pattern struct {
 }
 
 func PatternCreate(patternElements []PatternElement) Pattern {
-	for _, element := range patternElements {
-		if element != nil && element.GetError() != nil {
-			return Pattern{err: element.GetError()}
-		}
+	if err := checkPatternElements(patternElements...); err != nil {
+		return Pattern{err: err}
 	}
 	p := Pattern{
 		patternElements: patternElements,
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..bd13475 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,7 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	return RawStringLiteral{err: err}
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/skip.go b/skip.go
index 55748c9..428aa37 100644
--- a/skip.go
+++ b/skip.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Skip struct {
 	skipAmount NumberLiteral
 	key        string
@@ -8,6 +10,9 @@ type Skip struct {
 }
 
 func SkipCreate(number int) Skip {
+	if number < 0 {
+		return Skip{err: errors.New("skip: the number must not be negative")}
+	}
 	literal := NumberLiteralCreate1(number)
 	skip := Skip{skipAmount: literal, notNil: true}
 	skip.key = getAddress(&skip)
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..4f36ffa 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -9,8 +9,8 @@ type SortItem struct {
 }
 
 func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem {
-	if expression != nil && expression.GetError() != nil {
-		return SortItemError(expression.GetError())
+	if err := checkExpressions(expression); err != nil {
+		return SortItemError(err)
 	}
 	sortItem := SortItem{
 		expression: expression,
@@ -38,14 +38,17 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
+	if item.err != nil {
+		return item
 	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..bd08e0f 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,7 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	return StringLiteral{err: err}
 }
 
 func (s StringLiteral) GetError() error {
diff --git a/support.go b/support.go
index 8829cb2..f01d0fd 100644
--- a/support.go
+++ b/support.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"github.com/rs/xid"
 	"strconv"
 	"sync/atomic"
@@ -32,3 +33,29 @@ func getAddress(_ interface{}) string {
 	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 16)
 }
 
+
+//checkExpressions gives the error of the first expression that is missing or invalid.
+func checkExpressions(expressions ...Expression) error {
+	for _, expression := range expressions {
+		if expression == nil {
+			return errors.New("expression must be not nil")
+		}
+		if expression.GetError() != nil {
+			return expression.GetError()
+		}
+	}
+	return nil
+}
+
+//checkPatternElements gives the error of the first pattern element that is missing or invalid.
+func checkPatternElements(elements ...PatternElement) error {
+	for _, element := range elements {
+		if element == nil {
+			return errors.New("pattern element must be not nil")
+		}
+		if element.GetError() != nil {
+			return element.GetError()
+		}
+	}
+	return nil
+}
diff --git a/unwind.go b/unwind.go
index bf93a89..a7ecbcf 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -9,8 +11,11 @@ type UnwindPhrase struct {
 }
 
 func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
-	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
-		return unwindError(expressionToUnwind.GetError())
+	if err := checkExpressions(expressionToUnwind); err != nil {
+		return unwindError(err)
+	}
+	if variable == "" {
+		return unwindError(errors.New("unwind: the name of the variable is required"))
 	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
diff --git a/where.go b/where.go
index 925d645..8e5203e 100644
--- a/where.go
+++ b/where.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Where struct {
 	key       string
 	condition Condition
@@ -11,6 +13,9 @@ func WhereCreate(condition Condition) Where {
 	if condition != nil && condition.GetError() != nil {
 		return WhereError(condition.GetError())
 	}
+	if condition == nil {
+		return WhereError(errors.New("where: the condition is required"))
+	}
 	where := Where{
 		condition: condition,
 		notNil:    true,
diff --git a/with.go b/with.go
index e321cf8..4a4112e 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,23 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
+	}
+	body := ReturnBodyCreate(returnItems, order, skip, limit)
+	if body.GetError() != nil {
+		return withError(body.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
@@ -31,7 +35,7 @@ func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Ski
 	}
 	with := with{
 		distinct: distinctInstance,
-		body:     ReturnBodyCreate(returnItems, order, skip, limit),
+		body:     body,
 		where:    where,
 		notNil:   true,
 	}
diff --git a/yield_items.go b/yield_items.go
index 026a586..abdb70a 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -13,10 +13,8 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 	if expressions == nil || len(expressions) == 0 {
 		return YieldItemsError(errors.New("can not yield an empty list of items"))
 	}
-	for _, expression := range expressions {
-		if expression.GetError() != nil {
-			return YieldItemsError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return YieldItemsError(err)
 	}
 	yieldItem := YieldItems{
 		expressions: expressions,
@@ -28,7 +26,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From 592e9ebe3fa24e2080ea04fb8cd2da2e5a783f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 06/39] fix: statement builders keep every clause and do not
 share state

---
 default_ongoing_unwind.go                |  8 +-
 default_statement_builder.go             | 94 +++++++++++++++---------
 default_statement_with_return_builder.go |  5 +-
 default_statement_with_update.go         | 79 ++++++++++----------
 order_builder.go                         | 14 ++--
 updating_clause_builder.go               |  8 +-
 6 files changed, 127 insertions(+), 81 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..2616f3b 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,10 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	builder := *d.defaultBuilder
+	builder.addElement(unwindCreate(d.expressionToUnwind, variable))
+	return builder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..55762c0 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -58,11 +58,28 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		element := MultiPartElementCreate(d.BuildListOfVisitable(true), with)
+		multipartElements := make([]MultiPartElement, 0, len(d.multipartElements)+1)
+		multipartElements = append(multipartElements, d.multipartElements...)
+		d.multipartElements = append(multipartElements, element)
 	}
 	return d
 }
 
+//addElement leaves the slice as it is: it may be shared with other builders that were derived from the same one.
+func (d *DefaultStatementBuilder) addElement(element Visitable) {
+	elements := make([]Visitable, 0, len(d.currentSinglePartElements)+1)
+	elements = append(elements, d.currentSinglePartElements...)
+	d.currentSinglePartElements = append(elements, element)
+}
+
+//closeCurrentOngoingElements ends the clause that is currently open, if there is one.
+func (d *DefaultStatementBuilder) closeCurrentOngoingElements() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingUpdate()
+	d.CloseCurrentOngoingCall()
+}
+
 func (d DefaultStatementBuilder) WherePattern(pattern RelationshipPattern) OngoingReadingWithWhere {
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
@@ -267,7 +284,7 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoingElements()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -291,6 +308,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoingElements()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -301,6 +319,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoingElements()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -317,6 +336,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeCurrentOngoingElements()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -346,7 +366,7 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoingElements()
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -360,15 +380,13 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoingElements()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addElement(singlePart)
 	return d
 }
 
@@ -376,8 +394,7 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoingElements()
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
@@ -493,8 +510,7 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoingElements()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
@@ -504,7 +520,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +533,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +541,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -596,16 +612,17 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.closeCurrentOngoingElements()
+	d.addElement(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoingElements()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.currentOngoingUpdate.err != nil {
+		return DefaultStatementBuilderError(d.currentOngoingUpdate.err)
+	}
 	return *d
 }
 
@@ -614,17 +631,30 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
+			patternElement, isPatternElement := visitable.(PatternElement)
+			if !isPatternElement {
+				return RemoveBuilder{}, xerrors.Errorf("a pattern is required for %s", updateType)
 			}
+			patternElements = append(patternElements, patternElement)
 		}
+		if len(patternElements) == 0 {
+			return RemoveBuilder{}, xerrors.Errorf("at least one pattern is required for %s", updateType)
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
+		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
-			expressions = append(expressions, visitable.(Expression))
+			expression, isExpression := visitable.(Expression)
+			if !isExpression {
+				return RemoveBuilder{}, xerrors.Errorf("an expression is required for %s", updateType)
+			}
+			expressions = append(expressions, expression)
+		}
+		if len(expressions) == 0 {
+			return RemoveBuilder{}, xerrors.Errorf("at least one expression is required for %s", updateType)
 		}
 		var expressionList ExpressionList
 		if updateType == UPDATE_TYPE_SET {
@@ -649,8 +679,6 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			return RemoveBuilder{}, xerrors.Errorf("unsupported update type %s", updateType)
 		}
 	}
-	//Just return to make compiler happy
-	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
@@ -708,15 +736,15 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	support := o.defaultBuilder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
+	builder := *o.defaultBuilder
+	support := builder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
 	newSupport, err := support.on(o.mergeType, expressions...)
-	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	newMergeBuilder, _ := newSupport.(MergeBuilder)
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..4f184f7 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -22,10 +22,13 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
+	if returning.GetError() != nil {
+		return nil, returning.GetError()
+	}
 	return d.defaultBuilder.BuildImpl(false, returning), nil
 }
 
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..0cb3c39 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -69,6 +69,15 @@ func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
 
+//closed gives the builder that continues after the updating clause of this one.
+func (d DefaultStatementWithUpdateBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	builder := *d.defaultBuilder
+	return builder.addUpdatingClause(d.builder.build())
+}
+
 func (d DefaultStatementWithUpdateBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
 	return d
@@ -108,14 +117,17 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	builder := d.closed()
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	if returning.GetError() != nil {
+		return nil, returning.GetError()
+	}
+	return builder.BuildImpl(false, returning), nil
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,8 +139,7 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
-	return d
+	return d.returningDefault(false, expression...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -140,8 +151,20 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
-	d.distinct = true
+	return d.returningDefault(true, expression...)
+}
+
+func (d DefaultStatementWithUpdateBuilder) returningDefault(distinct bool, expressions ...Expression) OngoingReadingAndReturn {
+	if d.err != nil {
+		return d
+	}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementWithUpdateBuilderError(err)
+	}
+	returnList := make([]Expression, 0, len(d.returnList)+len(expressions))
+	returnList = append(returnList, d.returnList...)
+	d.returnList = append(returnList, expressions...)
+	d.distinct = distinct
 	return d
 }
 
@@ -158,8 +181,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.closed().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,18 +209,10 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	var deleteType UpdateType
 	if nextDetach {
-		deleteType = UPDATE_TYPE_DETACH_DELETE
-	} else {
-		deleteType = UPDATE_TYPE_DELETE
-	}
-	visitables := make([]Visitable, len(deletedExpressions))
-	for i := range deletedExpressions {
-		visitables[i] = deletedExpressions[i]
+		return d.closed().DetachDelete(deletedExpressions...)
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return d.closed().Delete(deletedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,42 +228,29 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.closed().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	return d.closed().Set(expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.closed().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	return d.closed().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	if d.err != nil {
-		return d
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	return d.closed().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	expressions := make([]Expression, len(properties))
-	for i := range properties {
-		expressions[i] = properties[i]
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	return d.closed().Remove(properties...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.closed().Create(element...)
 }
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..0e0d5c4 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,7 +15,10 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	//the slice may be shared with other builders
+	sortItemList := make([]SortItem, 0, len(o.sortItemList)+len(item))
+	sortItemList = append(sortItemList, o.sortItemList...)
+	o.sortItemList = append(sortItemList, item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +30,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.OrderBySortItem(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.OrderBySortItem(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,8 +48,9 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		o.OrderBySortItem(o.lastSortItem)
+		o.lastSortItem = SortItem{}
 	}
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..16cc93a 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,13 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	action := MergeActionCreate(mergeType, SetCreate(expressionList))
+	if action.GetError() != nil {
+		return MergeBuilder{}, action.GetError()
+	}
+	mergeActions := make([]MergeAction, 0, len(c.mergeActions)+1)
+	mergeActions = append(mergeActions, c.mergeActions...)
+	c.mergeActions = append(mergeActions, action)
 	return c, nil
 }
 
-- 
2.43.0


From 3a05b71d487bad98b4eb6a04309ec2f4adb921a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/39] fix: errors, filters and qualified names survive in
 statement, WITH and CALL builders

---
 arguments.go                           |   6 +-
 condition_builder.go                   |  13 +-
 default_statement_builder.go           | 230 ++++++++++---------------
 default_statement_with_with_builder.go |  63 +++----
 in_query_call_builder.go               |  45 +++--
 match_builder.go                       |   4 +-
 procedure_call.go                      |  55 +++---
 procedure_name.go                      |  31 ++--
 8 files changed, 208 insertions(+), 239 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..2ff8cd6 100644
--- a/arguments.go
+++ b/arguments.go
@@ -8,10 +8,8 @@ type Arguments struct {
 }
 
 func ArgumentsCreate(expression []Expression) Arguments {
-	for _, expr := range expression {
-		if expr != nil && expr.GetError() != nil {
-			return Arguments{err: expr.GetError()}
-		}
+	if err := checkExpressions(expression...); err != nil {
+		return Arguments{err: err}
 	}
 	a := Arguments{
 		expressions: expression,
diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..30dfdc5 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,19 +13,28 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = EMPTY_CONDITION
+	}
 	c.condition = c.condition.And(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = EMPTY_CONDITION
+	}
 	c.condition = c.condition.Or(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil || !c.condition.isNotNil() {
+	if c.condition == nil {
 		return false
 	}
+	if c.condition.GetError() != nil {
+		return true
+	}
 	compound, isCompound := c.condition.(CompoundCondition)
-	return c.condition.isNotNil() && (!isCompound || compound.hasCondition())
+	return !isCompound || compound.hasCondition()
 }
 
 func (c *ConditionBuilder) buildCondition() Condition {
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 55762c0..90b5aef 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -36,13 +36,31 @@ func DefaultStatementBuilderError(err error) DefaultStatementBuilder {
 }
 
 func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWhere {
+	return d.changeCondition(condition, func(builder *ConditionBuilder) {
+		builder.Where(condition)
+	})
+}
+
+//changeCondition applies the change to the condition of the clause that is currently open.
+func (d DefaultStatementBuilder) changeCondition(condition Condition, change func(builder *ConditionBuilder)) DefaultStatementBuilder {
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Where(condition)
+	if d.currentOngoingCall == nil || !d.currentOngoingCall.isNotNil() {
+		change(&d.currentOngoingMatch.conditionBuilder)
+		return d
+	}
+	switch call := d.currentOngoingCall.(type) {
+	case InQueryCallBuilder:
+		change(&call.conditionBuilder)
+		d.currentOngoingCall = call
+	case StandaloneCallBuilder:
+		change(&call.conditionBuilder)
+		d.currentOngoingCall = call
+	}
 	return d
 }
 
@@ -59,6 +77,12 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 	}
 	if with.isNotNil() {
 		element := MultiPartElementCreate(d.BuildListOfVisitable(true), with)
+		if d.err != nil {
+			return DefaultStatementBuilderError(d.err)
+		}
+		if element.GetError() != nil {
+			return DefaultStatementBuilderError(element.GetError())
+		}
 		multipartElements := make([]MultiPartElement, 0, len(d.multipartElements)+1)
 		multipartElements = append(multipartElements, d.multipartElements...)
 		d.multipartElements = append(multipartElements, element)
@@ -81,12 +105,6 @@ func (d *DefaultStatementBuilder) closeCurrentOngoingElements() {
 }
 
 func (d DefaultStatementBuilder) WherePattern(pattern RelationshipPattern) OngoingReadingWithWhere {
-	if d.err != nil {
-		return DefaultStatementBuilderError(d.err)
-	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
-	}
 	return d.Where(RelationshipPatternConditionCreate(pattern))
 }
 
@@ -98,11 +116,6 @@ func (d DefaultStatementBuilder) ReturningByNamed(variables ...Named) OngoingRea
 	if d.err != nil {
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(variable.GetError())
-		}
-	}
 	return d.Returning(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -117,11 +130,6 @@ func (d DefaultStatementBuilder) ReturningDistinctByNamed(variables ...Named) On
 	if d.err != nil {
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(variable.GetError())
-		}
-	}
 	return d.ReturningDistinct(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -136,11 +144,6 @@ func (d DefaultStatementBuilder) WithByNamed(variables ...Named) OrderableOngoin
 	if d.err != nil {
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(variable.GetError())
-		}
-	}
 	return d.With(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -148,10 +151,8 @@ func (d DefaultStatementBuilder) With(expressions ...Expression) OrderableOngoin
 	if d.err != nil {
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementWithWithBuilderError(err)
 	}
 	return d.WithDefault(false, expressions...)
 }
@@ -167,11 +168,6 @@ func (d DefaultStatementBuilder) WithDistinctByNamed(variables ...Named) Orderab
 	if d.err != nil {
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(variable.GetError())
-		}
-	}
 	return d.WithDistinct(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -179,10 +175,8 @@ func (d DefaultStatementBuilder) WithDistinct(expressions ...Expression) Orderab
 	if d.err != nil {
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementWithWithBuilderError(err)
 	}
 	return d.WithDefault(true, expressions...)
 }
@@ -191,10 +185,8 @@ func (d DefaultStatementBuilder) WithDefault(distinct bool, expressions ...Expre
 	if d.err != nil {
 		return DefaultStatementWithWithBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithWithBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementWithWithBuilderError(err)
 	}
 	ongoingMatchAndWith := DefaultStatementWithWithBuilderCreate(&d, distinct)
 	ongoingMatchAndWith.addExpression(expressions...)
@@ -212,11 +204,6 @@ func (d DefaultStatementBuilder) DeleteByNamed(variables ...Named) OngoingUpdate
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementBuilderError(variable.GetError())
-		}
-	}
 	return d.Delete(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -224,10 +211,8 @@ func (d DefaultStatementBuilder) Delete(expressions ...Expression) OngoingUpdate
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Update(UPDATE_TYPE_DELETE, ExpressionsToVisitables(expressions))
 }
@@ -243,11 +228,6 @@ func (d DefaultStatementBuilder) DetachDeleteByNamed(variables ...Named) Ongoing
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, variable := range variables {
-		if variable != nil && variable.GetError() != nil {
-			return DefaultStatementBuilderError(variable.GetError())
-		}
-	}
 	return d.DetachDelete(CreateSymbolicNameByNamed(variables...)...)
 }
 
@@ -255,10 +235,8 @@ func (d DefaultStatementBuilder) DetachDelete(expressions ...Expression) Ongoing
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Update(UPDATE_TYPE_DETACH_DELETE, ExpressionsToVisitables(expressions))
 }
@@ -267,10 +245,8 @@ func (d DefaultStatementBuilder) Merge(patterns ...PatternElement) OngoingUpdate
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
-		}
+	if err := checkPatternElements(patterns...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Update(UPDATE_TYPE_MERGE, PatternElementsToVisitables(patterns))
 }
@@ -279,10 +255,8 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	d.closeCurrentOngoingElements()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
@@ -292,13 +266,7 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if variable != nil && variable.GetError() != nil {
-		return DefaultStatementBuilderError(variable.GetError())
-	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultStatementBuilderError(expression.GetError())
-	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(append(CreateSymbolicNameByNamed(variable), expression)...)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -344,10 +312,8 @@ func (d DefaultStatementBuilder) Unwinds(expressions ...Expression) OngoingUnwin
 	if d.err != nil {
 		return DefaultOngoingUnwindError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultOngoingUnwindError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultOngoingUnwindError(err)
 	}
 	return d.Unwind(ListOf(expressions...))
 }
@@ -363,8 +329,8 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if d.err != nil {
 		return DefaultOngoingUnwindError(d.err)
 	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultOngoingUnwindError(expression.GetError())
+	if err := checkExpressions(expression); err != nil {
+		return DefaultOngoingUnwindError(err)
 	}
 	d.closeCurrentOngoingElements()
 	return DefaultOngoingUnwindCreate(&d, expression)
@@ -374,11 +340,11 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if statement != nil && statement.GetError() != nil {
-		return DefaultStatementBuilderError(statement.GetError())
+	if statement == nil {
+		return DefaultStatementBuilderError(errors.New("call: the statement is required"))
 	}
-	if d.err != nil {
-		return d
+	if statement.GetError() != nil {
+		return DefaultStatementBuilderError(statement.GetError())
 	}
 	d.closeCurrentOngoingElements()
 	singlePart := SubqueryCall(statement)
@@ -395,54 +361,42 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 		return InQueryCallBuilder{err: d.err}
 	}
 	d.closeCurrentOngoingElements()
-	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
+	procedureName := ProcedureNameCreate(namespaceAndProcedure...)
+	if procedureName.GetError() != nil {
+		return InQueryCallBuilder{err: procedureName.GetError()}
+	}
+	inQueryCallBuilder := InQueryCallBuilderCreate(&d, procedureName)
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
 
 func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWhere {
-	if d.err != nil {
-		return DefaultStatementBuilderError(d.err)
-	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
-	return d
+	return d.changeCondition(condition, func(builder *ConditionBuilder) {
+		builder.And(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) AndPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
-	if d.err != nil {
-		return DefaultStatementBuilderError(d.err)
-	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
-	}
 	return d.And(RelationshipPatternConditionCreate(pattern))
 }
 
 func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere {
-	if d.err != nil {
-		return DefaultStatementBuilderError(d.err)
-	}
-	if condition != nil && condition.GetError() != nil {
-		return DefaultStatementBuilderError(condition.GetError())
-	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
-	return d
+	return d.changeCondition(condition, func(builder *ConditionBuilder) {
+		builder.Or(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) OrPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
-	if d.err != nil {
-		return DefaultStatementBuilderError(d.err)
-	}
-	if pattern != nil && pattern.GetError() != nil {
-		return DefaultStatementBuilderError(pattern.GetError())
-	}
 	return d.Or(RelationshipPatternConditionCreate(pattern))
 }
 
@@ -450,10 +404,8 @@ func (d DefaultStatementBuilder) OptionalMatch(patterns ...PatternElement) Ongoi
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
-		}
+	if err := checkPatternElements(patterns...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.MatchDefault(true, patterns...)
 }
@@ -462,10 +414,8 @@ func (d DefaultStatementBuilder) Create(elements ...PatternElement) OngoingUpdat
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, element := range elements {
-		if element != nil && element.GetError() != nil {
-			return DefaultStatementBuilderError(element.GetError())
-		}
+	if err := checkPatternElements(elements...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.Update(UPDATE_TYPE_CREATE, PatternElementsToVisitables(elements))
 }
@@ -493,10 +443,8 @@ func (d DefaultStatementBuilder) Match(patterns ...PatternElement) OngoingReadin
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
-		}
+	if err := checkPatternElements(patterns...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	return d.MatchDefault(false, patterns...)
 }
@@ -505,10 +453,8 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	for _, pattern := range patterns {
-		if pattern != nil && pattern.GetError() != nil {
-			return DefaultStatementBuilderError(pattern.GetError())
-		}
+	if err := checkPatternElements(patterns...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	d.closeCurrentOngoingElements()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
@@ -557,10 +503,8 @@ func (d DefaultStatementBuilder) ReturningDefault(distinct bool, expressions ...
 	if d.err != nil {
 		return DefaultStatementWithReturnBuilderError(d.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementWithReturnBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementWithReturnBuilderError(err)
 	}
 	withReturnBuilder := DefaultStatementWithReturnBuilder{
 		distinct:       distinct,
@@ -574,11 +518,19 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	return d.BuildImpl(false, Return{}), nil
+	statement := d.BuildImpl(false, Return{})
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	clauses := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(clauses, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -731,10 +683,8 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 	if o.err != nil {
 		return DefaultStatementBuilderError(o.err)
 	}
-	for _, expression := range expressions {
-		if expression != nil && expression.GetError() != nil {
-			return DefaultStatementBuilderError(expression.GetError())
-		}
+	if err := checkExpressions(expressions...); err != nil {
+		return DefaultStatementBuilderError(err)
 	}
 	builder := *o.defaultBuilder
 	support := builder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
@@ -751,11 +701,5 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if o.err != nil {
 		return DefaultStatementBuilderError(o.err)
 	}
-	if variable != nil && variable.GetError() != nil {
-		return DefaultStatementBuilderError(variable.GetError())
-	}
-	if expression != nil && expression.GetError() != nil {
-		return DefaultStatementBuilderError(expression.GetError())
-	}
-	return o.Set(variable.GetSymbolicName(), expression)
+	return o.Set(append(CreateSymbolicNameByNamed(variable), expression)...)
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..f0fd824 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -30,10 +30,7 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
-		where = Where{}
-
-	} else {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
@@ -43,6 +40,14 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	return returnedWith
 }
 
+//closed gives the builder that continues after the WITH of this one.
+func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
 	d.returnList = append(d.returnList, expressions...)
 }
@@ -86,8 +91,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Returning(expression...)
+	return d.closed().Returning(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -99,8 +103,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		ReturningDistinct(expression...)
+	return d.closed().ReturningDistinct(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -112,8 +115,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		With(expressions...)
+	return d.closed().With(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,8 +127,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		WithDistinct(expressions...)
+	return d.closed().WithDistinct(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DeleteByString(variables ...string) OngoingUpdate {
@@ -138,8 +139,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Delete(expressions...)
+	return d.closed().Delete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -151,37 +151,31 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		DetachDelete(expressions...)
+	return d.closed().DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Merge(pattern...)
+	return d.closed().Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Set(expressions...)
+	return d.closed().Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetRequiredSymbolicName(), expression)
+	return d.closed().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		SetByNode(node, labels...)
+	return d.closed().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		RemoveByNode(node, labels...)
+	return d.closed().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Remove(properties...)
+	return d.closed().Remove(properties...)
 }
 
 func (d DefaultStatementWithWithBuilder) Unwinds(expression ...Expression) OngoingUnwind {
@@ -193,23 +187,19 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Unwind(expression)
+	return d.closed().Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Create(element...)
+	return d.closed().Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call(statement)
+	return d.closed().Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call1(namespaceAndProcedure...)
+	return d.closed().Call1(namespaceAndProcedure...)
 }
 
 func (d DefaultStatementWithWithBuilder) Match(pattern ...PatternElement) OngoingReadingWithoutWhere {
@@ -221,8 +211,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		MatchDefault(optional, pattern...)
+	return d.closed().MatchDefault(optional, pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Where(condition Condition) OrderableOngoingReadingAndWithWithWhere {
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..98f8765 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -19,10 +19,19 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+//opened gives the builder of the statement in which this call is the open clause.
+func (i InQueryCallBuilder) opened() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
+}
+
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.opened()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +51,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.opened().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,25 +63,31 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.opened().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
-			WhereCreate(condition)), nil
+	where := Where{}
+	if condition != nil {
+		where = WhereCreate(condition)
+	}
+	call := ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, where)
+	if call.GetError() != nil {
+		return nil, call.GetError()
 	}
-	return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}), nil
+	return call, nil
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = arguments
+	i.arguments = append([]Expression(nil), arguments...)
 	return i
 }
 
@@ -112,8 +126,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.opened().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +138,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.opened().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.opened().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
diff --git a/match_builder.go b/match_builder.go
index 889d50e..cde488b 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..46a8fad 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -155,9 +155,17 @@ func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	}
 }
 
+//opened gives the builder of a statement in which this call is the open clause.
+func (s StandaloneCallBuilder) opened() DefaultStatementBuilder {
+	if s.err != nil {
+		return DefaultStatementBuilderError(s.err)
+	}
+	return DefaultStatementBuilderCreate1(s)
+}
+
 func (s StandaloneCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	s.conditionBuilder.Where(condition)
-	return DefaultStatementBuilderCreate1(s)
+	return s.opened()
 }
 
 func (s StandaloneCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -177,7 +185,7 @@ func (s StandaloneCallBuilder) ReturningByNamed(variables ...Named) OngoingReadi
 }
 
 func (s StandaloneCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).Returning(expression...)
+	return s.opened().Returning(expression...)
 }
 
 func (s StandaloneCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -189,32 +197,27 @@ func (s StandaloneCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongo
 }
 
 func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).ReturningDistinct(expression...)
+	return s.opened().ReturningDistinct(expression...)
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
-	if s.procedureName.GetError() != nil {
-		return nil, s.procedureName.GetError()
-	}
-	if s.yieldItems.GetError() != nil {
-		return nil, s.yieldItems.GetError()
+	if s.err != nil {
+		return nil, s.err
 	}
 	argumentsList := Arguments{}
 	if s.arguments == nil || len(s.arguments) > 0 {
 		argumentsList = ArgumentsCreate(s.arguments)
 	}
-	if argumentsList.GetError() != nil {
-		return nil, argumentsList.GetError()
-	}
 	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		if condition.GetError() != nil {
-			return nil, condition.GetError()
-		}
-		return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
-			WhereCreate(condition)), nil
+	where := Where{}
+	if condition != nil {
+		where = WhereCreate(condition)
+	}
+	call := ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, where)
+	if call.GetError() != nil {
+		return nil, call.GetError()
 	}
-	return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}), nil
+	return call, nil
 }
 
 func (s StandaloneCallBuilder) isNotNil() bool {
@@ -222,11 +225,17 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append([]Expression(nil), arguments...)
 	return s
 }
 
@@ -265,7 +274,7 @@ func (s StandaloneCallBuilder) WithByNamed(variables ...Named) OrderableOngoingR
 }
 
 func (s StandaloneCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).With(expressions...)
+	return s.opened().With(expressions...)
 }
 
 func (s StandaloneCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -277,9 +286,9 @@ func (s StandaloneCallBuilder) WithDistinctByNamed(variables ...Named) Orderable
 }
 
 func (s StandaloneCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).WithDistinct(expressions...)
+	return s.opened().WithDistinct(expressions...)
 }
 
 func (s StandaloneCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).Call(statement)
+	return s.opened().Call(statement)
 }
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..740ab43 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"strings"
 )
 
@@ -13,15 +14,21 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	inputLength := len(namespaceAndProcedure)
+	if inputLength == 0 {
+		return ProcedureName{err: errors.New("the name of the procedure is required")}
+	}
+	for _, name := range namespaceAndProcedure {
+		if name == "" {
+			return ProcedureName{err: errors.New("the name of a procedure must not have empty parts")}
+		}
+	}
+	if inputLength == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
-	} else {
-		values := make([]string, 0)
-		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
-		namespace := NameSpaceCreate(values)
-		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
+	values := make([]string, inputLength-1)
+	copy(values, namespaceAndProcedure)
+	return ProcedureNameCreate2(NameSpaceCreate(values), namespaceAndProcedure[inputLength-1])
 }
 
 func ProcedureNameCreate1(value string) ProcedureName {
@@ -47,11 +54,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return strings.Join(p.optionalNamespace.content[:], ".") + "." + p.value
 	}
-	return namespace + "." + p.value
+	return p.value
 }
 
 func (p ProcedureName) GetError() error {
@@ -60,7 +66,10 @@ func (p ProcedureName) GetError() error {
 
 func (p ProcedureName) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	VisitIfNotNull(p.optionalNamespace, visitor)
+	if p.optionalNamespace.isNotNil() {
+		p.optionalNamespace.accept(visitor)
+		visitor.append(".")
+	}
 	visitor.leave(p)
 }
 
-- 
2.43.0


From 83c6e9cde495f8b2102960cf2ac0ec3407e3be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 08/39] fix: SET keeps operations given as values and the order
 of the assignments

---
 default_statement_builder.go | 14 +++++++-------
 operation.go                 | 14 +++++++++-----
 remove.go                    |  2 +-
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 90b5aef..0c0ae9c 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -635,20 +635,20 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
+	var target Expression
 	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		if operation, isOperation := possibleSetOperation.(Operation); isOperation && operation.isUpdate() {
 			propertyOperations = append(propertyOperations, operation)
+		} else if target == nil {
+			target = possibleSetOperation
 		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			propertyOperations = append(propertyOperations, OperationSet(target, possibleSetOperation))
+			target = nil
 		}
 	}
-	if len(listOfExpressions)%2 != 0 {
+	if target != nil {
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
-	}
 	return propertyOperations, nil
 }
 
diff --git a/operation.go b/operation.go
index 65abe72..ccb676e 100644
--- a/operation.go
+++ b/operation.go
@@ -55,13 +55,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -158,6 +158,10 @@ func (o Operation) GetExpressionType() ExpressionType {
 }
 
 func (o Operation) needsGrouping() bool {
-	return (o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL) &&
-		(o.operator != EXPONENTIATION && o.operator != PIPE)
+	return !o.isUpdate() && (o.operator != EXPONENTIATION && o.operator != PIPE)
+}
+
+//isUpdate tells whether the operation changes a property or the labels, all the others are values.
+func (o Operation) isUpdate() bool {
+	return o.operator.operatorType == PROPERTY || o.operator.operatorType == LABEL
 }
diff --git a/remove.go b/remove.go
index 29a8131..573a971 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
-- 
2.43.0


From 356d93d0dbe41377e624685a930955baa3f002a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 09/39] fix: CASE expressions report invalid parts, keep their
 ELSE and do not share branches

---
 case.go | 67 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/case.go b/case.go
index 0d82f1a..f2dda9d 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -17,8 +19,8 @@ var GENERIC_CASE = "GenericCase"
 var ENDING_GENERIC_CASE = "EndingGenericCase"
 
 func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
-	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+	if err := checkExpressions(caseExpression); err != nil {
+		return Case{err: err}
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
@@ -37,8 +39,8 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 }
 
 func SimpleCaseCreate1(caseExpression Expression) Case {
-	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+	if err := checkExpressions(caseExpression); err != nil {
+		return Case{err: err}
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
@@ -52,8 +54,8 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 }
 
 func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
-	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+	if err := checkExpressions(caseExpression); err != nil {
+		return Case{err: err}
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
@@ -165,12 +167,16 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
 		return Case{err: caseElse.GetError()}
 	}
 	c.caseElse = caseElse
-	c.ExpressionContainer = ExpressionWrap(c)
+	c.key = getAddress(&c)
+	c.ConditionContainer = ConditionWrap(c)
 	return c
 }
 
@@ -200,20 +206,39 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
-	if whenExpression != nil && whenExpression.GetError() != nil {
-		return OngoingWhenThen{err: whenExpression.GetError()}
+	if caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("when: the case expression is required")}
+	}
+	if caseInstance.GetError() != nil {
+		return OngoingWhenThen{err: caseInstance.GetError()}
+	}
+	if err := checkExpressions(whenExpression); err != nil {
+		return OngoingWhenThen{err: err}
 	}
 	return OngoingWhenThen{whenExpression: whenExpression, caseInstance: caseInstance}
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
-	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
-	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+	if o.err != nil {
+		return Case{err: o.err}
+	}
+	if o.caseInstance == nil {
+		return Case{err: errors.New("then: the case expression is required")}
+	}
+	caseWhenThens := make([]CaseWhenThen, 0, len(o.caseInstance.caseWhenThens)+1)
+	caseWhenThens = append(caseWhenThens, o.caseInstance.caseWhenThens...)
+	caseWhenThens = append(caseWhenThens, CaseWhenThenCreate(o.whenExpression, expression))
+	var ending Case
+	if o.caseInstance.caseType == SIMPLE_CASE || o.caseInstance.caseType == ENDING_SIMPLE_CASE {
+		ending = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		ending = EndingGenericCaseCreate(caseWhenThens)
+	}
+	if ending.err == nil && o.caseInstance.caseElse.isNotNil() {
+		ending.caseElse = o.caseInstance.caseElse
+		ending.ConditionContainer = ConditionWrap(ending)
 	}
+	return ending
 }
 
 //CaseWhenThen
@@ -227,11 +252,8 @@ type CaseWhenThen struct {
 }
 
 func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) CaseWhenThen {
-	if thenExpression != nil && thenExpression.GetError() != nil {
-		return CaseWhenThen{err: thenExpression.GetError()}
-	}
-	if whenExpression != nil && whenExpression.GetError() != nil {
-		return CaseWhenThen{err: whenExpression.GetError()}
+	if err := checkExpressions(whenExpression, thenExpression); err != nil {
+		return CaseWhenThen{err: err}
 	}
 	caseWhenThen := CaseWhenThen{
 		thenExpression: thenExpression,
@@ -243,6 +265,9 @@ func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) Ca
 }
 
 func (c CaseWhenThen) When(nextExpression Expression) OngoingWhenThen {
+	if c.err != nil {
+		return OngoingWhenThen{err: c.err}
+	}
 	return OngoingWhenThenCreate(c.caseInstance, nextExpression)
 }
 
@@ -282,8 +307,8 @@ type CaseElse struct {
 }
 
 func CaseElseCreate(elseExpression Expression) CaseElse {
-	if elseExpression != nil && elseExpression.GetError() != nil {
-		return CaseElse{err: elseExpression.GetError()}
+	if err := checkExpressions(elseExpression); err != nil {
+		return CaseElse{err: err}
 	}
 	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
 	caseElse.key = getAddress(&caseElse)
-- 
2.43.0


From 1dd9393b60b22b41519d7084af318375a7992914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 10/39] fix: number literals keep their exact value, numbers
 without literal are errors

---
 number_literal.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..681040c 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,12 +1,17 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 type NumberLiteral struct {
 	ExpressionContainer
 	content *big.Float
+	text    string
 	key     string
 	notNil  bool
 	err     error
@@ -15,6 +20,7 @@ type NumberLiteral struct {
 func NumberLiteralCreate(content int64) NumberLiteral {
 	n := NumberLiteral{
 		content: new(big.Float).SetInt(new(big.Int).SetInt64(content)),
+		text:    strconv.FormatInt(content, 10),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -23,9 +29,17 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteral{err: errors.New("number literal: there is no literal for a number that is not finite")}
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
-		notNil:  true,
+		// the shortest text that reads back as the same float64, Cypher has no plus sign in front of an exponent
+		text:   strings.Replace(strconv.FormatFloat(content, 'g', -1, 64), "e+", "e", 1),
+		notNil: true,
+	}
+	if content == math.Trunc(content) && math.Abs(content) < 1e15 {
+		n.text = strconv.FormatFloat(content, 'f', -1, 64)
 	}
 	n.key = getAddress(&n)
 	n.ExpressionContainer = ExpressionWrap(n)
@@ -35,6 +49,7 @@ func NumberLiteralCreate2(content float64) NumberLiteral {
 func NumberLiteralCreate1(content int) NumberLiteral {
 	n := NumberLiteral{
 		content: new(big.Float).SetInt(new(big.Int).SetInt64(int64(content))),
+		text:    strconv.Itoa(content),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -63,7 +78,7 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	return n.text
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 5b5a1e6b3ecc1821690373410368abc57aa0e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 11/39] fix: relationships and chains report errors, do not
 share state and do not panic

---
 name_path.go            |  24 +++++++--
 relationship.go         |  42 +++++++++++++++
 relationship_chain.go   | 112 +++++++++++++++++++++++++++-------------
 relationship_details.go |  22 +++++++-
 4 files changed, 161 insertions(+), 39 deletions(-)

diff --git a/name_path.go b/name_path.go
index ed0148d..ce47452 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,9 +14,18 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern != nil && pattern.GetError() != nil {
+	if pattern == nil {
+		return NamedPathError(errors.New("named path: the pattern is required"))
+	}
+	if pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
+	if !name.isNotNil() {
+		return NamedPathError(errors.New("named path: a name is required"))
+	}
+	if !pattern.isNotNil() {
+		return NamedPathError(errors.New("named path: the pattern is required"))
+	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
 	n.key = getAddress(&n)
 	return n
@@ -48,6 +57,9 @@ func NamedPathBuilderWithNameByString(name string) OngoingDefinitionWithName {
 }
 
 func NamedPathBuilderWithName(name SymbolicName) OngoingDefinitionWithName {
+	if name.GetError() != nil {
+		return NamedPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return NamedPathBuilder{
 			err: errors.New("a name is required"),
@@ -66,6 +78,9 @@ func NamedPathShortestPathWithNameByString(name string, algorithm FunctionDefini
 }
 
 func NamedPathShortestPathWithName(name SymbolicName, algorithm FunctionDefinition) OngoingShortestPathDefinitionWithName {
+	if name.GetError() != nil {
+		return ShortestPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return ShortestPathBuilder{
 			err: errors.New("a name is required"),
@@ -139,6 +154,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
@@ -163,8 +181,8 @@ func (s ShortestPathBuilder) DefinedBy(relationship Relationship) NamedPath {
 	if s.err != nil {
 		return NamedPathError(s.err)
 	}
-	if relationship.err != nil {
-		return NamedPathError(relationship.err)
+	if relationship.GetError() != nil {
+		return NamedPathError(relationship.GetError())
 	}
 	return NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))
 }
diff --git a/relationship.go b/relationship.go
index 327a29c..dc42ac6 100644
--- a/relationship.go
+++ b/relationship.go
@@ -35,6 +35,9 @@ func RelationshipCreate3(left Node, details RelationshipDetails, right Node) Rel
 	if details.GetError() != nil {
 		return RelationshipError(details.GetError())
 	}
+	if !left.isNotNil() || !right.isNotNil() {
+		return RelationshipError(errors.New("relationship: both nodes are required"))
+	}
 	if right.GetError() != nil {
 		return RelationshipError(right.GetError())
 	}
@@ -78,22 +81,37 @@ func (r Relationship) getKey() string {
 }
 
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
 }
 
 func (r Relationship) Unbounded() Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
 }
 
 func (r Relationship) Min(minimum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
 }
 
 func (r Relationship) Max(maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
 }
 
@@ -116,22 +134,37 @@ func (r Relationship) IsPatternElement() bool {
 }
 
 func (r Relationship) RelationshipTo(node Node, types ...string) RelationshipChain {
+	if r.err != nil {
+		return RelationshipChainCreate(r)
+	}
 	return RelationshipChainCreate(r).Add(r.right.RelationshipTo(node, types...))
 }
 
 func (r Relationship) RelationshipFrom(node Node, types ...string) RelationshipChain {
+	if r.err != nil {
+		return RelationshipChainCreate(r)
+	}
 	return RelationshipChainCreate(r).Add(r.right.RelationshipFrom(node, types...))
 }
 
 func (r Relationship) RelationshipBetween(node Node, types ...string) RelationshipChain {
+	if r.err != nil {
+		return RelationshipChainCreate(r)
+	}
 	return RelationshipChainCreate(r).Add(r.right.RelationshipBetween(node, types...))
 }
 
 func (r Relationship) Named(name string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
 }
 
 func (r Relationship) NamedC(name string) RelationshipChain {
+	if r.err != nil {
+		return RelationshipChainCreate(r)
+	}
 	return RelationshipChainError("can not use namedC for relationship")
 }
 
@@ -151,6 +184,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.err != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
@@ -162,5 +201,8 @@ func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
 }
 
 func (r Relationship) Project(entries ...interface{}) MapProjection {
+	if r.err != nil {
+		return MapProjectionError(r.err)
+	}
 	return MapProjectionCreate(r.GetRequiredSymbolicName(), entries...)
 }
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..02532f3 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,9 +10,7 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
-	relations := make([]Relationship, 1)
-	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	return relationshipChainOf(nil, relationship)
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
@@ -32,21 +30,24 @@ func (r RelationshipChain) getKey() string {
 }
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.Add(r.last().right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.Add(r.last().right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.Add(r.last().right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -54,45 +55,84 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().Named(name))
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().Unbounded())
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().Min(minimum))
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().Length(minimum, maximum))
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().Max(maximum))
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().WithProperties(newProperties))
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if len(r.relationships) == 0 {
+		return r.empty()
+	}
+	return r.replaceLast(r.last().WithRawProperties(keysAndValues...))
+}
+
+func (r RelationshipChain) last() Relationship {
+	return r.relationships[len(r.relationships)-1]
+}
+
+//empty is what every call on a chain without relationships gives.
+func (r RelationshipChain) empty() RelationshipChain {
+	if r.err != nil {
+		return r
+	}
+	return RelationshipChainError("relationship chain: at least one relationship is required")
+}
+
+//replaceLast gives a new chain with another last relationship, this one stays as it is.
+func (r RelationshipChain) replaceLast(relationship Relationship) RelationshipChain {
+	return relationshipChainOf(r.relationships[:len(r.relationships)-1], relationship)
+}
+
+func relationshipChainOf(relationships []Relationship, last Relationship) RelationshipChain {
+	if last.GetError() != nil {
+		return RelationshipChain{err: last.GetError()}
+	}
+	if !last.isNotNil() {
+		return RelationshipChainError("relationship chain: the relationship is required")
+	}
+	chain := RelationshipChain{notNil: true}
+	chain.relationships = make([]Relationship, 0, len(relationships)+1)
+	chain.relationships = append(chain.relationships, relationships...)
+	chain.relationships = append(chain.relationships, last)
+	chain.key = getAddress(&chain)
+	return chain
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +154,10 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return relationshipChainOf(r.relationships, relationship)
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..f9c3223 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
@@ -88,6 +90,9 @@ func (r RelationshipDetails) getKey() string {
 }
 
 func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	if newNamed == "" {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -95,6 +100,9 @@ func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails
 }
 
 func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	if !newSymbolicName.isNotNil() {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -102,14 +110,23 @@ func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDet
 }
 
 func (r RelationshipDetails) with(newProperties Properties) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties)
 }
 
 func (r RelationshipDetails) unbounded() RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties)
 }
 
 func (r RelationshipDetails) min(minimum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(&minimum, nil)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
@@ -118,6 +135,9 @@ func (r RelationshipDetails) min(minimum int) RelationshipDetails {
 }
 
 func (r RelationshipDetails) max(maximum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(nil, &maximum)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
-- 
2.43.0


From 02ff8d703293f7fd599243974be0e169d077c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 12/39] fix: UNION reports errors of the first statement and
 unions that can not be nested

---
 cypher.go      | 11 ++++++++++-
 union_query.go |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cypher.go b/cypher.go
index 959ad46..649c311 100644
--- a/cypher.go
+++ b/cypher.go
@@ -562,6 +562,14 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	if statements == nil || len(statements) < 2 {
 		return UnionQueryError(errors.New("at least 2 statements are required"))
 	}
+	for _, statement := range statements {
+		if statement == nil {
+			return UnionQueryError(errors.New("can only union statements that are not nil"))
+		}
+		if statement.GetError() != nil {
+			return UnionQueryError(statement.GetError())
+		}
+	}
 	i := 0
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
@@ -573,7 +581,8 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	}
 	listOfQueries := make([]SingleQuery, 0)
 	for _, query := range statements[i:] {
-		if singleQuery, isSingle := query.(SingleQuery); isSingle {
+		_, isUnion := query.(UnionQuery)
+		if singleQuery, isSingle := query.(SingleQuery); isSingle && !isUnion {
 			listOfQueries = append(listOfQueries, singleQuery)
 			continue
 		}
diff --git a/union_query.go b/union_query.go
index 0012ac6..6f85848 100644
--- a/union_query.go
+++ b/union_query.go
@@ -18,7 +18,10 @@ func UnionQueryCreate(all bool, queries []SingleQuery) UnionQuery {
 		return UnionQueryError(errors.New("at least two queries are needed"))
 	}
 	for _, query := range queries {
-		if query != nil && query.GetError() != nil {
+		if query == nil {
+			return UnionQueryError(errors.New("union: the query must be not nil"))
+		}
+		if query.GetError() != nil {
 			return UnionQueryError(query.GetError())
 		}
 	}
-- 
2.43.0


From f60431b1f67f40524aa60f3b5729f7a3e13daf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 13/39] fix: comprehensions, maps, projections, properties and
 subqueries report invalid parts

---
 alias_expression.go           | 12 +++++++++---
 boolean_function_condition.go |  2 ++
 cypher.go                     |  4 ++++
 entry_expression.go           | 11 +++++++----
 existential_subquery.go       |  5 +++++
 has_label_condition.go        |  5 +++++
 key_value_map_entry.go        | 10 ++++++++--
 list_comprehension.go         | 21 +++++++++++++++++++++
 list_expression.go            |  2 +-
 list_operator.go              |  3 +++
 map_expression.go             | 11 ++++++-----
 map_projection.go             |  6 ++++++
 node.go                       |  6 ++++++
 pattern_comprehension.go      | 27 ++++++++++++++++++++++++---
 property.go                   |  4 ++--
 property_lookup.go            |  6 ++++++
 subquery.go                   | 10 ++++++++--
 support.go                    |  6 ++++++
 18 files changed, 129 insertions(+), 22 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..915c183 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -14,12 +14,12 @@ type AliasedExpression struct {
 }
 
 func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpression {
+	if delegate != nil && delegate.GetError() != nil {
+		return AliasedExpressionError(delegate.GetError())
+	}
 	if delegate == nil || !delegate.isNotNil() {
 		return AliasedExpressionError(errors.New("expression to alias can't be nil"))
 	}
-	if delegate.GetError() != nil {
-		return AliasedExpressionError(delegate.GetError())
-	}
 	if alias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
@@ -52,6 +52,9 @@ func (aliased AliasedExpression) GetExpressionType() ExpressionType {
 }
 
 func (aliased AliasedExpression) Aliased(newAlias string) AliasedExpression {
+	if aliased.err != nil {
+		return aliased
+	}
 	if newAlias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
@@ -86,5 +89,8 @@ func (aliased AliasedExpression) GetAlias() string {
 }
 
 func (aliased AliasedExpression) AsName() SymbolicName {
+	if aliased.err != nil {
+		return SymbolicNameError(aliased.err)
+	}
 	return SymbolicNameCreate(aliased.alias)
 }
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 986fea8..4d3a0ff 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -33,7 +33,9 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
+	visitor.enter(b)
 	b.delegate.accept(visitor)
+	visitor.leave(b)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
diff --git a/cypher.go b/cypher.go
index 649c311..14fd9bf 100644
--- a/cypher.go
+++ b/cypher.go
@@ -307,6 +307,10 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
+		if len(sortElements) < 2 {
+			sortItems[index] = SortItemCreate(literal, direction)
+			continue
+		}
 		if sortElements[1] == "ASC" {
 			direction = ASC
 		}else if sortElements[1] == "DESC" {
diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..faf3be6 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -10,10 +12,11 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value != nil && value.GetError() != nil {
-		return EntryExpression{
-			err: value.GetError(),
-		}
+	if err := checkExpressions(value); err != nil {
+		return EntryExpression{err: err}
+	}
+	if key == "" {
+		return EntryExpression{err: errors.New("map entry: the key is required")}
 	}
 	e := EntryExpression{
 		Value:  value,
diff --git a/existential_subquery.go b/existential_subquery.go
index bf2eb20..22953e0 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExistentialSubquery struct {
 	ConditionContainer
 	fragment MatchPhrase
@@ -12,6 +14,9 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 	if fragment.GetError() != nil {
 		return ExistentialSubqueryError(fragment.GetError())
 	}
+	if !fragment.isNotNil() {
+		return ExistentialSubqueryError(errors.New("existential subquery: the match is required"))
+	}
 	e := ExistentialSubquery{
 		fragment: fragment,
 		notNil:   true,
diff --git a/has_label_condition.go b/has_label_condition.go
index ef939af..04c958b 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -48,6 +48,11 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	if labels == nil || len(labels) == 0 {
 		return HasLabelConditionError(errors.New("labels is required"))
 	}
+	for _, label := range labels {
+		if label.GetError() != nil {
+			return HasLabelConditionError(label.GetError())
+		}
+	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
 		nodeLabels: labels,
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..566689e 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -10,12 +12,16 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
-		return KeyValueMapEntryError(value.GetError())
+	if err := checkExpressions(value); err != nil {
+		return KeyValueMapEntryError(err)
+	}
+	if key == "" {
+		return KeyValueMapEntryError(errors.New("map entry: the key is required"))
 	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
+		notNil:   true,
 	}
 	entry.key = getAddress(&entry)
 	entry.ExpressionContainer = ExpressionWrap(entry)
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..2f2c4c4 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,18 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if !variable.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: a variable is required"))
+	}
+	if err := checkExpressions(listExpression); err != nil {
+		return ListComprehensionError(err)
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -36,6 +48,9 @@ func ListComprehensionError(err error) ListComprehension {
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
+	if variable.GetError() != nil {
+		return ListComprehensionBuilder{err: variable.GetError()}
+	}
 	if !variable.isNotNil() {
 		return ListComprehensionBuilder{err: errors.New("list comprehension: a variable is required")}
 	}
@@ -117,11 +132,17 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
 		ListOrSingleExpression(expressions...))
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
 }
 
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..3d271ef 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..17aa391 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -12,6 +12,9 @@ type ListOperator struct {
 }
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
+	if err := checkExpressions(targetExpression); err != nil {
+		return ListOperatorError(err)
+	}
 	operator := ListOperator{
 		targetExpression: targetExpression,
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..a866ed8 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -13,10 +13,8 @@ type MapExpression struct {
 }
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
-	for _, content := range newContents {
-		if content != nil && content.GetError() != nil {
-			return MapExpressionError(content.GetError())
-		}
+	if err := checkExpressions(newContents...); err != nil {
+		return MapExpressionError(err)
 	}
 	m := MapExpression{
 		expressions: newContents,
@@ -51,7 +49,7 @@ func (m MapExpression) getKey() string {
 
 func NewMapExpression(objects ...interface{}) MapExpression {
 	if len(objects)%2 != 0 {
-		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %", len(objects)))
+		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %d", len(objects)))
 	}
 	var newContents = make([]Expression, len(objects)/2)
 	var knownKeys = make(map[string]int)
@@ -90,6 +88,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.err != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..f16464f 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -18,6 +18,9 @@ func MapProjectionCreate(name SymbolicName, content ...interface{}) MapProjectio
 	if name.GetError() != nil {
 		return MapProjectionError(name.GetError())
 	}
+	if !name.isNotNil() {
+		return MapProjectionError(xerrors.New("map projection: the name is required"))
+	}
 	newContent, err := createNewContent(content...)
 	if err != nil {
 		return MapProjectionError(err)
@@ -36,6 +39,9 @@ func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapEx
 	if name.GetError() != nil {
 		return MapProjectionError(name.GetError())
 	}
+	if !name.isNotNil() {
+		return MapProjectionError(xerrors.New("map projection: the name is required"))
+	}
 	if mapExpression.GetError() != nil {
 		return MapProjectionError(mapExpression.GetError())
 	}
diff --git a/node.go b/node.go
index f443910..f36399d 100644
--- a/node.go
+++ b/node.go
@@ -200,6 +200,9 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
+	if node.err != nil {
+		return node
+	}
 	if name == "" {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
@@ -209,6 +212,9 @@ func (node Node) NamedByString(name string) Node {
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.err != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..d50a712 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,15 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if err := checkPatternElements(pattern); err != nil {
+		return PatternComprehensionError(err)
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
+	if err := checkExpressions(listDefinition); err != nil {
+		return PatternComprehensionError(err)
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -29,6 +38,12 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern == nil {
+		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
+	}
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -36,6 +51,9 @@ func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensi
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -122,9 +140,12 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	return PatternComprehensionCreate(p.pattern, where, ListOrSingleExpression(listDefinitions...))
@@ -136,8 +157,8 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-	if !pathPattern.isNotNil() {
-		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
+	if p.err != nil {
+		return p
 	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
 }
diff --git a/property.go b/property.go
index 735bdae..a5349ed 100644
--- a/property.go
+++ b/property.go
@@ -42,8 +42,8 @@ func PropertyCreate2(container Expression, name string) Property {
 }
 
 func PropertyCreate1(container Expression, name PropertyLookup) Property {
-	if container != nil && container.GetError() != nil {
-		return PropertyError(container.GetError())
+	if err := checkExpressions(container); err != nil {
+		return PropertyError(err)
 	}
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
diff --git a/property_lookup.go b/property_lookup.go
index b154772..ce4ef36 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
@@ -9,8 +11,12 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
+	if name == "" {
+		return PropertyLookup{err: errors.New("the name of the property is required")}
+	}
 	property := PropertyLookup{
 		propertyKeyName: name,
+		notNil:          true,
 	}
 	property.key = getAddress(&property)
 	property.ExpressionContainer = ExpressionWrap(property)
diff --git a/subquery.go b/subquery.go
index 4586c97..e1633e1 100644
--- a/subquery.go
+++ b/subquery.go
@@ -12,7 +12,10 @@ type Subquery struct {
 }
 
 func SubqueryCreate(statement Statement) Subquery {
-	if statement != nil && statement.GetError() != nil {
+	if statement == nil {
+		return SubqueryError(errors.New("the statement of the subquery is required"))
+	}
+	if statement.GetError() != nil {
 		return SubqueryError(statement.GetError())
 	}
 	subQuery := Subquery{
@@ -24,7 +27,10 @@ func SubqueryCreate(statement Statement) Subquery {
 }
 
 func SubqueryCall(statement Statement) Subquery {
-	if statement != nil && statement.GetError() != nil {
+	if statement == nil {
+		return SubqueryError(errors.New("the statement of the subquery is required"))
+	}
+	if statement.GetError() != nil {
 		return SubqueryError(statement.GetError())
 	}
 	validReturn := false
diff --git a/support.go b/support.go
index f01d0fd..3593932 100644
--- a/support.go
+++ b/support.go
@@ -43,6 +43,9 @@ func checkExpressions(expressions ...Expression) error {
 		if expression.GetError() != nil {
 			return expression.GetError()
 		}
+		if !expression.isNotNil() {
+			return errors.New("expression must be not nil")
+		}
 	}
 	return nil
 }
@@ -56,6 +59,9 @@ func checkPatternElements(elements ...PatternElement) error {
 		if element.GetError() != nil {
 			return element.GetError()
 		}
+		if !element.isNotNil() {
+			return errors.New("pattern element must be not nil")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 374b424b5fc22160e965415d7162d34ba2f86abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 14/39] fix: collect distinct and the temporal functions
 without arguments

---
 function_invocation.go |  2 +-
 functions.go           | 28 +++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/function_invocation.go b/function_invocation.go
index bab213c..d96dc1f 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,7 +14,7 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
diff --git a/functions.go b/functions.go
index 1f4217e..272db9d 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,6 +715,9 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions date with expression: temporalValue is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -732,7 +735,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,6 +783,9 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions date with expression: temporalValue is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -797,7 +803,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,6 +866,9 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions date with expression: temporalValue is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -877,7 +886,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,6 +948,9 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions date with expression: temporalValue is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -956,7 +968,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,6 +1031,9 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions date with expression: temporalValue is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -1073,6 +1088,9 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
+	if temporalAmount == nil {
+		return FunctionInvocationError(errors.New("functions duration with expression: temporalAmount is required"))
+	}
 	if temporalAmount.GetError() != nil {
 		return FunctionInvocationError(temporalAmount.GetError())
 	}
-- 
2.43.0


From 8929ecc4b8aa7bb276ba2e2aedb1294e258e1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 15/39] fix: every supplied name is quoted when it has to be,
 wherever it is rendered

---
 alias_expression.go    |  4 ++--
 cypher_renderer.go     | 10 +++++++++-
 entry_expression.go    |  2 +-
 key_value_map_entry.go |  2 +-
 map_projection.go      |  5 ++++-
 node.go                |  2 +-
 parameter.go           | 13 ++++++++++++-
 property_lookup.go     | 13 +++++++++++--
 unwind.go              |  2 +-
 9 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 915c183..5879568 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -73,14 +73,14 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
 		renderer.append(" AS ")
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..22393a7 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -71,7 +71,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-			return EscapeIfNecessary(value)
+			return quoteIfNecessary(value)
 		}
 		return renderer.guid.String()
 	}
@@ -193,6 +193,14 @@ func escapeName(name string) string {
 	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 }
 
+//quoteIfNecessary gives the text that reads back as exactly the given name.
+func quoteIfNecessary(name string) string {
+	if name != "" && strings.TrimSpace(name) == "" {
+		return escapeName(name)
+	}
+	return EscapeIfNecessary(name)
+}
+
 func EscapeIfNecessary(name string) string {
 	if len(strings.TrimSpace(name)) == 0 || isIdentifier(name) {
 		return name
diff --git a/entry_expression.go b/entry_expression.go
index faf3be6..392ba68 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -51,7 +51,7 @@ func (e EntryExpression) accept(visitor *CypherRenderer) {
 }
 
 func (e EntryExpression) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(e.Key))
+	renderer.append(quoteIfNecessary(e.Key))
 	renderer.append(": ")
 }
 
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 566689e..66d37ad 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -45,7 +45,7 @@ func (k KeyValueMapEntry) accept(visitor *CypherRenderer) {
 }
 
 func (k KeyValueMapEntry) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(k.entryKey)).append(": ")
+	renderer.append(quoteIfNecessary(k.entryKey)).append(": ")
 }
 
 func (k KeyValueMapEntry) leave(renderer *CypherRenderer) {
diff --git a/map_projection.go b/map_projection.go
index f16464f..16a0208 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -134,6 +134,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			} else {
 				lastKey = ""
 				lastExpression = PropertyLookupCreate(aString)
+				if aString == ASTERISK.content {
+					lastExpression = propertyLookupAll()
+				}
 				i += 1
 			}
 		} else if anExpression, isExpression := current.(Expression); isExpression {
@@ -143,7 +146,7 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
-			lastExpression = PropertyLookupCreate("*")
+			lastExpression = propertyLookupAll()
 		}
 		var entry Expression
 		if lastKey != "" {
diff --git a/node.go b/node.go
index f36399d..4c6bf03 100644
--- a/node.go
+++ b/node.go
@@ -159,7 +159,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
diff --git a/parameter.go b/parameter.go
index 1ab0a93..6d55ecb 100644
--- a/parameter.go
+++ b/parameter.go
@@ -2,6 +2,7 @@ package cypher
 
 import (
 	"errors"
+	"strconv"
 	"strings"
 )
 
@@ -45,7 +46,17 @@ func (p Parameter) accept(visitor *CypherRenderer) {
 }
 
 func (p Parameter) enter(renderer *CypherRenderer) {
-	renderer.append("$").append(p.name)
+	renderer.append("$").append(p.quotedName())
+}
+
+//quotedName keeps plain names, positions and the path to an entry of a parameter as they are.
+func (p Parameter) quotedName() string {
+	for _, part := range strings.Split(p.name, ".") {
+		if _, err := strconv.ParseUint(part, 10, 64); err != nil && !isIdentifier(part) {
+			return escapeName(p.name)
+		}
+	}
+	return p.name
 }
 
 func (p Parameter) leave(renderer *CypherRenderer) {
diff --git a/property_lookup.go b/property_lookup.go
index ce4ef36..d4e6620 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -5,6 +5,7 @@ import "errors"
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
+	all             bool
 	key             string
 	notNil          bool
 	err             error
@@ -23,6 +24,14 @@ func PropertyLookupCreate(name string) PropertyLookup {
 	return property
 }
 
+//propertyLookupAll looks up all the properties in a map projection.
+func propertyLookupAll() PropertyLookup {
+	property := PropertyLookupCreate(ASTERISK.content)
+	property.all = true
+	property.ExpressionContainer = ExpressionWrap(property)
+	return property
+}
+
 func (p PropertyLookup) GetError() error {
 	return p.err
 }
@@ -38,11 +47,11 @@ func (p PropertyLookup) accept(visitor *CypherRenderer) {
 
 func (p PropertyLookup) enter(renderer *CypherRenderer) {
 	renderer.append(".")
-	if ASTERISK.content == p.GetPropertyKeyName() {
+	if p.all {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-	renderer.append(EscapeIfNecessary(p.GetPropertyKeyName()))
+	renderer.append(quoteIfNecessary(p.GetPropertyKeyName()))
 }
 
 func (p PropertyLookup) leave(renderer *CypherRenderer) {
diff --git a/unwind.go b/unwind.go
index a7ecbcf..4574b2d 100644
--- a/unwind.go
+++ b/unwind.go
@@ -52,7 +52,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(quoteIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From ee41eb1baecfd90117118350997e867142a234c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 16/39] fix: operands that bind weaker than the operator next
 to them are grouped

---
 list_operator.go |  2 +-
 operation.go     | 19 +++++++++++++++++++
 property.go      |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/list_operator.go b/list_operator.go
index 17aa391..d0421ae 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -16,7 +16,7 @@ func listOperatorCreate(targetExpression Expression, optionalStart Expression, d
 		return ListOperatorError(err)
 	}
 	operator := ListOperator{
-		targetExpression: targetExpression,
+		targetExpression: nestedIfAmbiguous(targetExpression),
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
 		notNil:           true,
 	}
diff --git a/operation.go b/operation.go
index ccb676e..427c614 100644
--- a/operation.go
+++ b/operation.go
@@ -40,11 +40,30 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 		right:    right,
 		notNil:   true,
 	}
+	if !o.isUpdate() {
+		o.left = nestedIfAmbiguous(left)
+		if rightExpression, isExpression := right.(Expression); isExpression {
+			o.right = nestedIfAmbiguous(rightExpression)
+		}
+	}
 	o.key = getAddress(&o)
 	o.ExpressionContainer = ExpressionWrap(o)
 	return o
 }
 
+//nestedIfAmbiguous puts parentheses around expressions that would mix up with an operator or an access next to them.
+func nestedIfAmbiguous(expression Expression) Expression {
+	switch typed := expression.(type) {
+	case Comparison, CompoundCondition, HasLabelCondition, ExcludedPattern:
+		return NestedExpressionCreate(expression)
+	case Operation:
+		if !typed.needsGrouping() {
+			return NestedExpressionCreate(expression)
+		}
+	}
+	return expression
+}
+
 func OperationCreate1(left Expression, operator Operator, right NodeLabel) Operation {
 	if left != nil && left.GetError() != nil {
 		return OperationError(left.GetError())
diff --git a/property.go b/property.go
index a5349ed..f5525e4 100644
--- a/property.go
+++ b/property.go
@@ -49,7 +49,7 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 		return PropertyError(name.GetError())
 	}
 	property := Property{
-		container: container,
+		container: nestedIfAmbiguous(container),
 		name:      name,
 		notNil:    true,
 	}
-- 
2.43.0


From 6bdd437659dae544ccf3c7082b01000fb014a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 17/39] fix: a renderer can be used again and by several
 goroutines

---
 cypher_renderer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 22393a7..5de9068 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,10 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	// nothing of what other statements left behind may show up, and concurrent calls must not meet
+	fresh := NewRenderer()
+	statement.accept(fresh)
+	return strings.TrimSpace(fresh.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From a0e512dc5190a825a9b7782fbebcebb7bbbe411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 18/39] fix: two aliases of one expression are both defined

---
 alias_expression.go | 4 ++--
 cypher_renderer.go  | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 5879568..cbd9528 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -72,13 +72,13 @@ func (aliased AliasedExpression) getKey() string {
 }
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+	if renderer.isAliasDefined(aliased) {
 		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
+	if !renderer.isAliasDefined(aliased) {
 		renderer.append(" AS ")
 		renderer.append(quoteIfNecessary(aliased.alias))
 	}
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 5de9068..fdf0ebf 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -106,7 +106,7 @@ func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
 	if lastAliased != nil {
-		_, visited = renderer.visitableToAliased[lastAliased.delegate.getKey()]
+		visited = renderer.isAliasDefined(*lastAliased)
 	}
 	if renderer.skipNodeContent || visited {
 		return false
@@ -142,6 +142,12 @@ func (renderer *CypherRenderer) postLeave(visitable Visitable) {
 	renderer.currentLevel = renderer.currentLevel - 1
 }
 
+//isAliasDefined tells whether the expression was already given exactly this alias in the statement.
+func (renderer *CypherRenderer) isAliasDefined(aliased AliasedExpression) bool {
+	defined, isExist := renderer.visitableToAliased[aliased.delegate.getKey()]
+	return isExist && defined.alias == aliased.alias
+}
+
 func (renderer *CypherRenderer) getAliasedIfSeen(visitable Visitable) Visitable {
 	if expression, isExist := renderer.visitableToAliased[visitable.getKey()]; isExist {
 		return expression
-- 
2.43.0


From aef4318cd256c4f9055fe3653da426232edd1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 19/39] fix: an exponentiation next to a comparison, string or
 null operator is grouped

---
 comparison.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comparison.go b/comparison.go
index f091015..0e30c8d 100644
--- a/comparison.go
+++ b/comparison.go
@@ -129,5 +129,9 @@ func nestedIfCondition(expression Expression) Expression {
 	if isCondition {
 		return NestedExpressionCreate(expression)
 	}
+	//an exponentiation has no parentheses of its own and may bind weaker than the operator
+	if operation, isOperation := expression.(Operation); isOperation && !operation.needsGrouping() {
+		return NestedExpressionCreate(expression)
+	}
 	return expression
 }
-- 
2.43.0


From 5a9b6eb2c23e0410cb1737b40c842b1e2ab6d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 20/39] fix: a WITH can be limited and continued after SKIP

---
 statement_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statement_builder.go b/statement_builder.go
index 13d39ea..644b9bd 100644
--- a/statement_builder.go
+++ b/statement_builder.go
@@ -69,6 +69,8 @@ type OngoingUpdate interface {
 }
 
 type ExposesLimitAndOngoingReadingAndWith interface {
+	ExposesLimit
+	OngoingReadingAndWith
 }
 
 type OrderableOngoingReadingAndWithWithoutWhere interface {
-- 
2.43.0


From 822abb7c0a724a3a0cdb4438a81e03bfa73f85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 21/39] fix: a list that starts with a IN b is not read as a
 comprehension

---
 list_expression.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/list_expression.go b/list_expression.go
index 3d271ef..0d58823 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -15,7 +15,7 @@ func ListExpressionCreate(content ExpressionList) ListExpression {
 		return ListExpressionError(content.GetError())
 	}
 	list := ListExpression{
-		content: content,
+		content: nestLeadingIn(content),
 		notNil:  true,
 	}
 	list.key = getAddress(&list)
@@ -23,6 +23,18 @@ func ListExpressionCreate(content ExpressionList) ListExpression {
 	return list
 }
 
+//nestLeadingIn puts parentheses around a first element like a IN b, the list would be read as a comprehension otherwise.
+func nestLeadingIn(content ExpressionList) ExpressionList {
+	if len(content.expressions) == 0 {
+		return content
+	}
+	comparison, isComparison := content.expressions[0].(Comparison)
+	if !isComparison || comparison.operator != IN {
+		return content
+	}
+	return ExpressionListCreate(append([]Expression{NestedExpressionCreate(comparison)}, content.expressions[1:]...))
+}
+
 func ListExpressionCreate1(expressions ...Expression) ListExpression {
 	return ListExpressionCreate(ExpressionListCreate(expressions))
 }
-- 
2.43.0


From c683e047893197d198478dd8c8d4d82ed2a0c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:00 +0000
Subject: [PATCH 22/39] fix: no WHERE in a list comprehension filtered by the
 empty condition

---
 list_comprehension.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/list_comprehension.go b/list_comprehension.go
index 2f2c4c4..b25ee31 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -147,6 +147,10 @@ func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
+	if compound, isCompound := condition.(CompoundCondition); isCompound && compound.GetError() == nil && !compound.hasCondition() {
+		l.where = Where{}
+		return l
+	}
 	l.where = WhereCreate(condition)
 	return l
 }
-- 
2.43.0


From 2d1a930f3de9485091e0369967d13736a7c4a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 23/39] fix: a predicate over a list without a condition is an
 error

---
 predicates.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/predicates.go b/predicates.go
index cc725cc..e9f1689 100644
--- a/predicates.go
+++ b/predicates.go
@@ -96,6 +96,9 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
+	if compound, isCompound := condition.(CompoundCondition); isCompound && !compound.hasCondition() {
+		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition must not be empty"))
+	}
 	return BooleanFunctionConditionCreate(FunctionInvocationCreate(p.predicate, ListPredicateCreate(p.name, p.listExpression, WhereCreate(condition))))
 }
 
-- 
2.43.0


From 5abb78110462121ba36959ac5cbd9002220012d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 24/39] fix: an alias is referenced after another alias of the
 same expression

---
 cypher_renderer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index fdf0ebf..59f4b97 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -9,6 +9,7 @@ import (
 
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
+	definedAliases         map[aliasDefinition]bool
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[SymbolicName]string
 	visitedNamed           map[string]int
@@ -20,6 +21,12 @@ type CypherRenderer struct {
 	guid                   xid.ID
 }
 
+//aliasDefinition is an alias and the key of the expression it was given to.
+type aliasDefinition struct {
+	key   string
+	alias string
+}
+
 func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 	renderer.builder.WriteString(content)
 	return renderer
@@ -28,6 +35,7 @@ func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
+		definedAliases:         make(map[aliasDefinition]bool),
 		separatorOnLevel:       make(map[int]string),
 		resolvedSymbolicNames:  make(map[SymbolicName]string),
 		visitedNamed:           make(map[string]int),
@@ -99,6 +107,7 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	aliasedExpression, isAliased := (visitable).(AliasedExpression)
 	if isAliased {
 		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
+		renderer.definedAliases[aliasDefinition{aliasedExpression.delegate.getKey(), aliasedExpression.alias}] = true
 	}
 }
 
@@ -144,8 +153,7 @@ func (renderer *CypherRenderer) postLeave(visitable Visitable) {
 
 //isAliasDefined tells whether the expression was already given exactly this alias in the statement.
 func (renderer *CypherRenderer) isAliasDefined(aliased AliasedExpression) bool {
-	defined, isExist := renderer.visitableToAliased[aliased.delegate.getKey()]
-	return isExist && defined.alias == aliased.alias
+	return renderer.definedAliases[aliasDefinition{aliased.delegate.getKey(), aliased.alias}]
 }
 
 func (renderer *CypherRenderer) getAliasedIfSeen(visitable Visitable) Visitable {
-- 
2.43.0


From 914e5c34face5bf269e86b48c5930eb96b33d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:09 +0000
Subject: [PATCH 25/39] fix: every null, true and false is an element of its
 own, an alias of one does not show up for all

---
 conditions.go | 4 ++--
 cypher.go     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/conditions.go b/conditions.go
index d3d9a5a..7dbdcb9 100644
--- a/conditions.go
+++ b/conditions.go
@@ -21,9 +21,9 @@ func ConditionsNoCondition() Condition {
 }
 
 func ConditionsIsTrue() Condition {
-	return TRUE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(true))
 }
 
 func ConditionsIsFalse() Condition {
-	return FALSE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(false))
 }
diff --git a/cypher.go b/cypher.go
index 14fd9bf..7f3581b 100644
--- a/cypher.go
+++ b/cypher.go
@@ -325,14 +325,14 @@ func SortItemsOfRaw(elements ...string) []SortItem {
  * @return The {@literal true} literal.
  */
 func LiteralTrue() BooleanLiteral {
-	return TRUE
+	return BooleanLiteralCreate(true)
 }
 
 /**
  * @return The {@literal false} literal.
  */
 func LiteralFalse() BooleanLiteral {
-	return FALSE
+	return BooleanLiteralCreate(false)
 }
 
 /**
@@ -542,7 +542,7 @@ func CypherValueAtByExpression(targetExpression Expression, index Expression) Ex
 func LiteralOf(object interface{}) Literal {
 	//TODO: maybe we need to handle more literal type
 	if object == nil {
-		return NIL_INSTANCE
+		return NullLiteralCreate()
 	}
 	if stringValue, isString := object.(string); isString {
 		return StringLiteralCreate(stringValue)
-- 
2.43.0


From ef487b92cf01c385e2527a7c29259a64cad2cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 26/39] fix: names without a value render the same every time

---
 cypher_renderer.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 59f4b97..efd5c72 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -1,8 +1,8 @@
 package cypher
 
 import (
-	"github.com/rs/xid"
 	"golang.org/x/xerrors"
+	"strconv"
 	"strings"
 	"unicode"
 )
@@ -11,14 +11,13 @@ type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
 	definedAliases         map[aliasDefinition]bool
 	separatorOnLevel       map[int]string
-	resolvedSymbolicNames  map[SymbolicName]string
+	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
 	currentVisitedElements []string
 	currentAliasedElements []AliasedExpression
 	currentLevel           int
 	skipNodeContent        bool
 	builder                strings.Builder
-	guid                   xid.ID
 }
 
 //aliasDefinition is an alias and the key of the expression it was given to.
@@ -37,13 +36,12 @@ func NewRenderer() *CypherRenderer {
 		visitableToAliased:     make(map[string]AliasedExpression),
 		definedAliases:         make(map[aliasDefinition]bool),
 		separatorOnLevel:       make(map[int]string),
-		resolvedSymbolicNames:  make(map[SymbolicName]string),
+		resolvedSymbolicNames:  make(map[string]string),
 		visitedNamed:           make(map[string]int),
 		currentVisitedElements: make([]string, 0),
 		currentAliasedElements: make([]AliasedExpression, 0),
 		skipNodeContent:        false,
 		builder:                strings.Builder{},
-		guid:                   xid.New(),
 	}
 }
 
@@ -78,14 +76,16 @@ func (renderer *CypherRenderer) resetSeparatorOnCurrentLevel() {
 }
 
 func (renderer *CypherRenderer) resolve(name SymbolicName) string {
-	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
-		value := name.value
-		if len(value) > 0 {
-			return quoteIfNecessary(value)
-		}
-		return renderer.guid.String()
+	if len(name.value) > 0 {
+		return quoteIfNecessary(name.value)
+	}
+	// a name without a value gets one of its own, the same in every rendering
+	resolved, isExist := renderer.resolvedSymbolicNames[name.key]
+	if !isExist {
+		resolved = "unresolved" + strconv.Itoa(len(renderer.resolvedSymbolicNames)+1)
+		renderer.resolvedSymbolicNames[name.key] = resolved
 	}
-	return renderer.resolvedSymbolicNames[name]
+	return resolved
 }
 
 func (renderer *CypherRenderer) enter(visitable Visitable) {
-- 
2.43.0


From a84d303b04a3f75d9b625e0352aa43476fb5a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 27/39] fix: a list keeps its elements when the caller's slice
 is used for something else

---
 expression_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression_list.go b/expression_list.go
index 52e9907..60d2b30 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -13,7 +13,7 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 		return ExpressionListError(err)
 	}
 	e := ExpressionList{
-		expressions: expressions,
+		expressions: append([]Expression(nil), expressions...),
 		notNil:      true,
 	}
 	e.key = getAddress(&e)
-- 
2.43.0


From 170985fe5400b0e8f97d97d469cd79df5bfdcf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 28/39] fix: the content of an invalid expression is an invalid
 expression, not nil

---
 expression_container.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expression_container.go b/expression_container.go
index c507017..ab27f0a 100644
--- a/expression_container.go
+++ b/expression_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExpressionContainer struct {
 	expression Expression
 }
@@ -11,6 +13,9 @@ func ExpressionWrap(expression Expression) ExpressionContainer {
 }
 
 func (e ExpressionContainer) Get() Expression {
+	if e.expression == nil {
+		return SymbolicNameError(errors.New("expression container: a valid expression is required"))
+	}
 	return e.expression
 }
 
-- 
2.43.0


From 0563c0bc788398ce4035b5b4435e745dda03c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:28 +0000
Subject: [PATCH 29/39] fix: a procedure call keeps the error of arguments that
 are replaced

---
 procedure_call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/procedure_call.go b/procedure_call.go
index 46a8fad..233ab46 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -235,6 +235,9 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
+	if err := checkExpressions(s.arguments...); err != nil && s.err == nil {
+		s.err = err
+	}
 	s.arguments = append([]Expression(nil), arguments...)
 	return s
 }
-- 
2.43.0


From 691a6bb4f5592961e4777278c05b8fde9926ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 30/39] fix: a negative number of hops is an error

---
 relationship_length.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationship_length.go b/relationship_length.go
index 25e1455..8e07d52 100644
--- a/relationship_length.go
+++ b/relationship_length.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
 
 type RelationshipLength struct {
 	minimum   *int
@@ -21,6 +24,9 @@ func RelationshipLengthCreate(unbounded bool) RelationshipLength {
 }
 
 func RelationshipLengthCreate1(minimum *int, maximum *int) RelationshipLength {
+	if minimum != nil && *minimum < 0 || maximum != nil && *maximum < 0 {
+		return RelationshipLength{err: errors.New("relationship length: the number of hops can't be negative")}
+	}
 	r := RelationshipLength{
 		minimum:   minimum,
 		maximum:   maximum,
-- 
2.43.0


From 5f3e6b185ba5a1881d133c74e7fbd0dff76957f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:41 +0000
Subject: [PATCH 31/39] fix: a filter given where no clause can take it is an
 error, not dropped

---
 default_statement_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 0c0ae9c..4887467 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -50,6 +50,9 @@ func (d DefaultStatementBuilder) changeCondition(condition Condition, change fun
 		return DefaultStatementBuilderError(condition.GetError())
 	}
 	if d.currentOngoingCall == nil || !d.currentOngoingCall.isNotNil() {
+		if condition != nil && !d.currentOngoingMatch.notNil {
+			return DefaultStatementBuilderError(errors.New("where: there is no clause that can be filtered"))
+		}
 		change(&d.currentOngoingMatch.conditionBuilder)
 		return d
 	}
-- 
2.43.0


From 7a9da50377d8fe6392af6fd1b1248f9e427d19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 32/39] fix: an empty filter where no clause takes one is no
 error

---
 default_statement_builder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 4887467..02b65ef 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -50,8 +50,13 @@ func (d DefaultStatementBuilder) changeCondition(condition Condition, change fun
 		return DefaultStatementBuilderError(condition.GetError())
 	}
 	if d.currentOngoingCall == nil || !d.currentOngoingCall.isNotNil() {
-		if condition != nil && !d.currentOngoingMatch.notNil {
-			return DefaultStatementBuilderError(errors.New("where: there is no clause that can be filtered"))
+		if !d.currentOngoingMatch.notNil {
+			filter := ConditionBuilderCreate()
+			change(&filter)
+			if filter.hasCondition() {
+				return DefaultStatementBuilderError(errors.New("where: there is no clause that can be filtered"))
+			}
+			return d
 		}
 		change(&d.currentOngoingMatch.conditionBuilder)
 		return d
-- 
2.43.0


From 44c5587f0b094a4bc52523f7ae1bde2018f0d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 33/39] fix: an empty key of a map projection entry is an
 error, not dropped

---
 map_projection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map_projection.go b/map_projection.go
index 16a0208..82c407e 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -128,6 +128,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		current := contentAt(content, i)
 		if aString, isString := current.(string); isString {
 			if anExpression, isExpression := next.(Expression); isExpression {
+				if aString == "" {
+					return nil, xerrors.New("map projection create new content: the key of an entry is required")
+				}
 				lastKey = aString
 				lastExpression = anExpression
 				i += 2
-- 
2.43.0


From 9a9ce1e53c39ba07617c9eb40b7fc76de6a5682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:51 +0000
Subject: [PATCH 34/39] fix: a zero sort item is an error, not rendered as
 nothing

---
 order.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/order.go b/order.go
index 19cc6ea..13bf307 100644
--- a/order.go
+++ b/order.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Order struct {
 	sortItems []SortItem
 	key       string
@@ -12,6 +14,9 @@ func OrderCreate(sortItems []SortItem) Order {
 		if item.GetError() != nil {
 			return Order{err: item.GetError()}
 		}
+		if !item.isNotNil() {
+			return Order{err: errors.New("order: the sort item must be not nil")}
+		}
 	}
 	o := Order{sortItems: sortItems, notNil: true}
 	o.key = getAddress(&o)
-- 
2.43.0


From ed30019adb8557c0998fae4be169d8c49756e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 35/39] fix: a zero condition of a filter is an error, not
 rendered as nothing

---
 where.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/where.go b/where.go
index 8e5203e..c4567ba 100644
--- a/where.go
+++ b/where.go
@@ -13,7 +13,7 @@ func WhereCreate(condition Condition) Where {
 	if condition != nil && condition.GetError() != nil {
 		return WhereError(condition.GetError())
 	}
-	if condition == nil {
+	if condition == nil || !condition.isNotNil() {
 		return WhereError(errors.New("where: the condition is required"))
 	}
 	where := Where{
-- 
2.43.0


From c36d3f3432160c0a528d14597cfea520b639d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:00 +0000
Subject: [PATCH 36/39] fix: a zero statement in a union is an error

---
 cypher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cypher.go b/cypher.go
index 7f3581b..b2963e8 100644
--- a/cypher.go
+++ b/cypher.go
@@ -573,6 +573,9 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 		if statement.GetError() != nil {
 			return UnionQueryError(statement.GetError())
 		}
+		if !statement.isNotNil() {
+			return UnionQueryError(errors.New("can only union statements that are not nil"))
+		}
 	}
 	i := 0
 	existingUnionQuery := UnionQuery{}
-- 
2.43.0


From fb7eb7737626f026eb429f784d70614d2e83236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:05 +0000
Subject: [PATCH 37/39] fix: a zero pattern of an excluded pattern is an error

---
 excluded_pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/excluded_pattern.go b/excluded_pattern.go
index 7e1ba53..7bf153b 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -17,6 +17,9 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
+	if !patternElement.isNotNil() {
+		return ExcludedPatternError(errors.New("excluded pattern: the pattern is required"))
+	}
 	e := ExcludedPattern{
 		patternElement: patternElement,
 		notNil:         true,
-- 
2.43.0


From a278d5585e914c01a7e75017b922aeecc5c278da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 38/39] fix: a zero pattern of a pattern condition is an error

---
 relationship_pattern_condition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 3b9a2e9..a73425e 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -17,6 +17,9 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
+	if !pathPattern.isNotNil() {
+		return RelationshipPatternConditionError(errors.New("relationship pattern condition: the pattern is required"))
+	}
 	r := RelationshipPatternCondition{
 		pathPattern: pathPattern,
 		notNil:      true,
-- 
2.43.0


From 58c21bcb8ba95a8ab9d7d6a12b2442cd1f52f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:55 +0000
Subject: [PATCH 39/39] fix: a comparison with a property operator gave an
 empty condition and no error

---
 comparison.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comparison.go b/comparison.go
index 0e30c8d..500acbd 100644
--- a/comparison.go
+++ b/comparison.go
@@ -72,7 +72,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 			right:    nil,
 		}
 	default:
-		return Comparison{}
+		return ComparisonError(errors.New("comparison: operator must be a prefix or a postfix operator"))
 	}
 	comparison.key = getAddress(&comparison)
 	comparison.notNil = true
-- 
2.43.0

