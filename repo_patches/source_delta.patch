From 4c1e4f4de6ac623c611ca28f517ee3b85f949d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 01/12] fix: SelectSingleBuilder.Fields keeps the table, joins
 and conditions

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index dd12af7..12c25ac 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From b4f4c53d1de7f4a9464d47a5f908e99b07b25c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 02/12] fix: IsNull(..).Or(..) no longer panics on a nil
 condition

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..955cc70 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From 26ee927b2398c36e11d0593a304f1f3ddd913bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 03/12] fix: conditions composition keeps its meaning

Negation was lost or spread over the added conditions when a negated group
was unpacked or extended, child groups with OR were rendered without brackets
next to AND, lists were joined with a wrong operator when added to existing
conditions, and empty groups were counted as conditions.
---
 group.go | 107 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 25 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..3273f27 100644
--- a/group.go
+++ b/group.go
@@ -33,16 +33,62 @@ func (conditionsGroup Group) FieldName() FieldName {
 // NewGroup makes a group of conditions with default external join AND.
 // All conditions inside group joined with requested joinType.
 func NewGroup(joinType JoinType, conditions ...Condition) Group {
-	if conditions == nil {
-		conditions = make([]Condition, 0)
-	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(skipEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
 
+// asGroup returns condition as Group if it is a Group or a pointer to Group.
+func asGroup(condition Condition) (group Group, isGroup bool) {
+	switch typed := condition.(type) {
+	case Group:
+		return typed, true
+	case *Group:
+		return *typed, true
+	}
+
+	return group, false
+}
+
+// skipEmptyGroups returns a copy of conditions list without groups having no conditions as they are never rendered.
+func skipEmptyGroups(conditions []Condition) []Condition {
+	filtered := make([]Condition, 0, len(conditions))
+	for _, condition := range conditions {
+		if group, isGroup := asGroup(condition); isGroup && len(group.conditions) == 0 {
+			continue
+		}
+		filtered = append(filtered, condition)
+	}
+
+	return filtered
+}
+
+// mixesOR returns true if rendered group text has any not bracketed OR.
+func (conditionsGroup Group) mixesOR() bool {
+	if conditionsGroup.IsNegate() || conditionsGroup.withBrackets {
+		return false
+	}
+	if len(conditionsGroup.conditions) == 1 {
+		child, isGroup := asGroup(conditionsGroup.conditions[0])
+		return isGroup && child.mixesOR()
+	}
+
+	return conditionsGroup.hasOne(LogicalOR)
+}
+
+// enclosed returns group condition ready to render: child groups are enclosed into brackets
+// if their own OR joins otherwise would be split by AND joins or by negation of current group.
+func (conditionsGroup Group) enclosed(condition Condition) Condition {
+	child, isGroup := asGroup(condition)
+	if isGroup && child.mixesOR() && (conditionsGroup.hasOne(LogicalAND) || conditionsGroup.IsNegate()) {
+		return child.WithBrackets()
+	}
+
+	return condition
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -61,6 +107,14 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	op := anotherGroup.joinType
 
+	if anotherGroup.IsNegate() { // negated group could not be unpacked, add it as a single condition
+		return conditionsGroup.addOne(op, anotherGroup)
+	}
+
+	if len(anotherGroup.conditions) > 0 { // first element is joined to existed conditions when group unpacked
+		anotherGroup.conditions = append([]Condition{op.Join(anotherGroup.conditions[0])}, anotherGroup.conditions[1:]...)
+	}
+
 	switch {
 	case haveNone: // current group empty, reset it op and elements from another
 		conditionsGroup.conditions = anotherGroup.conditions
@@ -79,7 +133,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
+	case havingAnyOR && op == LogicalAND && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
@@ -103,17 +157,22 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 // addSingleCondition does extra routines while adding single condition.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
+	if groupToAdd, addingGroup := asGroup(condition); addingGroup { // process adding groups in separate method
+		return conditionsGroup.addGroup(groupToAdd)
+	}
+
+	return conditionsGroup.addOne(condition.JoinType(), condition)
+}
+
+// addOne adds condition as a whole, joining it with specified operation.
+func (conditionsGroup Group) addOne(op JoinType, condition Condition) Group {
 	haveNone := len(conditionsGroup.conditions) == 0
 	haveSingle := len(conditionsGroup.conditions) == 1
 	haveMany := len(conditionsGroup.conditions) > 1
 	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
 	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
-	groupToAdd, addingGroup := condition.(Group)
-	op := condition.JoinType()
 
 	switch {
-	case addingGroup: // process adding groups in separate method
-		return conditionsGroup.addGroup(groupToAdd)
 	case haveNone: // current group empty, join single condition and set group join type
 		conditionsGroup.conditions = append(conditionsGroup.conditions, condition)
 		conditionsGroup.joinType = op
@@ -133,27 +192,25 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
-	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
-	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
-	haveConditions := len(conditionsGroup.conditions) > 0
+	conditions = skipEmptyGroups(conditions)
+
+	if len(conditions) > 0 && conditionsGroup.IsNegate() { // keep negation over existed conditions only
+		conditionsGroup = Group{
+			BaseCondition: *newBaseCondition(conditionsGroup.joinType, false),
+			conditions:    skipEmptyGroups([]Condition{conditionsGroup}),
+		}
+	}
 
 	switch {
 	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
 		return conditionsGroup
-	case !haveConditions: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, conditions...)
+	case len(conditionsGroup.conditions) == 0: // group is empty, just take conditions with their own joins
+		conditionsGroup.conditions = conditions
 		conditionsGroup.joinType = op
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
-	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
-	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
-	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
-		conditionsGroup.conditions = append([]Condition{
-			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
-		)
+	default: // join many as a group keeping their own joins inside
+		return conditionsGroup.addGroup(Group{BaseCondition: *newBaseCondition(op, false), conditions: conditions})
 	}
 
 	return conditionsGroup
@@ -241,7 +298,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
 		parametersCount += len(condition.Values())
 	}
 
@@ -275,7 +332,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.enclosed(condition).RenderSQL()
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From 71f5197b67cbdea0c18b501d77634a5897c8c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 04/12] fix: derived builders and groups never share or alter
 lists of the original

Appending to a shared slice, finishing joins and applying field specs or
tables changed builders and groups derived from the same original.
---
 group.go           | 8 ++++++++
 insert.go          | 5 +++--
 join_unfinished.go | 7 +++++++
 select_base.go     | 3 ++-
 select_many.go     | 5 +++--
 select_single.go   | 6 +++++-
 update.go          | 5 +++--
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/group.go b/group.go
index 3273f27..565e2e4 100644
--- a/group.go
+++ b/group.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // Group implements conditions grouping.
 type Group struct {
 	BaseCondition
@@ -92,6 +96,7 @@ func (conditionsGroup Group) enclosed(condition Condition) Condition {
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // never extend shared list in place
 	haveNone := len(conditionsGroup.conditions) == 0
 	haveSingle := len(conditionsGroup.conditions) == 1
 
@@ -166,6 +171,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 
 // addOne adds condition as a whole, joining it with specified operation.
 func (conditionsGroup Group) addOne(op JoinType, condition Condition) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // never extend shared list in place
 	haveNone := len(conditionsGroup.conditions) == 0
 	haveSingle := len(conditionsGroup.conditions) == 1
 	haveMany := len(conditionsGroup.conditions) > 1
@@ -364,6 +370,7 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -374,6 +381,7 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
diff --git a/insert.go b/insert.go
index 90cef5a..332c0b1 100644
--- a/insert.go
+++ b/insert.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -20,13 +21,13 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return slices.Clone(inserter.setValues)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = append(slices.Clip(inserter.setValues), values...)
 	return inserter
 }
 
diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..da865d4 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // incompleteBaseJoiner is not exported implementation of IncompleteSelectJoin just for prevent manual instance building.
 // The goal is to provide chain style method to generate every clause types.
 type incompleteBaseJoiner struct {
@@ -11,6 +15,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = slices.Clone(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +33,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = slices.Clone(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +51,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = slices.Clone(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
diff --git a/select_base.go b/select_base.go
index edecf61..6c132e4 100644
--- a/select_base.go
+++ b/select_base.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -187,7 +188,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..4a9ae4f 100644
--- a/select_many.go
+++ b/select_many.go
@@ -1,6 +1,7 @@
 package query
 
 import (
+	"slices"
 	"strconv"
 )
 
@@ -104,7 +105,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = append(slices.Clip(query.order), orderByFields...)
 	return query
 }
 
@@ -134,7 +135,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index 12c25ac..722dcfd 100644
--- a/select_single.go
+++ b/select_single.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // SelectSingleBuilder extends BaseSelectBuilder helps to build SQL SELECT queries to receive single row.
 type SelectSingleBuilder struct {
 	BaseSelectBuilder
@@ -55,7 +59,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..e6128d5 100644
--- a/update.go
+++ b/update.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -21,13 +22,13 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return slices.Clone(updater.setValues)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = append(slices.Clip(updater.setValues), values...)
 	return updater
 }
 
-- 
2.43.0


From 8137f1d182b352454c925f0472a540c3a6716e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 05/12] fix: failed driver.Valuer is never bound as if it had
 succeeded

Single valuers and []driver.Valuer elements had their errors dropped and nil
bound, now they panic with Error like elements of any other valuers list do.
---
 value.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/value.go b/value.go
index d760d1f..a9b47cf 100644
--- a/value.go
+++ b/value.go
@@ -31,18 +31,14 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
-	var err error
-
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{translateValuer(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = translateValuer(value)
 		}
 
 		return result
@@ -78,15 +74,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			res := make([]any, valueReflection.Len())
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
-				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
-					res[idx] = nil
-				} else {
-					if res[idx], err = valuer.Value(); err != nil {
-						panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, rawElem, rawElem, err))
-					}
-				}
+				valuer, _ := elem.Interface().(driver.Valuer)
+				res[idx] = translateValuer(valuer)
 			}
 
 			return res
@@ -95,6 +84,21 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// translateValuer returns database form of valuer or nil if no valuer specified.
+// Panics if valuer failed to translate itself.
+func translateValuer(valuer driver.Valuer) any {
+	if valuer == nil {
+		return nil
+	}
+
+	value, err := valuer.Value()
+	if err != nil {
+		panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, valuer, valuer, err))
+	}
+
+	return value
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 136d2b34ead502968dae96ead113f86c23a1b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 06/12] fix: list values bind exactly one param outside of IN

Comparisons, INSERT and UPDATE have a single placeholder per value, but lists
were expanded into several params or only their first element was bound.
---
 insert.go    |  2 +-
 lib_equal.go |  5 +++++
 lib_gt.go    |  5 +++++
 lib_gte.go   |  5 +++++
 lib_lt.go    |  5 +++++
 lib_lte.go   |  5 +++++
 update.go    |  2 +-
 value.go     | 14 +++++++++++++-
 8 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/insert.go b/insert.go
index 332c0b1..7f4bad4 100644
--- a/insert.go
+++ b/insert.go
@@ -49,7 +49,7 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		params = append(params, fieldValue.singleValue())
 
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..e693b65 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,11 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns exactly one value to fill comparison placeholder.
+func (impl equalTo) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..19bfd26 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,11 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns exactly one value to fill comparison placeholder.
+func (impl greater) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..c41d7dc 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,11 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns exactly one value to fill comparison placeholder.
+func (impl greaterOrEqual) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..6c9ce69 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,11 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns exactly one value to fill comparison placeholder.
+func (impl less) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..72bfb42 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,11 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns exactly one value to fill comparison placeholder.
+func (impl lessOrEqual) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/update.go b/update.go
index e6128d5..2b46eab 100644
--- a/update.go
+++ b/update.go
@@ -43,7 +43,7 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		params[idx] = fieldValue.singleValue()
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
diff --git a/value.go b/value.go
index a9b47cf..a40ea84 100644
--- a/value.go
+++ b/value.go
@@ -29,7 +29,7 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
-// Values returns a slice of interface{} containing single field value.
+// Values returns a slice of interface{} containing single field value or every element of supported lists.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
@@ -84,6 +84,18 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// singleValue returns field value as exactly one database value, lists are never expanded.
+func (fieldValue FieldValue) singleValue() any {
+	switch typedValue := fieldValue.value.(type) {
+	case driver.Valuer:
+		return translateValuer(typedValue)
+	case ValueProvider:
+		return typedValue.DatabaseValue()
+	default:
+		return fieldValue.value
+	}
+}
+
 // translateValuer returns database form of valuer or nil if no valuer specified.
 // Panics if valuer failed to translate itself.
 func translateValuer(valuer driver.Valuer) any {
-- 
2.43.0


From c8f7ac9ed8e6908cb16fdc1e60427d94caa36226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 07/12] fix: conditions render fields without AS clause

FieldDefinition.RenderField is the documented form for conditional clauses.
---
 lib_equal.go  | 8 ++++----
 lib_gt.go     | 8 ++++----
 lib_gte.go    | 8 ++++----
 lib_ilike.go  | 8 ++++----
 lib_in.go     | 8 ++++----
 lib_isnull.go | 4 ++--
 lib_like.go   | 8 ++++----
 lib_lt.go     | 8 ++++----
 lib_lte.go    | 8 ++++----
 9 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/lib_equal.go b/lib_equal.go
index e693b65..1e854a2 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -42,9 +42,9 @@ func (impl equalTo) Negate(newNegateIndicator bool) Condition {
 func (impl equalTo) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl equalTo) Render(paramNum int) string {
 func (impl equalTo) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=?"}
+		tokens = []string{impl.RenderField(), "=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gt.go b/lib_gt.go
index 19bfd26..042b437 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -42,9 +42,9 @@ func (impl greater) Negate(newNegateIndicator bool) Condition {
 func (impl greater) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), ">$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl greater) Render(paramNum int) string {
 func (impl greater) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">?"}
+		tokens = []string{impl.RenderField(), ">?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gte.go b/lib_gte.go
index c41d7dc..21522ae 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -43,9 +43,9 @@ func (impl greaterOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl greaterOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), ">=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -55,9 +55,9 @@ func (impl greaterOrEqual) Render(paramNum int) string {
 func (impl greaterOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.RenderField(), ">=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_ilike.go b/lib_ilike.go
index 582d76f..605a435 100644
--- a/lib_ilike.go
+++ b/lib_ilike.go
@@ -58,9 +58,9 @@ func (impl iContains) Or(conditions ...Condition) Condition {
 func (impl iContains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -71,9 +71,9 @@ func (impl iContains) Render(paramNum int) string {
 func (impl iContains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "?"}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), opIlike, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "?"}
+		tokens = []string{impl.RenderField(), opIlike, "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_in.go b/lib_in.go
index ebd5c56..214ea6f 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -55,9 +55,9 @@ func (impl in) Render(paramNum int) string {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
@@ -77,9 +77,9 @@ func (impl in) RenderSQL() (sql string) {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_isnull.go b/lib_isnull.go
index 955cc70..f35776b 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/lib_like.go b/lib_like.go
index ca170d9..a0e58f3 100644
--- a/lib_like.go
+++ b/lib_like.go
@@ -56,9 +56,9 @@ func (impl contains) Or(conditions ...Condition) Condition {
 func (impl contains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -69,9 +69,9 @@ func (impl contains) Render(paramNum int) string {
 func (impl contains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "?"}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), "LIKE", "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "?"}
+		tokens = []string{impl.RenderField(), "LIKE", "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_lt.go b/lib_lt.go
index 6c9ce69..935c8a1 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -46,9 +46,9 @@ func (impl less) Negate(newNegateIndicator bool) Condition {
 func (impl less) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -58,9 +58,9 @@ func (impl less) Render(paramNum int) string {
 func (impl less) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lessSymbol, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.RenderField(), lessSymbol, "?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_lte.go b/lib_lte.go
index 72bfb42..6f8cafd 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -47,9 +47,9 @@ func (impl lessOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl lessOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -59,9 +59,9 @@ func (impl lessOrEqual) Render(paramNum int) string {
 func (impl lessOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lteOp, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.RenderField(), lteOp, "?"}
 	}
 	return strings.Join(tokens, "")
 }
-- 
2.43.0


From 16fd18dff8b7c87b96691b1fddc8f907195381cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 08/12] fix: FieldOrError refuses qualified names with empty or
 extra parts

---
 field_definition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..456576f 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -44,6 +44,8 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 
 	tokens := strings.Fields(strName)
 	switch {
+	case len(tokens) > 0 && !isFieldReference(tokens[0]):
+		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
@@ -59,6 +61,11 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	}
 }
 
+// isFieldReference returns true if token is either "<name>" or "<table>.<name>" having no empty parts.
+func isFieldReference(token string) bool {
+	return strings.Count(token, ".") <= 1 && !strings.HasPrefix(token, ".") && !strings.HasSuffix(token, ".")
+}
+
 func mustField[T FieldNameParameter](fieldName T) (field FieldDefinition) {
 	var (
 		err       error
-- 
2.43.0


From c98816c45cca9bc9d00cb5399e6957c80d94415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 09/12] fix: TableOrError accepts '<name> <alias>' with alias
 equal to name

Such alias is dropped as documented and as '<name> AS <alias>' does.
---
 table_ident.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table_ident.go b/table_ident.go
index 64a9be3..1edfd19 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -54,6 +54,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
+	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
 	}
-- 
2.43.0


From bc4b261b67feed1e940ba78ac0fcad963b7e5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 10/12] fix: FieldName.Validate refuses any blank character,
 not a space only

Names with tabs or line breaks were accepted but then split by Field.
---
 field_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field_name.go b/field_name.go
index ce8eab9..cc60472 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -23,7 +24,7 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains quote character", Error)
 	case strings.Contains(fnStr, "\""):
 		return fmt.Errorf("%w: field name contains double quote character", Error)
-	case strings.Contains(fnStr, " "):
+	case strings.ContainsFunc(fnStr, unicode.IsSpace):
 		return fmt.Errorf("%w: field name contains space character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
-- 
2.43.0


From d222e50514fc126aea2ca8ef519a2e206bd3fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 11/12] fix: Render, RenderSQL and Values of SelectMany and
 SelectSingle are complete

They rendered only the base query, losing ORDER BY, OFFSET and LIMIT.
---
 select_many.go   | 49 ++++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 13 +++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/select_many.go b/select_many.go
index 4a9ae4f..b4d233c 100644
--- a/select_many.go
+++ b/select_many.go
@@ -52,6 +52,55 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// limiter returns offset and limit as Limiter.
+func (query SelectManyBuilder) limiter() (limiter Limiter) {
+	limiter = limiter.Offset(query.offset)
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter
+}
+
+// complete appends ordering and rendered paging clauses to rendered base query.
+func (query SelectManyBuilder) complete(baseSQL string, pagingSQL string) (sql string) {
+	sql = baseSQL
+
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY "
+		} else {
+			sql += ", "
+		}
+		sql += order.Render()
+	}
+
+	if len(pagingSQL) > 0 {
+		sql += " " + pagingSQL
+	}
+
+	return sql
+}
+
+// Render renders complete SQL query including ordering and paging using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+// Implements CountingClauseRenderer.
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	paging := query.limiter().Render(parametersCount + len(query.BaseSelectBuilder.Values()))
+	return query.complete(query.BaseSelectBuilder.Render(parametersCount), paging)
+}
+
+// RenderSQL renders complete SQL query including ordering and paging using "?"(question) character substitutions.
+// Implements RawClauseRenderer.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	return query.complete(query.BaseSelectBuilder.RenderSQL(), query.limiter().RenderSQL())
+}
+
+// Values returns a set of values of conditions, offset and limit to use with Render or RenderSQL.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index 722dcfd..1e5384f 100644
--- a/select_single.go
+++ b/select_single.go
@@ -21,6 +21,19 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// Render renders complete SQL query using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+// Implements CountingClauseRenderer.
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
+// RenderSQL renders complete SQL query using "?"(question) character substitutions.
+// Implements RawClauseRenderer.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From 4f98fca8dd9bd81f224df6002a0c1a581e1f444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 12/12] fix: negation of a group holding a single joined group
 covers all of it

---
 group.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 565e2e4..c188713 100644
--- a/group.go
+++ b/group.go
@@ -82,11 +82,27 @@ func (conditionsGroup Group) mixesOR() bool {
 	return conditionsGroup.hasOne(LogicalOR)
 }
 
+// isJoined returns true if rendered group text has any not bracketed join.
+func (conditionsGroup Group) isJoined() bool {
+	if conditionsGroup.IsNegate() || conditionsGroup.withBrackets {
+		return false
+	}
+	if len(conditionsGroup.conditions) == 1 {
+		child, isGroup := asGroup(conditionsGroup.conditions[0])
+		return isGroup && child.isJoined()
+	}
+
+	return len(conditionsGroup.conditions) > 1
+}
+
 // enclosed returns group condition ready to render: child groups are enclosed into brackets
-// if their own OR joins otherwise would be split by AND joins or by negation of current group.
+// if their own joins otherwise would be split by AND joins or by negation of current group.
 func (conditionsGroup Group) enclosed(condition Condition) Condition {
 	child, isGroup := asGroup(condition)
-	if isGroup && child.mixesOR() && (conditionsGroup.hasOne(LogicalAND) || conditionsGroup.IsNegate()) {
+	switch {
+	case isGroup && child.mixesOR() && conditionsGroup.hasOne(LogicalAND):
+		return child.WithBrackets()
+	case isGroup && child.isJoined() && conditionsGroup.IsNegate() && len(conditionsGroup.conditions) == 1:
 		return child.WithBrackets()
 	}
 
-- 
2.43.0

