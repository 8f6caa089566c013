From 4a651d8f8ceb9a85dad193ce9f0d64267b159053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 01/20] fix: derived builders and condition groups never write
 into storage shared with their origin

---
 group.go           | 13 +++++++++++--
 insert.go          |  2 +-
 join_unfinished.go |  3 +++
 select_base.go     |  2 +-
 select_many.go     |  4 ++--
 select_single.go   |  2 +-
 update.go          |  2 +-
 7 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..8468389 100644
--- a/group.go
+++ b/group.go
@@ -137,6 +137,9 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
 
+	// cut off spare capacity: appends below should never write into a storage shared with original group
+	conditionsGroup.conditions = conditionsGroup.conditions[:len(conditionsGroup.conditions):len(conditionsGroup.conditions)]
+
 	switch {
 	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
 		return conditionsGroup
@@ -307,19 +310,25 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditions := make([]Condition, len(conditionsGroup.conditions))
 	for idx := range conditionsGroup.conditions {
-		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
+		conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
 
+	conditionsGroup.conditions = conditions
+
 	return conditionsGroup
 }
 
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditions := make([]Condition, len(conditionsGroup.conditions))
 	for idx := range conditionsGroup.conditions {
-		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
+		conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
 
+	conditionsGroup.conditions = conditions
+
 	return conditionsGroup
 }
diff --git a/insert.go b/insert.go
index 90cef5a..3536d79 100644
--- a/insert.go
+++ b/insert.go
@@ -26,7 +26,7 @@ func (inserter InsertBuilder) SetValues() []FieldValue {
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = append(inserter.setValues[:len(inserter.setValues):len(inserter.setValues)], values...)
 	return inserter
 }
 
diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..183588c 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -12,6 +12,7 @@ type incompleteBaseJoiner struct {
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = append([]TableJoiner{}, updated.joins...)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
@@ -29,6 +30,7 @@ type incompleteManyJoiner struct {
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = append([]TableJoiner{}, updated.joins...)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
@@ -46,6 +48,7 @@ type incompleteSingleJoiner struct {
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = append([]TableJoiner{}, updated.joins...)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
diff --git a/select_base.go b/select_base.go
index edecf61..47ccf73 100644
--- a/select_base.go
+++ b/select_base.go
@@ -187,7 +187,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..27aee38 100644
--- a/select_many.go
+++ b/select_many.go
@@ -104,7 +104,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = append(query.order[:len(query.order):len(query.order)], orderByFields...)
 	return query
 }
 
@@ -134,7 +134,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index dd12af7..8801300 100644
--- a/select_single.go
+++ b/select_single.go
@@ -54,7 +54,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..38d954a 100644
--- a/update.go
+++ b/update.go
@@ -27,7 +27,7 @@ func (updater UpdateBuilder) SetValues() []FieldValue {
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = append(updater.setValues[:len(updater.setValues):len(updater.setValues)], values...)
 	return updater
 }
 
-- 
2.43.0


From b311cb7014d2aa7da7b1425b781058ff50bb6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 02/20] fix: SetValues returns a copy as documented instead of
 internal storage

---
 insert.go | 2 +-
 update.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index 3536d79..f7e723f 100644
--- a/insert.go
+++ b/insert.go
@@ -20,7 +20,7 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return append([]FieldValue{}, inserter.setValues...)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
diff --git a/update.go b/update.go
index 38d954a..fdf5936 100644
--- a/update.go
+++ b/update.go
@@ -21,7 +21,7 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return append([]FieldValue{}, updater.setValues...)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
-- 
2.43.0


From fe58f280bef6c72877470ac92f7a4f13eb544a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 03/20] fix: SelectSingleBuilder.Fields keeps table, joins and
 conditions

---
 select_single.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/select_single.go b/select_single.go
index 8801300..154c38b 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,7 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
-	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
+	updated.BaseSelectBuilder = query.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
 
-- 
2.43.0


From e0cd5c1660070a76bd7bc41f0bf9a72dfe44a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 04/20] fix: Or called on IsNull condition does not panic

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..e3adf8d 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From f3f2b3c5e5e319a34fc2c6c146acb7f5ef847b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 05/20] fix: Or called on Contains and IContains gives OR
 joined condition as other conditions do

---
 lib_ilike.go | 2 +-
 lib_like.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib_ilike.go b/lib_ilike.go
index 582d76f..2a4a493 100644
--- a/lib_ilike.go
+++ b/lib_ilike.go
@@ -50,7 +50,7 @@ func (impl iContains) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl iContains) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalOR, impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // Render renders SQL SELECT clause part for current mustField.
diff --git a/lib_like.go b/lib_like.go
index ca170d9..8c34729 100644
--- a/lib_like.go
+++ b/lib_like.go
@@ -48,7 +48,7 @@ func (impl contains) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl contains) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalOR, impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // Render renders SQL SELECT clause part for current mustField.
-- 
2.43.0


From 5d0cd520c03117c151e8d60f039620d8ca5cd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 06/20] fix: joining many conditions or groups keeps requested
 logical operator between joined parts

---
 group.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/group.go b/group.go
index 8468389..4ff2693 100644
--- a/group.go
+++ b/group.go
@@ -68,30 +68,30 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	// check conditions on have single condition and adding group
 	case haveSingle && op == LogicalAND && addingOnlyAnd: // AND AND (AND),- unpack another group into flat (AND...AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case haveSingle && op == LogicalOR && addingOnlyOR: // OR OR (OR),- unpack another group into flat (OR-OR).
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case haveSingle: // any other single (or group) + group: enclose new group into brackets
 		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(anotherGroup.WithBrackets()))
 
 	// check conditions on having many conditions and adding group with conjunction
 	case havingOnlyOR && op == LogicalOR && addingOnlyOR: // (OR) OR (OR) => flat OR
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
+	case havingAnyOR && op == LogicalAND && addingAnyAnd && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(anotherGroup.conditions...)...)
 		// check conditions on having many conditions and adding group with conjunction
 
 	case havingOnlyAND && op == LogicalAND && addingOnlyAnd: // (AND) AND (AND) => flat AND
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 		// check conditions on having many conditions and adding group
 	case havingOnlyAND && op == LogicalAND && addingAnyOR: // (AND) AND (OR),- AND AND (OR)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
 		// check conditions on having many conditions and adding group
 	// check conditions on having many conditions and adding group
 	case havingAnyAND && op == LogicalOR && addingOnlyOR: // (AND) OR (OR) => (AND) OR OR
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(anotherGroup.conditions...)...)
 
 	default: // have many, adding many, join is not matched, join both with brackets
 		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(anotherGroup.WithBrackets())}
@@ -149,14 +149,14 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
-		conditionsGroup.conditions = append([]Condition{
-			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
-		)
+		conditionsGroup.conditions = []Condition{
+			conditionsGroup.WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
+		}
 	}
 
 	return conditionsGroup
-- 
2.43.0


From ef3ef9965c192e00d2a65e310ea1b687cc431ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 07/20] fix: negation of condition group is kept when the group
 joined with other conditions

---
 group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 4ff2693..0bb5233 100644
--- a/group.go
+++ b/group.go
@@ -112,7 +112,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	op := condition.JoinType()
 
 	switch {
-	case addingGroup: // process adding groups in separate method
+	case addingGroup && !groupToAdd.IsNegate(): // process adding groups in separate method
 		return conditionsGroup.addGroup(groupToAdd)
 	case haveNone: // current group empty, join single condition and set group join type
 		conditionsGroup.conditions = append(conditionsGroup.conditions, condition)
@@ -133,6 +133,14 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	// negation is related only to existed conditions: keep negated group as a whole and join new conditions to it
+	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 && len(conditions) > 0 {
+		conditionsGroup = Group{
+			BaseCondition: *newBaseCondition(conditionsGroup.JoinType(), false),
+			conditions:    []Condition{conditionsGroup},
+		}
+	}
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
-- 
2.43.0


From a7abf74f8d364ae879c87bcae0105e531c98ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 08/20] fix: child condition groups are enclosed into brackets
 when rendered next to other conditions or under negation

---
 group.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 0bb5233..9a45701 100644
--- a/group.go
+++ b/group.go
@@ -235,6 +235,17 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// enclosed returns child condition to render inside current group.
+// Child groups are enclosed into brackets if there is something around they could be mixed with.
+func (conditionsGroup Group) enclosed(child Condition) Condition {
+	group, isGroup := child.(Group)
+	if isGroup && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
+		return group.WithBrackets()
+	}
+
+	return child
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -252,7 +263,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
 		parametersCount += len(condition.Values())
 	}
 
@@ -286,7 +297,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.enclosed(condition).RenderSQL()
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From 47925d67a440487ed49074827ed87cb35544acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 09/20] fix: And always makes a condition joined with logical
 AND

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 3b59532..77455d1 100644
--- a/operations.go
+++ b/operations.go
@@ -21,7 +21,7 @@ func And(condition Condition, additionalConditions ...Condition) Condition {
 		group = NewGroup(LogicalAND, condition)
 	}
 
-	return group.And(additionalConditions...)
+	return LogicalAND.Join(group.And(additionalConditions...))
 }
 
 // Or makes condition or condition group with logical join OR.
-- 
2.43.0


From 5f77a5d5d386ee6d5a965949cbc1c2ed85c6103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 10/20] fix: condition groups having no conditions are skipped
 instead of rendering empty clause

---
 group.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 9a45701..e575d7c 100644
--- a/group.go
+++ b/group.go
@@ -38,11 +38,24 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(withoutEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
 
+// withoutEmptyGroups returns a list of conditions having no groups without conditions inside as there is nothing to render.
+func withoutEmptyGroups(conditions []Condition) []Condition {
+	result := make([]Condition, 0, len(conditions))
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
+			continue
+		}
+		result = append(result, condition)
+	}
+
+	return result
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -133,6 +146,8 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = withoutEmptyGroups(conditions)
+
 	// negation is related only to existed conditions: keep negated group as a whole and join new conditions to it
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 && len(conditions) > 0 {
 		conditionsGroup = Group{
-- 
2.43.0


From c61fa152cc92157348a101a86e99b497ab7aab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 11/20] fix: single placeholder always gets exactly one
 parameter even if value is a slice

---
 insert.go    |  2 +-
 lib_equal.go |  5 +++++
 lib_gt.go    |  5 +++++
 lib_gte.go   |  5 +++++
 lib_lt.go    |  5 +++++
 lib_lte.go   |  5 +++++
 update.go    |  2 +-
 value.go     | 10 ++++++++++
 8 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index f7e723f..6b8ec58 100644
--- a/insert.go
+++ b/insert.go
@@ -48,7 +48,7 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		params = append(params, fieldValue.singleValue())
 
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..982d283 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,11 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides the only value as there is the only placeholder rendered.
+func (impl equalTo) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..ab87373 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,11 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides the only value as there is the only placeholder rendered.
+func (impl greater) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..538d521 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,11 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides the only value as there is the only placeholder rendered.
+func (impl greaterOrEqual) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..b26436f 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,11 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides the only value as there is the only placeholder rendered.
+func (impl less) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..e7aa8eb 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,11 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides the only value as there is the only placeholder rendered.
+func (impl lessOrEqual) Values() []interface{} {
+	return []interface{}{impl.singleValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/update.go b/update.go
index fdf5936..4224120 100644
--- a/update.go
+++ b/update.go
@@ -42,7 +42,7 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		params[idx] = fieldValue.singleValue()
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
diff --git a/value.go b/value.go
index d760d1f..01af5e1 100644
--- a/value.go
+++ b/value.go
@@ -95,6 +95,16 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// singleValue returns exactly one value to substitute where only one placeholder is rendered.
+// If value is translated into any other values count, it is returned as is.
+func (fieldValue FieldValue) singleValue() interface{} {
+	if values := fieldValue.Values(); len(values) == 1 {
+		return values[0]
+	}
+
+	return fieldValue.value
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 02ec03d121326772559b483646dfc8303c47aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 12/20] fix: driver.Valuer error is not replaced with NULL
 value silently

---
 value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 01af5e1..a38e810 100644
--- a/value.go
+++ b/value.go
@@ -35,13 +35,19 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
+		singleValue, err := typedValue.Value()
+		if err != nil {
+			panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, typedValue, typedValue, err))
+		}
 		return []any{singleValue}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
+			singleValue, err := value.Value()
+			if err != nil {
+				panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, value, value, err))
+			}
 			result[idx] = singleValue
 		}
 
-- 
2.43.0


From 11ab096bc322d92dc000687ace48fc8583a9c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 13/20] fix: field name validation rejects any whitespace
 character

---
 field_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field_name.go b/field_name.go
index ce8eab9..cc60472 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -23,7 +24,7 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains quote character", Error)
 	case strings.Contains(fnStr, "\""):
 		return fmt.Errorf("%w: field name contains double quote character", Error)
-	case strings.Contains(fnStr, " "):
+	case strings.ContainsFunc(fnStr, unicode.IsSpace):
 		return fmt.Errorf("%w: field name contains space character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
-- 
2.43.0


From e9194cb8d354bc2d63b420be9be161c82d6a1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 14/20] fix: field specification having extra dots or empty
 table or field name is rejected

---
 field_definition.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..ddefaff 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -48,11 +48,17 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
 		nameTokens := strings.Split(tokens[0], ".")
+		if len(nameTokens) != 2 || len(nameTokens[0]) == 0 || len(nameTokens[1]) == 0 {
+			return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
+		}
 		return &FieldDefinition{fieldName: nameTokens[1], alias: "", tableName: nameTokens[0]}, nil
 	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: tokens[2], tableName: ""}, nil
 	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && strings.Contains(tokens[0], "."):
 		nameTokens := strings.Split(tokens[0], ".")
+		if len(nameTokens) != 2 || len(nameTokens[0]) == 0 || len(nameTokens[1]) == 0 {
+			return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
+		}
 		return &FieldDefinition{fieldName: nameTokens[1], alias: tokens[2], tableName: nameTokens[0]}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
-- 
2.43.0


From 2d49d97c9dc7318f55473e23cb473e636d504dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 15/20] fix: conditions do not declare field alias inside WHERE
 clause

---
 lib_isnull.go | 4 ++--
 value.go      | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index e3adf8d..b58fc01 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/value.go b/value.go
index a38e810..0e3ef6d 100644
--- a/value.go
+++ b/value.go
@@ -29,6 +29,12 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// RenderSpec returns a field identification. FieldValue is used only in conditional and assignment clauses,
+// so unlike FieldDefinition.RenderSpec it never declares an alias.
+func (fieldValue FieldValue) RenderSpec() string {
+	return fieldValue.FieldDefinition.RenderField()
+}
+
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
-- 
2.43.0


From 6c6330cd7f4852c5652fdff23e6df63bb751fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 16/20] fix: select and count queries without table name are
 rejected with error

---
 count.go         | 5 +++++
 select_base.go   | 5 +++++
 select_many.go   | 3 +++
 select_single.go | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/count.go b/count.go
index 2e921dd..26d96c9 100644
--- a/count.go
+++ b/count.go
@@ -1,6 +1,7 @@
 package query
 
 import (
+	"fmt"
 	"strings"
 )
 
@@ -20,6 +21,10 @@ func (query CountBuilder) RenderFrom() string {
 // BuildQueryAndParams generates sql query string with desired parameters set.
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	if len(query.baseBuilder.TableName()) == 0 {
+		return "", params, fmt.Errorf("%w: no table name set", Error)
+	}
+
 	tokens := append([]string{},
 		DoSelect.String(),
 		kwCount.String()+"("+query.countField.RenderField()+")",
diff --git a/select_base.go b/select_base.go
index 47ccf73..7e816c8 100644
--- a/select_base.go
+++ b/select_base.go
@@ -89,6 +89,11 @@ func (query BaseSelectBuilder) RenderFrom() (fromClause string) {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	params = make([]any, 0)
+
+	if len(query.baseTable.name) == 0 {
+		return "", params, fmt.Errorf("%w: no table name set", Error)
+	}
+
 	tokens := append([]string{},
 		DoSelect.String(),
 		query.fields.FieldList(),
diff --git a/select_many.go b/select_many.go
index 27aee38..c38d8c1 100644
--- a/select_many.go
+++ b/select_many.go
@@ -26,6 +26,9 @@ func (query SelectManyBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return "", params, err
+	}
 
 	if len(query.order) > 0 {
 		sql += " ORDER BY "
diff --git a/select_single.go b/select_single.go
index 154c38b..c310327 100644
--- a/select_single.go
+++ b/select_single.go
@@ -14,6 +14,10 @@ func (query SelectSingleBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return "", params, err
+	}
+
 	return sql + " LIMIT 1", params, nil
 }
 
-- 
2.43.0


From 89fd184f9416b5891e2bc6527053816c0b94fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 17/20] fix: rendering select of many or single records keeps
 ordering, offset and limit

---
 select_many.go   | 65 ++++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 12 +++++++++
 2 files changed, 77 insertions(+)

diff --git a/select_many.go b/select_many.go
index c38d8c1..aa0a632 100644
--- a/select_many.go
+++ b/select_many.go
@@ -54,6 +54,71 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// renderOrder returns SQL ORDER BY clause starting with space or empty string if no ordering required.
+func (query SelectManyBuilder) renderOrder() (sql string) {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY "
+		} else {
+			sql += ", "
+		}
+		sql += order.Render()
+	}
+
+	return sql
+}
+
+// RenderSQL renders whole query using "?"(question) character as parameters substitutions.
+// Implements RawClauseRenderer.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	sql = query.BaseSelectBuilder.RenderSQL() + query.renderOrder()
+
+	if query.offset > 0 {
+		sql += " OFFSET ?"
+	}
+
+	if query.limit > 0 {
+		sql += " LIMIT ?"
+	}
+
+	return sql
+}
+
+// Render renders whole query using numbered parameters starting from parametersCount+1.
+// Implements CountingClauseRenderer.
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	sql = query.BaseSelectBuilder.Render(parametersCount) + query.renderOrder()
+	parametersCount += len(query.BaseSelectBuilder.Values())
+
+	if query.offset > 0 {
+		parametersCount++
+		sql += " OFFSET $" + strconv.Itoa(parametersCount)
+	}
+
+	if query.limit > 0 {
+		parametersCount++
+		sql += " LIMIT $" + strconv.Itoa(parametersCount)
+	}
+
+	return sql
+}
+
+// Values returns a set of parameters to substitute into SQL generated using RenderSQL or Render methods.
+// Implements ValuesProvider.
+func (query SelectManyBuilder) Values() (params []any) {
+	params = query.BaseSelectBuilder.Values()
+
+	if query.offset > 0 {
+		params = append(params, query.offset)
+	}
+
+	if query.limit > 0 {
+		params = append(params, uint(query.limit))
+	}
+
+	return params
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index c310327..2c26c39 100644
--- a/select_single.go
+++ b/select_single.go
@@ -21,6 +21,18 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// RenderSQL renders whole query using "?"(question) character as parameters substitutions.
+// Implements RawClauseRenderer.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
+// Render renders whole query using numbered parameters starting from parametersCount+1.
+// Implements CountingClauseRenderer.
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From af160a3474323c88564b5a91d0c1af29744a1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 18/20] fix: nil elements of value slices become NULL instead
 of panic

---
 value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 0e3ef6d..3844ae4 100644
--- a/value.go
+++ b/value.go
@@ -50,6 +50,9 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
+			if value == nil {
+				continue // nil element is NULL
+			}
 			singleValue, err := value.Value()
 			if err != nil {
 				panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, value, value, err))
@@ -64,6 +67,9 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
+			if value == nil {
+				continue // nil element is NULL
+			}
 			result[idx] = value.DatabaseValue()
 		}
 
@@ -91,8 +97,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
+				valuer, ok := rawElem.(driver.Valuer)
+				if !ok { // nil element is NULL
 					res[idx] = nil
 				} else {
 					if res[idx], err = valuer.Value(); err != nil {
-- 
2.43.0


From 4a2e0864729a11cb5b20a9a6b852f46a805fd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 19/20] fix: treat a pointer to a group as the group

A pointer to a group satisfies Condition, but was not recognised as a group when given to filters and groups: it was rendered without brackets (widening the filter) and an empty one gave DELETE and UPDATE with an empty WHERE.
---
 group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group.go b/group.go
index e575d7c..4b20f70 100644
--- a/group.go
+++ b/group.go
@@ -47,6 +47,9 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 func withoutEmptyGroups(conditions []Condition) []Condition {
 	result := make([]Condition, 0, len(conditions))
 	for _, condition := range conditions {
+		if pointer, isPointer := condition.(*Group); isPointer && pointer != nil {
+			condition = *pointer // pointer to a group is the group itself
+		}
 		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
 			continue
 		}
-- 
2.43.0


From 72fc262f66443d1dc420754e9a1e875ff063f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 20/20] fix: nil pointers to converting types are NULL instead
 of a panic

A nil pointer to a type having Value or DatabaseValue with value receiver, given alone or in a list, panicked with nil dereference. It is NULL now, as in database/sql.
---
 field_name.go |  3 +++
 value.go      | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/field_name.go b/field_name.go
index cc60472..2f243a7 100644
--- a/field_name.go
+++ b/field_name.go
@@ -70,6 +70,9 @@ func (fn FieldName) In(value interface{}) Condition {
 func (fn FieldName) Value(value interface{}) FieldValue {
 	switch typed := value.(type) {
 	case ValueProvider:
+		if isNilConverter(typed) {
+			return *NewFieldValue(fn, nil)
+		}
 		return *NewFieldValue(fn, typed.DatabaseValue())
 	default:
 		return *NewFieldValue(fn, value)
diff --git a/value.go b/value.go
index 3844ae4..49bf5b4 100644
--- a/value.go
+++ b/value.go
@@ -39,6 +39,10 @@ func (fieldValue FieldValue) RenderSpec() string {
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
 
+	if isNilConverter(fieldValue.value) {
+		return []any{nil} // nothing to convert, it is NULL
+	}
+
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
 		singleValue, err := typedValue.Value()
@@ -50,7 +54,7 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			if value == nil {
+			if value == nil || isNilConverter(value) {
 				continue // nil element is NULL
 			}
 			singleValue, err := value.Value()
@@ -67,7 +71,7 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			if value == nil {
+			if value == nil || isNilConverter(value) {
 				continue // nil element is NULL
 			}
 			result[idx] = value.DatabaseValue()
@@ -98,7 +102,7 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
 				valuer, ok := rawElem.(driver.Valuer)
-				if !ok { // nil element is NULL
+				if !ok || isNilConverter(rawElem) { // nil element is NULL
 					res[idx] = nil
 				} else {
 					if res[idx], err = valuer.Value(); err != nil {
@@ -130,3 +134,17 @@ func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 		value:           fieldValue,
 	}
 }
+
+// isNilConverter detects nil pointers to types converting themselves by value.
+// As in database/sql there is nothing to call conversion on, so such values mean NULL.
+func isNilConverter(value interface{}) bool {
+	valueReflection := reflect.ValueOf(value)
+	if valueReflection.Kind() != reflect.Ptr || !valueReflection.IsNil() {
+		return false
+	}
+
+	pointedType := valueReflection.Type().Elem()
+
+	return pointedType.Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem()) ||
+		pointedType.Implements(reflect.TypeOf((*ValueProvider)(nil)).Elem())
+}
-- 
2.43.0

