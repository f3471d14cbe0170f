From 7ba90cfabdbe2f809869e50296ec2b823dd7bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 01/30] fix: keep the precedence of and over or in where/having
 conditions

The right operand of a binary operator was parsed as a whole nested
condition expression, so 'a and b or c' became 'a and (b or c)' and the
precedence table (not > and > or) had no effect.
---
 soql/parser/core/expressions2.go | 62 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..5420f83 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -166,7 +166,7 @@ func whereFieldExpression() ParserFn {
 	)
 }
 
-func whereConditionExpressionInnerRoot() ParserFn {
+func whereConditionOperand() ParserFn {
 	return FlatGroup(
 		ZeroOrOnce(
 			Trans(
@@ -191,6 +191,12 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			),
 			whereFieldExpression(),
 		),
+	)
+}
+
+func whereConditionExpressionInnerRoot() ParserFn {
+	return FlatGroup(
+		whereConditionOperand(),
 		ZeroOrMoreTimes(
 			Trans(
 				First(
@@ -203,7 +209,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					whereConditionOperand(),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -317,32 +323,38 @@ func havingFieldExpression() ParserFn {
 	)
 }
 
-func havingConditionExpressionInnerRoot() ParserFn {
-	return Trans(
-		FlatGroup(
-			ZeroOrOnce(
-				Trans(
-					SeqI("not"),
-					ChangeClassName("soql:UnaryOp"),
-				),
-				wordBoundary(),
-				sp0(),
+func havingConditionOperand() ParserFn {
+	return FlatGroup(
+		ZeroOrOnce(
+			Trans(
+				SeqI("not"),
+				ChangeClassName("soql:UnaryOp"),
 			),
-			First(
-				FlatGroup(
-					erase(CharClass("(")),
-					First(
-						FlatGroup(
-							sp0(),
-							Indirect(havingConditionExpression),
-							erase(CharClass(")")),
-							sp0(),
-						),
-						Error("Unexpected token aheads near by the 'having' clause"),
+			wordBoundary(),
+			sp0(),
+		),
+		First(
+			FlatGroup(
+				erase(CharClass("(")),
+				First(
+					FlatGroup(
+						sp0(),
+						Indirect(havingConditionExpression),
+						erase(CharClass(")")),
+						sp0(),
 					),
+					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-				havingFieldExpression(),
 			),
+			havingFieldExpression(),
+		),
+	)
+}
+
+func havingConditionExpressionInnerRoot() ParserFn {
+	return Trans(
+		FlatGroup(
+			havingConditionOperand(),
 			ZeroOrMoreTimes(
 				Trans(
 					First(
@@ -355,7 +367,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						havingConditionOperand(),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From fc0c83c84f124eec0a1cc206a669df97530de654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 02/30] fix: distribute a NOT operator only over its own
 operand

distributeNotOperators inverted every condition that precedes the NOT
operator in the RPN list, including the other operands of the enclosing
AND/OR.
---
 soql/parser/postprocess/normalize2.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..1dd1c83 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,31 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+// Find the start position of the operand (on the RPN list) that ends at `end`.
+func findOperandStart(conditions []SoqlCondition, end int) int {
+	required := 1
+	i := end
+	for ; i >= 0; i-- {
+		switch conditions[i].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// do nothing
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			required--
+		default:
+			required++
+		}
+		if required == 0 {
+			break
+		}
+	}
+	return i
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := findOperandStart(conditions, i-1); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From baf832f40b2e0dfe55a38080b98141bbb400fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 03/30] fix: parse NOT LIKE and NOT IN as single operators

Only the first token of the two-word operators was kept, so they were
compiled to a (misplaced) unary NOT that was erased afterwards.
---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 5420f83..1673466 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From 26961ae5af7f066e025acea29cbff37968c0ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 04/30] fix: do not drop conditions when a weakened AND is an
 operand of OR

For 'A=1 OR (A=2 AND B.x=3)' the per-object filter kept 'A=1 OR A=2' and
the post-process filter lost the whole OR expression except for 'B.x=3',
so the split was not equivalent to the original condition.
---
 soql/parser/postprocess/normalizeperobj.go | 15 +++++++++++++--
 soql/parser/postprocess/types.go           |  7 ++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..e8632f1 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -99,6 +99,7 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = i
+				stack[sp].partial = false
 				sp++
 			}
 		case SoqlConditionOpcode_FieldInfo:
@@ -106,6 +107,7 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = i
+				stack[sp].partial = false
 
 				switch cond.Value.Type {
 				case SoqlFieldInfo_Field:
@@ -129,8 +131,9 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = op1.minPos
+				stack[sp].partial = false
 
-				if op1.cond.Opcode == SoqlConditionOpcode_Unknown {
+				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op1.partial {
 					// Retain one Unknown on the stack.
 					for j := op1.minPos; j <= op1.srcPos; j++ {
 						conditions[j].Opcode = SoqlConditionOpcode_Noop
@@ -165,6 +168,8 @@ CHECK_FIELDS:
 				op1IsUnknown := op1.cond.Opcode == SoqlConditionOpcode_Unknown
 				op2IsUnknown := op2.cond.Opcode == SoqlConditionOpcode_Unknown
 
+				stack[sp].partial = op1IsUnknown != op2IsUnknown || op1.partial || op2.partial
+
 				if op1IsUnknown && op2IsUnknown {
 					// Retain one Unknown on the stack.
 					for j := stack[sp].minPos; j <= maxPos; j++ {
@@ -211,7 +216,13 @@ CHECK_FIELDS:
 					stack[sp].minPos = op2.minPos
 				}
 
-				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown {
+				stack[sp].partial = false
+
+				// NOTE: If an operand of the OR operator is weakened, the result is not equivalent to the original condition.
+				//       It should be evaluated in the post-process.
+				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown ||
+					op1.partial || op2.partial {
+
 					// Retain one Unknown on the stack.
 					for j := stack[sp].minPos; j <= maxPos; j++ {
 						conditions[j].Opcode = SoqlConditionOpcode_Noop
diff --git a/soql/parser/postprocess/types.go b/soql/parser/postprocess/types.go
index 2740d05..858276f 100644
--- a/soql/parser/postprocess/types.go
+++ b/soql/parser/postprocess/types.go
@@ -5,9 +5,10 @@ import (
 )
 
 type soqlConditionStack struct {
-	cond   SoqlCondition
-	srcPos int
-	minPos int
+	cond    SoqlCondition
+	srcPos  int
+	minPos  int
+	partial bool // One side of the AND operator has been removed. It is weaker than the original condition.
 }
 
 type soqlQueryPlace int
-- 
2.43.0


From 547afc475b4116ff8aaa72515ea21153dd079d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 05/30] fix: accept a FOR clause right after an object without
 an alias

'FROM Contact FOR VIEW' took FOR as the alias name of the object and
failed to parse the rest.
---
 soql/parser/core/elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..6597ecf 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,7 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(SeqI("for"), sp1(), First(SeqI("view"), SeqI("reference"), SeqI("update")), WordBoundary()),
 		),
 		Concat,
 	)
-- 
2.43.0


From eccd6b21449dd39a2bfc20b0c4fbc9d46b3cc1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 06/30] fix: do not set For.Update for FOR VIEW / FOR REFERENCE

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From 1714f6c5ca680ad1d7056e009518cc93027e3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 07/30] fix: record parameters and date literals of list
 literals in Meta

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..3f09c61 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -323,6 +323,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
 		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := 0; i < len(items); i++ {
+				switch v := items[i].Value.(type) {
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				}
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From ab6efb3dfee98746a950c27ce67e50e4d59af93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 08/30] fix: unmarshal date literal names in list literals

The parser stores a SoqlDateTimeLiteralName, but UnmarshalJSON expected a
string and failed on the marshalled query.
---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From 26bfba26d7725754978a136ab2b6b1e6f20a8284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 09/30] fix: make queries with Infinity or NaN literals
 marshallable

encoding/json cannot represent non-finite numbers, so json.Marshal failed
for a successfully parsed query. Encode them as strings.
---
 soql/parser/types/marshalhelper.go | 31 ++++++++++++++++++++++++++++++
 soql/parser/types/marshaller.go    | 14 ++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index 4cb9e93..a6f4203 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -2,9 +2,31 @@ package types
 
 import (
 	"encoding/json"
+	"math"
 	"time"
 )
 
+const (
+	jsonFloat_PositiveInfinity = "Infinity"
+	jsonFloat_NegativeInfinity = "-Infinity"
+	jsonFloat_NaN              = "NaN"
+)
+
+// Non-finite numbers cannot be represented as JSON numbers; encode them as strings.
+func marshalableFloatValue(value interface{}) interface{} {
+	if v, ok := value.(float64); ok {
+		switch {
+		case math.IsInf(v, 1):
+			return jsonFloat_PositiveInfinity
+		case math.IsInf(v, -1):
+			return jsonFloat_NegativeInfinity
+		case math.IsNaN(v):
+			return jsonFloat_NaN
+		}
+	}
+	return value
+}
+
 func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
 	case SoqlFieldInfo_Literal_Null:
@@ -19,6 +41,15 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 		}
 	case SoqlFieldInfo_Literal_Float:
 		{
+			switch string(b) {
+			case `"` + jsonFloat_PositiveInfinity + `"`:
+				return math.Inf(1), nil
+			case `"` + jsonFloat_NegativeInfinity + `"`:
+				return math.Inf(-1), nil
+			case `"` + jsonFloat_NaN + `"`:
+				return math.NaN(), nil
+			}
+
 			var v float64
 			if err := json.Unmarshal(b, &v); err != nil {
 				return nil, err
diff --git a/soql/parser/types/marshaller.go b/soql/parser/types/marshaller.go
index b882105..c94225a 100644
--- a/soql/parser/types/marshaller.go
+++ b/soql/parser/types/marshaller.go
@@ -19,6 +19,13 @@ func (t *SoqlFieldInfoType) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (t SoqlFieldInfo) MarshalJSON() ([]byte, error) {
+	type soqlFieldInfo_marshal SoqlFieldInfo
+	t2 := soqlFieldInfo_marshal(t)
+	t2.Value = marshalableFloatValue(t2.Value)
+	return json.Marshal(t2)
+}
+
 func (t *SoqlFieldInfo) UnmarshalJSON(b []byte) error {
 	t2 := &soqlFieldInfo_unmarshal{}
 	if err := json.Unmarshal(b, t2); err != nil {
@@ -47,6 +54,13 @@ func (t *SoqlFieldInfo) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (t SoqlListItem) MarshalJSON() ([]byte, error) {
+	type soqlListItem_marshal SoqlListItem
+	t2 := soqlListItem_marshal(t)
+	t2.Value = marshalableFloatValue(t2.Value)
+	return json.Marshal(t2)
+}
+
 func (t *SoqlListItem) UnmarshalJSON(b []byte) error {
 	t2 := &soqlFieldInfo_unmarshal{}
 	if err := json.Unmarshal(b, t2); err != nil {
-- 
2.43.0


From 03c12d33b906d63112df0f6133d63f235b678a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 10/30] fix: reject datetime literals whose UTC year cannot be
 marshalled

'9999-12-31T23:59:59-01:00' was accepted, but json.Marshal of the query
failed because its UTC year is 10000.
---
 soql/parser/core/elements.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index 6597ecf..13d310d 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"strings"
 	"time"
 
@@ -295,10 +296,15 @@ func dateTimeValue() ParserFn {
 			if err != nil {
 				return nil, err
 			}
+			t = t.UTC()
+			if y := t.Year(); y < 0 || y > 9999 {
+				// NOTE: It cannot be marshalled (RFC 3339).
+				return nil, errors.New("The year of datetime literal is out of range in UTC: " + value)
+			}
 			return AstSlice{{
 				ClassName: class.DateTime,
 				Type:      AstType_Any,
-				Value:     t.UTC(),
+				Value:     t,
 			}}, nil
 		},
 	)
-- 
2.43.0


From e7683a6d0e8a7fc46db6d78692589a2655439df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 11/30] fix: use the lower-cased name of OFFSET/LIMIT
 parameters in Meta.Parameters

All other parameters are registered in lower case.
---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..ee49d86 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 9e23966dea086b98b40277a4d148c21470470639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 12/30] fix: look up GROUP BY aliases case-insensitively

The alias map is keyed by the lower-cased alias name.
---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index ee49d86..cd5042e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From f398dc153ceaa51b4a2c6837b63881b25175f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 13/30] fix: keep the Aggregated flag of COUNT()

It has no parameters, so the generic rule for aggregate functions
cleared the flag that the COUNT rule had just set.
---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 3f09c61..d12c265 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -282,7 +282,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 						break FN_HAVING_OUTER
 					}
 				}
-				field.Aggregated = aggregated
+				field.Aggregated = field.Aggregated || aggregated
 
 				for i := 0; i < len(field.Parameters); i++ {
 					// TODO: FIXIT: Extract this condition outside the loop.
-- 
2.43.0


From b928c76f651bc3534e8a2c2aaaa82af0f2cbe900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 14/30] fix: detect aggregate queries independently of the
 select list order

'SELECT Name, COUNT(Id) FROM A' was accepted while 'SELECT COUNT(Id),
Name FROM A' was rejected, because the query became an aggregation only
after the fields before the function had been checked.
---
 soql/parser/postprocess/normalize.go  | 8 ++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index cd5042e..b9e15d9 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -127,6 +127,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
 	for i := 0; i < len(q.Fields); i++ {
@@ -227,10 +231,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index d12c265..7fdbf77 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From 6fb9c3af6a5c626cdd2a42b8e758d7a61150c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 15/30] fix: do not duplicate functions and subqueries referred
 to by ORDER BY aliases

The field behind an alias was appended to the select list again as an
unselected field (normalizing subqueries twice), and got another column
id than the selected column.
---
 soql/parser/postprocess/normalize2.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index 1dd1c83..d058cf5 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -2,6 +2,7 @@ package postprocess
 
 import (
 	"strconv"
+	"strings"
 
 	"github.com/shellyln/go-nameutil/nameutil"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
@@ -87,13 +88,8 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
-		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
-		if _, ok := fieldMap[key]; !ok {
-			f := q.OrderBy[i].Field
-			fieldMap[key] = f.Name
-			f.NotSelected = true
-			q.Fields = append(q.Fields, f)
-		}
+		// NOTE: Functions and subqueries are aliases of Select clause fields.
+		ctx.addUnselectedSelectFields(q, []SoqlFieldInfo{q.OrderBy[i].Field}, fieldMap, 1)
 	}
 	return nil
 }
@@ -208,6 +204,20 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 	}
 }
 
+// Apply ColumnId of the Select clause field to the field referred to by its alias name
+func applyAliasedColumnId(q *SoqlQuery, field *SoqlFieldInfo) {
+	if field.AliasName == "" {
+		return
+	}
+	for i := 0; i < len(q.Fields); i++ {
+		if strings.EqualFold(q.Fields[i].AliasName, field.AliasName) {
+			field.ColumnId = q.Fields[i].ColumnId
+			field.ViewId = q.Fields[i].ViewId
+			return
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	// Apply ColumnId to Select clause fields
@@ -218,11 +228,13 @@ func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	for i := 0; i < len(q.OrderBy); i++ {
 		field := &q.OrderBy[i].Field
+		applyAliasedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
 	for i := 0; i < len(q.GroupBy); i++ {
 		field := &q.GroupBy[i]
+		applyAliasedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
-- 
2.43.0


From cdacbce7cce61518f5f2d2c55ddc107642a595ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 16/30] fix: list an object once even if it is declared
 repeatedly in FROM

'FROM Contact con, con.Account.Owner o, con.Account acc' listed Account
twice: implicitly as the parent of Owner and again explicitly.
---
 soql/parser/postprocess/normalize.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index b9e15d9..c187f96 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -27,6 +27,22 @@ type normalizeQueryContext struct {
 	dateTimeLiterals   map[string]struct{}
 }
 
+// Merge the objects declared more than once (explicitly, or implicitly as a parent of another object).
+func mergeDuplicatedObjects(q *SoqlQuery) {
+	from := make([]SoqlObjectInfo, 0, len(q.From))
+	indexes := make(map[string]int)
+
+	for i := 0; i < len(q.From); i++ {
+		if idx, ok := indexes[q.From[i].Key]; !ok {
+			indexes[q.From[i].Key] = len(from)
+			from = append(from, q.From[i])
+		} else if from[idx].AliasName == "" {
+			from[idx].AliasName = q.From[i].AliasName
+		}
+	}
+	q.From = from
+}
+
 func (ctx *normalizeQueryContext) normalizeQuery(
 	qPlace soqlQueryPlace, q, callParentQuery *SoqlQuery, queryDepth int, objNameMap map[string][]string) error {
 
@@ -104,6 +120,8 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	mergeDuplicatedObjects(q)
+
 	groupingFields := make(map[string]struct{})
 
 	if q.GroupBy != nil {
-- 
2.43.0


From d7c191874c2c889badcb78ed260e4c19cd810a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 17/30] fix: do not mark the primary object of a conditional
 subquery as inner-joined

The propagation stopped at depth 1, but the depth of a primary object of
a subquery in a condition is greater than 1.
---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index c187f96..84f599a 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -485,7 +485,7 @@ func Normalize(q *SoqlQuery) error {
 			next := leaf.ParentViewId
 			for next != 0 {
 				l2 := ctx.viewGraph[next]
-				if l2.Depth == 1 || l2.Many || l2.QueryId != leaf.QueryId {
+				if l2.ParentViewId == 0 || l2.Many || l2.QueryId != leaf.QueryId {
 					break
 				}
 				l2.InnerJoin = true
-- 
2.43.0


From 392b3c8fc53f0252e927124256f332d265fbc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 18/30] fix: accumulate the view depth of nested conditional
 subqueries

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 84f599a..455ff48 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -404,7 +404,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	ctx.viewIdMap = make(map[string]int)
 	ctx.columnIdMap = make(map[string]int)
 	ctx.colIndexMap = make(map[string]int)
-	ctx.headObjDepthOffset = len(q.From[0].Name)
+	ctx.headObjDepthOffset = savedHeadObjDepthOffset + len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
-- 
2.43.0


From a9a3cefb56fbad3124ad40fc15475becfab4b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 19/30] fix: set the parent view id of subquery objects below
 undeclared parents

For '(SELECT Id FROM acc.Departments)' the view id of 'acc' was assigned
after it had been looked up for 'Departments'.
---
 soql/parser/postprocess/normalize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 455ff48..f52b96c 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -295,7 +295,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		} else {
 			q.From[i].ViewId = viewId
 		}
+	}
 
+	for i := 0; i < len(q.From); i++ {
 		nameLen := len(q.From[i].Name)
 		objDepth := nameLen + ctx.headObjDepthOffset
 		if ctx.maxViewDepth < objDepth {
-- 
2.43.0


From fe0e654279909b5c3d2c387c69cee948c1ec0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 20/30] fix: do not share view and column ids between
 subqueries in conditions

Two subqueries on the same object in a WHERE/HAVING clause got the same
view id, so the object graph lost one of them.
---
 soql/parser/postprocess/normalize.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index f52b96c..43a6ac7 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -403,15 +403,19 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	savedColumnIdMap := ctx.columnIdMap
 	savedColIndexMap := ctx.colIndexMap
 	savedHeadObjDepthOffset := ctx.headObjDepthOffset
-	ctx.viewIdMap = make(map[string]int)
-	ctx.columnIdMap = make(map[string]int)
-	ctx.colIndexMap = make(map[string]int)
+	resetIdMaps := func() {
+		// Each subquery in the conditions is independent of the others.
+		ctx.viewIdMap = make(map[string]int)
+		ctx.columnIdMap = make(map[string]int)
+		ctx.colIndexMap = make(map[string]int)
+	}
 	ctx.headObjDepthOffset = savedHeadObjDepthOffset + len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				resetIdMaps()
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -433,6 +437,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				resetIdMaps()
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From 870ab44de0d6f314653d41c77a1f48910ec7cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 21/30] fix: give the objects of each subquery their own view
 ids

Two select clause subqueries on the same relationship shared the view id,
so the object graph only knew the last one.
---
 soql/parser/postprocess/normalize.go  | 10 +++-------
 soql/parser/postprocess/normalize1.go |  8 ++++++++
 soql/parser/postprocess/normalize2.go | 16 +++++++++-------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 43a6ac7..c23e06b 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -288,13 +288,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	for i := 0; i < len(q.From); i++ {
-		if viewId, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
-			q.From[i].ViewId = ctx.viewId
-			ctx.viewIdMap[q.From[i].Key] = ctx.viewId
-			ctx.viewId++
-		} else {
-			q.From[i].ViewId = viewId
-		}
+		q.From[i].ViewId = ctx.viewId
+		ctx.viewIdMap[q.From[i].Key] = ctx.viewId
+		ctx.viewId++
 	}
 
 	for i := 0; i < len(q.From); i++ {
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 7fdbf77..cae0e18 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -309,6 +309,14 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	case SoqlFieldInfo_SubQuery:
 		if conf.isSelectClause {
 			field.SubQuery.Parent = q
+
+			// The views of this subquery should not be visible to the other subqueries.
+			savedViewIdMap := ctx.viewIdMap
+			ctx.viewIdMap = make(map[string]int)
+			for k, v := range savedViewIdMap {
+				ctx.viewIdMap[k] = v
+			}
+			defer func() { ctx.viewIdMap = savedViewIdMap }()
 		}
 		if err := ctx.normalizeQuery(qPlace, field.SubQuery, q, queryDepth+1, objNameMap); err != nil {
 			return err
diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index d058cf5..04fbcb9 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -163,8 +163,15 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 		var key string
 		switch field.Type {
 		case SoqlFieldInfo_Field:
-			// TODO: key is probably calculated.
-			key = field.Key
+			ns := nameutil.GetNamespaceFromName(field.Name)
+			nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
+			if viewId, ok := ctx.viewIdMap[nsKey]; ok {
+				field.ViewId = viewId
+			}
+
+			// TODO: field.Key is probably calculated.
+			// NOTE: Different views (e.g. subqueries) may have the same object name.
+			key = strconv.Itoa(field.ViewId) + ":" + field.Key
 
 			if id, ok := ctx.columnIdMap[key]; !ok {
 				field.ColumnId = ctx.columnId
@@ -174,11 +181,6 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 				field.ColumnId = id
 			}
 
-			ns := nameutil.GetNamespaceFromName(field.Name)
-			nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
-			if viewId, ok := ctx.viewIdMap[nsKey]; ok {
-				field.ViewId = viewId
-			}
 		case SoqlFieldInfo_Function:
 			if (!aggregated && !isFunctionParameter) || (aggregated && field.Aggregated) {
 				field.ColumnId = ctx.columnId
-- 
2.43.0


From 937585981c59602f8aacf97c1fed743363fa3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 22/30] fix: do not panic on an ancestor field in a function
 parameter of a subquery

The ancestor check was skipped for function parameters, and the sibling
check then indexed the shorter name out of range.
---
 soql/parser/postprocess/normalize1.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index cae0e18..12eb2ff 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -122,8 +122,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			field.Name = s
 
 			if conf.isSelectClause {
-				if !conf.isFunctionParameter && (len(field.Name) <= len(q.From[0].Name)) {
-					// TODO: Is `!conf.isFunctionParameter` right condition? // <- BUG: It's a bug!
+				if len(field.Name) <= len(q.From[0].Name) {
 					return errors.New(
 						"The ancestor object item is not allowed to be selected: " +
 							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From c2c72224769413cbe2e3494d62149f982091cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 23/30] fix: make the lazily initialized parsers safe for
 concurrent Parse calls

takenoco's Indirect builds its parser on first use without any
synchronization, while the parser tree is shared by all Parse calls.
---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  4 ++--
 soql/parser/core/helpers.go      | 14 ++++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 1673466..f724b6f 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionOperand() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -340,7 +340,7 @@ func havingConditionOperand() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						indirect(havingConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..8173819 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,11 +2,25 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
 
+// Goroutine-safe version of the `Indirect`.
+// The lazy initialization of `Indirect` is not synchronized, but the parsers are shared by all `Parse()` calls.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return LightBaseParser("soql:Indirect", func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() {
+			parser = fn()
+		})
+		return parser(ctx)
+	})
+}
+
 func setStr(s string) TransformerFn {
 	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 		return AstSlice{{
-- 
2.43.0


From 9907203ecd8b29c8c043a744d804a1452cfc7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 24/30] fix: compare the parent object names of subquery items
 case-insensitively

---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 12eb2ff..17e7202 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -130,7 +130,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				}
 
 				for i := 0; i < len(q.From[0].Name); i++ {
-					if q.From[0].Name[i] != field.Name[i] {
+					if !strings.EqualFold(q.From[0].Name[i], field.Name[i]) {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
 								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From 22dbae4d3cb58d7724389e908fb4294bbb4726df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 25/30] fix: do not share column indexes between subqueries

---
 soql/parser/postprocess/normalize3.go      | 14 ++++++++++----
 soql/parser/postprocess/normalizeperobj.go |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..31f4030 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -2,17 +2,23 @@ package postprocess
 
 import (
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/shellyln/go-nameutil/nameutil"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// NOTE: Different views (e.g. subqueries) may have the same object name.
+func colIndexKey(field *SoqlFieldInfo) string {
+	return strconv.Itoa(field.ViewId) + ":" + field.Key
+}
+
 func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []SoqlFieldInfo) error {
 	for i := range fields {
 		switch fields[i].Type {
 		case SoqlFieldInfo_Field:
-			if idx, ok := ctx.colIndexMap[fields[i].Key]; ok {
+			if idx, ok := ctx.colIndexMap[colIndexKey(&fields[i])]; ok {
 				fields[i].ColIndex = idx
 			} else {
 				fields[i].ColIndex = -1
@@ -32,7 +38,7 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 							if q.Parent.From[j].Key == nsKey {
 								idx := len(q.Parent.From[j].PerObjectQuery.Fields)
 
-								ctx.colIndexMap[fields[i].Key] = idx
+								ctx.colIndexMap[colIndexKey(&fields[i])] = idx
 								fields[i].ColIndex = idx
 
 								q.Parent.Fields = append(q.Parent.Fields, fields[i])
@@ -66,7 +72,7 @@ func (ctx *normalizeQueryContext) applyColIndexToConditions(q *SoqlQuery, condit
 		if conditions[i].Opcode == SoqlConditionOpcode_FieldInfo {
 			switch conditions[i].Value.Type {
 			case SoqlFieldInfo_Field:
-				if idx, ok := ctx.colIndexMap[conditions[i].Value.Key]; ok {
+				if idx, ok := ctx.colIndexMap[colIndexKey(&conditions[i].Value)]; ok {
 					conditions[i].Value.ColIndex = idx
 				} else {
 					conditions[i].Value.ColIndex = -1
@@ -83,7 +89,7 @@ func (ctx *normalizeQueryContext) applyColIndexToConditions(q *SoqlQuery, condit
 
 func (ctx *normalizeQueryContext) applyColIndexToOrders(orderBy []SoqlOrderByInfo) {
 	for i := range orderBy {
-		if idx, ok := ctx.colIndexMap[orderBy[i].Field.Key]; ok {
+		if idx, ok := ctx.colIndexMap[colIndexKey(&orderBy[i].Field)]; ok {
 			orderBy[i].Field.ColIndex = idx
 		} else {
 			orderBy[i].Field.ColIndex = -1
diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index e8632f1..af1dfcc 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -340,7 +340,7 @@ func (ctx *normalizeQueryContext) buildPerObjectInfo(q *SoqlQuery) error {
 
 		for j := range perObjQuery.Fields {
 			perObjQuery.Fields[j].ColIndex = j
-			ctx.colIndexMap[perObjQuery.Fields[j].Key] = j
+			ctx.colIndexMap[colIndexKey(&perObjQuery.Fields[j])] = j
 		}
 	}
 
-- 
2.43.0


From 74a6ab1e090dbb31d8a55be6343802e90de2d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 26/30] fix: reject an object alias that hides the primary
 object (endless loop)

---
 soql/parser/postprocess/normalize1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 17e7202..29b828e 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -393,6 +393,10 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 		objNameMap[key] = currentName
 		if len(object.AliasName) > 0 {
 			// TODO: Check duplicated name
+			if len(currentName) > 1 && strings.ToLower(object.AliasName) == strings.ToLower(currentName[0]) {
+				// The alias name would hide the primary object.
+				return errors.New("Duplicate object alias name found: " + object.AliasName)
+			}
 			objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
 
 			s := make([]string, 0, len(currentName))
-- 
2.43.0


From befae68a5cc2cddaff0f1180d233b9c46f7ef488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 27/30] fix: do not grow the shared parser tree with every new
 nesting path

Each reference to a recursive rule built its own copy of the rule's
parsers on first use, with new references inside, so the memory of the
package grew with every nesting path seen and was never released.
---
 soql/parser/core/helpers.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 8173819..1bdc013 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"reflect"
 	"strings"
 	"sync"
 
@@ -8,16 +9,27 @@ import (
 	objparser "github.com/shellyln/takenoco/object"
 )
 
+// Lazily built parser of a recursive rule.
+type lazyParser struct {
+	once   sync.Once
+	parser ParserFn
+}
+
+// map[uintptr]*lazyParser
+var lazyParsers sync.Map
+
 // Goroutine-safe version of the `Indirect`.
 // The lazy initialization of `Indirect` is not synchronized, but the parsers are shared by all `Parse()` calls.
+// All references to a rule share one parser; otherwise every new nesting path
+// that appears in a query would add parsers that are never released.
 func indirect(fn func() ParserFn) ParserFn {
-	var once sync.Once
-	var parser ParserFn
+	v, _ := lazyParsers.LoadOrStore(reflect.ValueOf(fn).Pointer(), &lazyParser{})
+	lazy := v.(*lazyParser)
 	return LightBaseParser("soql:Indirect", func(ctx ParserContext) (ParserContext, error) {
-		once.Do(func() {
-			parser = fn()
+		lazy.once.Do(func() {
+			lazy.parser = fn()
 		})
-		return parser(ctx)
+		return lazy.parser(ctx)
 	})
 }
 
-- 
2.43.0


From 44e55c87182d198e00aad60bdd9691cf8f40e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 28/30] fix: do not mix up objects whose names only Unicode
 case folding equates

---
 soql/parser/postprocess/normalize1.go      |  2 +-
 soql/parser/postprocess/normalizeperobj.go | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 29b828e..52b82f0 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -130,7 +130,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				}
 
 				for i := 0; i < len(q.From[0].Name); i++ {
-					if !strings.EqualFold(q.From[0].Name[i], field.Name[i]) {
+					if strings.ToLower(q.From[0].Name[i]) != strings.ToLower(field.Name[i]) {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
 								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index af1dfcc..bef1009 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -9,6 +9,13 @@ import (
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// sameObjectName tells whether two names have the same key.
+// NOTE: NameEqualsIgnoreCase also equates letters that the keys distinguish (e.g. the Greek sigmas).
+func sameObjectName(nameA, nameB []string) bool {
+	return len(nameA) == len(nameB) &&
+		nameutil.MakeDottedKeyIgnoreCase(nameA, len(nameA)) == nameutil.MakeDottedKeyIgnoreCase(nameB, len(nameB))
+}
+
 func makePerObjectFields(perObjQuery *SoqlQuery, srcFields []SoqlFieldInfo) []SoqlFieldInfo {
 	targetFields := make([]SoqlFieldInfo, 0, len(srcFields))
 
@@ -17,7 +24,7 @@ func makePerObjectFields(perObjQuery *SoqlQuery, srcFields []SoqlFieldInfo) []So
 		case SoqlFieldInfo_Field, SoqlFieldInfo_FieldSet:
 			{
 				name := srcFields[i].Name
-				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
+				if sameObjectName(perObjQuery.From[0].Name, name[:len(name)-1]) {
 					targetFields = append(targetFields, srcFields[i])
 				}
 			}
@@ -45,7 +52,7 @@ func makePerObjectOrders(perObjQuery *SoqlQuery, srcOrders []SoqlOrderByInfo) []
 		case SoqlFieldInfo_Field:
 			{
 				name := srcOrders[i].Field.Name
-				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
+				if sameObjectName(perObjQuery.From[0].Name, name[:len(name)-1]) {
 					targetOrders = append(targetOrders, srcOrders[i])
 				}
 			}
@@ -80,7 +87,7 @@ CHECK_FIELDS:
 		case SoqlConditionOpcode_FieldInfo:
 			switch cond.Value.Type {
 			case SoqlFieldInfo_Field:
-				if nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
+				if sameObjectName(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
 					hasConditionsOriginally = true
 					break CHECK_FIELDS
 				}
@@ -111,7 +118,7 @@ CHECK_FIELDS:
 
 				switch cond.Value.Type {
 				case SoqlFieldInfo_Field:
-					if !nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
+					if !sameObjectName(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
 						conditions[i].Opcode = SoqlConditionOpcode_Unknown
 						stack[sp].cond.Opcode = SoqlConditionOpcode_Unknown
 					}
-- 
2.43.0


From dc93c8121528c7ae57d0942f817bbccaf051de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 29/30] fix: resolve subquery references to joined objects of
 the enclosing query

A subquery could name a field of an object joined by its enclosing query
(select (select id from cases where o.id = 1) from acc a, a.owner o); only
references not deeper than the subquery's own object were recognized as
correlated, the others were accepted with column index -1 and without a column
in the enclosing query.
---
 soql/parser/postprocess/normalize3.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 31f4030..2bdd7f1 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -14,6 +14,15 @@ func colIndexKey(field *SoqlFieldInfo) string {
 	return strconv.Itoa(field.ViewId) + ":" + field.Key
 }
 
+func hasObject(q *SoqlQuery, objectKey string) bool {
+	for i := range q.From {
+		if q.From[i].Key == objectKey {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []SoqlFieldInfo) error {
 	for i := range fields {
 		switch fields[i].Type {
@@ -24,16 +33,17 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			ns := nameutil.GetNamespaceFromName(fields[i].Name)
+			nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
+
+			if !hasObject(q, nsKey) {
+				// The object belongs to an enclosing query. It is not always shallower than the object of this query.
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
 					isSet := false
 
 					if q.Parent != nil {
-						ns := nameutil.GetNamespaceFromName(fields[i].Name)
-						nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
-
 						for j := range q.Parent.From {
 							if q.Parent.From[j].Key == nsKey {
 								idx := len(q.Parent.From[j].PerObjectQuery.Fields)
-- 
2.43.0


From f418f57ea920cec80d99a0c1feb618b08734d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 30/30] fix: reject date literal numbers that do not fit an int

On 32-bit platforms last_n_days:4294967299 was taken for last_n_days:3.
---
 soql/parser/core/elements.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index 13d310d..e628cd7 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"errors"
+	"strconv"
 	"strings"
 	"time"
 
@@ -491,12 +492,17 @@ func dateTimeLiteralName() ParserFn {
 			wordBoundary(),
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+			n := asts[1].Value.(int64)
+			if int64(int(n)) != n {
+				// int is 32 bits wide on some platforms.
+				return nil, errors.New("Number of date literal is out of range: " + strconv.FormatInt(n, 10))
+			}
 			return AstSlice{{
 				ClassName: class.DateTimeLiteralName,
 				Type:      AstType_Any,
 				Value: SoqlDateTimeLiteralName{
 					Name: strings.ToUpper(asts[0].Value.(string)),
-					N:    int(asts[1].Value.(int64)),
+					N:    int(n),
 				},
 			}}, nil
 		},
-- 
2.43.0

