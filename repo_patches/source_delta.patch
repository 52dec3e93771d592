From e7c8f172b0255853f6b7b755002b769d8e6e279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 01/20] fix: reject names that end in a newline

"$" also matches before a trailing newline, so a column, function, alias,
entity, storage, identifier, dataset or app_id ending in "\n" was accepted
and printed raw. Anchor the patterns with \Z.
---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From f427fe2dbf81f42646783834f42c553a9c84a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:05 +0000
Subject: [PATCH 02/20] fix: reject a rollup granularity of zero or of a
 non-integer type

The truth test let 0 through and `in` let 60.0 through, although the error
message requires an integer out of ALLOWED_GRANULARITIES.
---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..3bce1e9 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if self.granularity is not None and (
+            not isinstance(self.granularity, int)
+            or self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From 71d505b6b97aa4cb4559f86d192f0722140d9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:08 +0000
Subject: [PATCH 03/20] fix: print the LimitBy count as an integer

LimitBy(columns, True) passed validation and was printed as "True BY".
---
 snuba_sdk/visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..9978cab 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -319,7 +319,7 @@ class Translation(ExpressionVisitor[str]):
         return f"{self.visit(orderby.exp)} {orderby.direction.value}"
 
     def _visit_limitby(self, limitby: LimitBy) -> str:
-        return f"{limitby.count} BY {','.join(self.visit(column) for column in limitby.columns)}"
+        return f"{self._visit_int_literal(limitby.count)} BY {','.join(self.visit(column) for column in limitby.columns)}"
 
     def _visit_totals(self, totals: bool) -> str:
         return f"{totals}"
-- 
2.43.0


From bd443a9ad53fc69f39cd42d73d4f247cdfca9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:23 +0000
Subject: [PATCH 04/20] fix: check the outer column of a subscript against the
 data model

Column("tags[a]", entity) was checked before its subscriptable was known, so
it was rejected by a data model that contains "tags", while the same column
without the entity was accepted.
---
 snuba_sdk/column.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..622745e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -46,6 +46,14 @@ class Column(Expression):
                 f"column '{self.name}' is empty or contains invalid characters"
             )
 
+        # If this is a subscriptable set these values to help with debugging etc.
+        # Because this is frozen we can't set the value directly.
+        if "[" in self.name:
+            subscriptable, key = self.name.split("[", 1)
+            key = key.strip("]")
+            super().__setattr__("subscriptable", subscriptable)
+            super().__setattr__("key", key)
+
         if self.entity is not None:
             if not isinstance(self.entity, Entity):
                 raise InvalidColumnError(f"column '{self.name}' expects an Entity")
@@ -56,14 +64,6 @@ class Column(Expression):
 
             self.validate_data_model(self.entity)
 
-        # If this is a subscriptable set these values to help with debugging etc.
-        # Because this is frozen we can't set the value directly.
-        if "[" in self.name:
-            subscriptable, key = self.name.split("[", 1)
-            key = key.strip("]")
-            super().__setattr__("subscriptable", subscriptable)
-            super().__setattr__("key", key)
-
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From 00949a74a7ce9626490ef2896bc7d602833fe3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:26 +0000
Subject: [PATCH 05/20] fix: let set_match take a Storage

The constructor, the signature and the error message all allow one.
---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From 662884be867783bccf49ed5901c5484adfd0dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 06/20] fix: refuse MQL filters whose operator MQL cannot
 express

<, <=, >, >=, IS NULL, IS NOT NULL and ! were all printed as "tag:value",
which silently turned the filter into an equality.
---
 snuba_sdk/visitors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 9978cab..d240e97 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -308,6 +308,10 @@ class Translation(ExpressionVisitor[str]):
         op = ""
         if cond.op == Op.NEQ or cond.op == Op.NOT_IN or cond.op == Op.NOT_LIKE:
             op = "!"
+        elif cond.op not in (Op.EQ, Op.IN, Op.LIKE):
+            raise InvalidExpressionError(
+                f"operator {cond.op.value} is not supported in conditions in MQL"
+            )
         return f"{op}{self.visit(cond.lhs)}:{rhs}"
 
     def _visit_boolean_condition(self, cond: BooleanCondition) -> str:
-- 
2.43.0


From bbea19c5a99f72a5567386def742d8d95a8de390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:47 +0000
Subject: [PATCH 07/20] fix: check the parameter types of nested formulas

Only the parameters of the outermost formula were checked, so a string in a
nested formula was printed raw into the MQL.
---
 snuba_sdk/formula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 19b3203..21198a8 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -67,6 +67,8 @@ class Formula:
                 has_timeseries = True
                 if param.groupby is not None:
                     groupbys.add(tuple(param.groupby))
+            elif not isinstance(param, tuple(FormulaParameter)):
+                raise InvalidFormulaError(f"parameter '{param}' is an invalid type")
 
         if not has_timeseries:
             raise InvalidFormulaError(
-- 
2.43.0


From a3a0e218229054e766cb6e0eb69901d61a2b477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:02 +0000
Subject: [PATCH 08/20] fix: quote string aggregate parameters of formulas

They were printed with str(), so a string parameter was not quoted or
escaped, unlike the aggregate parameters of a Timeseries.
---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..a7be52b 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -159,7 +159,7 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            return f"({', '.join(self.expression_visitor.visit(param) for param in aggregate_params)})"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From 9e38e9bbba0843510f07d9a6d6877aa47b872152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 09/20] fix: quote MRIs that MQL cannot parse unquoted

An MRI parsed out of backticks may contain brackets, quotes or commas, but was
printed without the backticks, which is not valid MQL.
---
 snuba_sdk/metrics_visitors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index a7be52b..3f5bba8 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -205,6 +205,9 @@ class MetricVisitor(ABC, Generic[TVisited]):
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
+            # These characters can only be parsed in an MRI that is quoted
+            if any(c in metric.mri for c in '(){}[]",'):
+                return f"`{metric.mri}`"
             return metric.mri
 
         if metric.public_name is not None:
-- 
2.43.0


From 8fd2037d2ef69e89e4fb60fc661feb0bdab5c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:30 +0000
Subject: [PATCH 10/20] fix: leave the orderby of a legacy body unchanged

json_to_snql stripped the "-" from the list in the body, so converting the
same body again silently ordered ascending.
---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From 9791a59d492146f5e7a5737a896d2e0ca9f87c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:33 +0000
Subject: [PATCH 11/20] fix: accept a legacy having clause with a single
 alternative

Same handling as for conditions; Or() rejects a single condition.
---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 8556e29..4e12741 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 535c62f277f3e77a151b47dba7e737ca013cef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:36 +0000
Subject: [PATCH 12/20] fix: convert legacy conditions with a lower case
 operator

is_condition recognises them, but the conversion then raised ValueError.
---
 snuba_sdk/legacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 4e12741..04aa253 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -172,7 +172,8 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     """
     rhs = None
     lhs = parse_exp(cond[0])
-    if cond[1] not in ["IS NULL", "IS NOT NULL"]:
+    op = Op(cond[1].upper())
+    if op not in [Op.IS_NULL, Op.IS_NOT_NULL]:
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -192,7 +193,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
 
         rhs = parse_scalar(cond[2], only_strings=only_strings)
 
-    return (lhs, Op(cond[1]), rhs)
+    return (lhs, op, rhs)
 
 
 def parse_condition(cond: Sequence[Any]) -> Condition:
-- 
2.43.0


From bca327413cfae2ecadb0fef59aa86e5bb361b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:07 +0000
Subject: [PATCH 13/20] fix: pass a single argument to isNull and isNotNull in
 legacy conditions

A nested ["a", "IS NULL", None] became isNull(a, NULL).
---
 snuba_sdk/legacy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 04aa253..a145562 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -5,7 +5,7 @@ from functools import partial
 from typing import Any, Mapping, Optional, Sequence, Union
 
 from snuba_sdk.column import Column
-from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or
+from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or, is_unary
 from snuba_sdk.entity import Entity, get_required_time_column
 from snuba_sdk.function import Function
 from snuba_sdk.orderby import Direction, LimitBy, OrderBy
@@ -173,7 +173,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     rhs = None
     lhs = parse_exp(cond[0])
     op = Op(cond[1].upper())
-    if op not in [Op.IS_NULL, Op.IS_NOT_NULL]:
+    if not is_unary(op):
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -210,7 +210,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    params = (lhs,) if is_unary(op) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, params)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From bc097fee1e7a34cb991559b8106ace02b49b00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:10 +0000
Subject: [PATCH 14/20] fix: do not modify a MetricsQuery while serializing it

serialize() stored the optimized filters in the query, so the query printed
differently and compared unequal to its former self afterwards.
---
 snuba_sdk/metrics_query.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..49131a3 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,20 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        result = MQL_PRINTER.visit(self._optimize())
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return self._replace(
+                    "query", replace(self.query, filters=new_filters)
+                )
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 91a7acff40242d361bf451e39ffda5c272271ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:13 +0000
Subject: [PATCH 15/20] fix: give functions that compare equal the same hash

CurriedFunction.__eq__ ignores the alias but the generated __hash__ did not.
---
 snuba_sdk/function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 4278cfa..4c09fbd 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -107,6 +107,9 @@ class CurriedFunction(Expression):
             and self.parameters == other.parameters
         )
 
+    def __hash__(self) -> int:
+        return hash((self.function, self.initializers, self.parameters))
+
 
 @dataclass(frozen=True)
 class Function(CurriedFunction):
@@ -114,6 +117,8 @@ class Function(CurriedFunction):
         init=False, default=None
     )
 
+    __hash__ = CurriedFunction.__hash__
+
 
 identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
-- 
2.43.0


From c2660ea350ca7d789e9f627ef8a294b01b15e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:16 +0000
Subject: [PATCH 16/20] fix: find expressions inside arrays and tuples

Columns in an array or tuple (a function parameter or the right hand side of a
condition) were not found, so they escaped the validation against the match.
---
 snuba_sdk/visitors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index d240e97..89f0fc7 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -366,7 +366,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
+                if isinstance(param, (Expression, list, tuple)):
                     found |= self.visit(param)
 
         return found
@@ -418,7 +418,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
+            if isinstance(cond.rhs, (Expression, list, tuple)):
                 found |= self.visit(cond.rhs)
         return found
 
@@ -444,4 +444,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: Set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self.visit(v)
+        return found
-- 
2.43.0


From a7148c6a0dc531952440655ee93ddacd13656f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:02 +0000
Subject: [PATCH 17/20] fix: flatten every AND group when looking for required
 conditions

A group built as BooleanCondition(BooleanOp.AND, ...) was not looked into, so a
query with all required conditions was refused.
---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From dfce940ea52ce9c763fe0f99a9214c51e1c654f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:00 +0000
Subject: [PATCH 18/20] fix: do not take the start of an MQL filter key for AND

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..4610225 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ~r"(AND|and)(?![a-zA-Z0-9_.:])"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From 74e8eedec3a9e8506663e7820f8c962e4b569818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:19 +0000
Subject: [PATCH 19/20] fix: refuse nested formulas without parameters

---
 snuba_sdk/formula.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 21198a8..70ee2e1 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -58,11 +58,13 @@ class Formula:
         while stack:
             param = stack.pop()
             if isinstance(param, Formula):
+                if not isinstance(param.parameters, Sequence):
+                    raise InvalidFormulaError("Formula must have parameters")
+
                 if param.groupby is not None:
                     groupbys.add(tuple(param.groupby))
 
-                if param.parameters:
-                    stack.extend(param.parameters)
+                stack.extend(param.parameters)
             elif isinstance(param, Timeseries):
                 has_timeseries = True
                 if param.groupby is not None:
-- 
2.43.0


From befd8a4e03010e5fb277b466477bcd3f08b9cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:50 +0000
Subject: [PATCH 20/20] fix: convert legacy orderby expressions given as tuples

---
 snuba_sdk/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index a145562..8fd14d0 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -325,6 +325,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
         order_bys = []
         for o in order_by:
             direction = Direction.ASC
+            if isinstance(o, tuple):
+                o = list(o)
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-- 
2.43.0

