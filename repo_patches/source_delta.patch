From 3361ed46264959b723a2af3d6ef7d37a2ce97772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 01/44] fix: escape quotes embedded in string literals and
 identifiers

'it''s' was printed as 'it's' (and "a""b" as "a"b"), and the parser stripped every
quote on either end of the text instead of the delimiting one.
---
 treeno/builder/convert.py | 6 ++++--
 treeno/util.py            | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..425783a 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -732,7 +732,8 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        # Strip exactly one quote on each side, and unescape the quotes inside.
+        return ctx.getText()[1:-1].replace("''", "'")
 
     @overrides
     def visitUnicodeStringLiteral(
@@ -956,7 +957,8 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        # Strip exactly one quote on each side, and unescape the quotes inside.
+        return ctx.getText()[1:-1].replace('""', '"')
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..1fd5cdc 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,9 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    # A quote inside of the identifier is escaped by doubling it
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +44,9 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    # A quote inside of the literal is escaped by doubling it
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From bf97cecab106da049f0322792958accd40dd79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 02/44] fix: decode unicode string literals by their own escape
 rules

The text was decoded as a python string literal, so a backslash, a doubled quote,
a six digit or an escaped escape sequence, or a leading U all gave a wrong string.
---
 treeno/builder/convert.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 425783a..3137b16 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -2,6 +2,7 @@
 Converts from our grammar into a buildable query tree.
 """
 from decimal import Decimal
+from string import hexdigits
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 from overrides import overrides
@@ -741,19 +742,33 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> str:
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
+            escape_seq = ctx.STRING().getText()[1:-1].replace("''", "'")
         else:
             escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
-        )
-        return s
+        assert len(escape_seq) == 1, "Escape string must be a single character"
+        # Strip the U&' prefix and the ' suffix
+        text = ctx.UNICODE_STRING().getText()[3:-1].replace("''", "'")
+        # The parts between escape characters: the first one has no escape, an empty one means that the escape
+        # character itself was escaped, and the others start with XXXX or +XXXXXX.
+        first, *parts = text.split(escape_seq)
+        decoded = [first]
+        escaped = False
+        for idx, part in enumerate(parts):
+            if escaped:
+                # The escape character in front of this part was already consumed
+                decoded.append(part)
+                escaped = False
+            elif not part and idx + 1 < len(parts):
+                decoded.append(escape_seq)
+                escaped = True
+            else:
+                start, end = (1, 7) if part.startswith("+") else (0, 4)
+                digits = part[start:end]
+                assert len(digits) == end - start and all(
+                    digit in hexdigits for digit in digits
+                ), f"Invalid escape sequence {escape_seq}{part}"
+                decoded.append(chr(int(digits, 16)) + part[end:])
+        return "".join(decoded)
 
     @overrides
     def visitBooleanLiteral(
-- 
2.43.0


From a0b16367e9a84d948376186a15ea7c8baf678bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 03/44] fix: do not print a negated negative value as a comment

-(-1) was printed as --1, which is a comment.
---
 treeno/expression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..ecc2bef 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -516,7 +516,11 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        return builtin_unary_str(self, "-{value}", opts)
+        value = pemdas_str(type(self), self.value, opts)
+        # Two consecutive dashes start a comment
+        if value.startswith("-"):
+            value = parenthesize(value)
+        return f"-{value}"
 
 
 @value_attr
-- 
2.43.0


From 8287581682eaa845a0756a126adb7aae00a9c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 04/44] fix: parenthesize predicates, subqueries and lambdas
 used as operands

(a IS NULL) = b, a = (b = c), (a IS DISTINCT FROM b) OR c and similar expressions were
printed without the parentheses that the grammar needs to read them back.
---
 treeno/expression.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index ecc2bef..f71bc0a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -445,7 +445,13 @@ def pemdas_str(
     """
     # If the type is not specified, we assume the syntax is well-formed without any parentheses as it's probably a fn
     # call.
+    # Avoids a circular import
+    from treeno.relation import Query
+
     val_type = type(val)
+    # These extend as far to the right as possible, so they're not operands unless they're enclosed.
+    if isinstance(val, (Lambda, Query)):
+        return parenthesize(val.sql(opts))
     if (
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
@@ -453,6 +459,10 @@ def pemdas_str(
         return val.sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
+    # The operands of comparisons and predicates are value expressions, so they can't be chained in any order.
+    predicates = (OPERATOR_PRECEDENCE[Equal], OPERATOR_PRECEDENCE[IsNull])
+    if current_precedence in predicates and val_precedence in predicates:
+        return parenthesize(val.sql(opts))
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
         if is_left:
@@ -844,8 +854,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1067,6 +1076,7 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     LessThan: 4,
     LessThanOrEqual: 4,
     IsNull: 3,
+    DistinctFrom: 3,
     Like: 3,
     Between: 3,
     InList: 3,
-- 
2.43.0


From e85e65f7d9bf12c9cc14e3cf9ac44b80e0fa78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 05/44] fix: print subscripts and dereferences of operators and
 values correctly

(a + b)[1] was printed as a + b[1], and dereferencing a value quoted its whole text
as if it was an identifier.
---
 treeno/expression.py | 46 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index f71bc0a..f470ee1 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -253,13 +254,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if self.table is None or isinstance(self.table, str):
+            return chain_identifiers(self.table, self.name)
+        return f"{primary_str(self.table, opts)}.{quote_identifier(self.name)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -309,15 +306,11 @@ class Star(Value):
         ), "Table must be either a complex expression or a string representing the table, not a field"
 
     def sql(self, opts: PrintOptions) -> str:
-        star_string = ""
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-            star_string = f"{table_sql}."
-        star_string += "*"
-        return star_string
+        if self.table is None:
+            return "*"
+        if isinstance(self.table, str):
+            return f"{quote_identifier(self.table)}.*"
+        return f"{primary_str(self.table, opts)}.*"
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -476,6 +469,25 @@ def pemdas_str(
     return val.sql(opts)
 
 
+def primary_str(val: Value, opts: PrintOptions) -> str:
+    """Apply parenthesization onto a value that's being subscripted or dereferenced, since both of them bind tighter
+    than any operator does.
+    """
+    # Avoids a circular import
+    from treeno.relation import Query
+
+    is_number = isinstance(val, Literal) and isinstance(
+        val.value, (int, float, Decimal)
+    )
+    if (
+        is_number
+        or isinstance(val, (Lambda, Query))
+        or type(val) in OPERATOR_PRECEDENCE
+    ):
+        return parenthesize(val.sql(opts))
+    return val.sql(opts)
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -982,7 +994,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        return f"{primary_str(self.value, opts)}[{self.index.sql(opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
-- 
2.43.0


From a3341b92b0bf33aabace715ba16ff59a80b2e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 06/44] fix: tell rows apart from parenthesized expressions and
 grouping sets

ROW(x) was printed as (x), and GROUP BY ROW(a, b) as the grouping set (a,b).
---
 treeno/expression.py | 3 +++
 treeno/groupby.py    | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index f470ee1..7839dd4 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -923,6 +923,9 @@ class RowConstructor(Expression):
         values_string = join_stmts(
             [value.sql(opts) for value in self.values], opts
         )
+        if len(self.values) == 1:
+            # Otherwise it's just an expression in parentheses
+            return f"ROW({values_string})"
         return f"({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..b897dcf 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -43,7 +43,10 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        if len(self.values) == 1:
+        # The parentheses of a row would be read as the ones of the grouping set
+        if len(self.values) == 1 and not isinstance(
+            self.values[0], RowConstructor
+        ):
             return self.values[0].sql(opts)
         return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
 
-- 
2.43.0


From f8fb2eebe28b7e0eedd9d9385f858034d425fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 07/44] fix: quote interval values and accept interval fields
 in lower case

INTERVAL '3' DAY was printed as INTERVAL 3 DAY, which is not valid.
---
 treeno/builder/convert.py | 2 +-
 treeno/expression.py      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3137b16..7921b86 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -543,7 +543,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
diff --git a/treeno/expression.py b/treeno/expression.py
index 7839dd4..176cd94 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -953,7 +953,10 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return (
+            f"INTERVAL {quote_literal(self.value)} {self.from_interval}"
+            + to_interval_str
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
-- 
2.43.0


From a8543de9bf37746fbd3dbc8415608112af5885d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 08/44] fix: accept the lower case keywords and the != operator
 of the grammar

select distinct, limit all, tablesample bernoulli and normalize(x, nfc) were rejected
in lower case, and so was a != b.
---
 treeno/builder/convert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7921b86..0eb4e6e 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -129,7 +129,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
@@ -285,7 +285,7 @@ class ConvertVisitor(SqlBaseVisitor):
             return int(count)
         else:
             assert (
-                count == "ALL"
+                count.upper() == "ALL"
             ), "LIMIT quantities can either be numeric or ALL"
             return None
 
@@ -324,7 +324,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -558,7 +558,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitNormalForm(
         self, ctx: SqlBaseParser.NormalFormContext
     ) -> NormalForm:
-        return NormalForm[ctx.getText()]
+        return NormalForm[ctx.getText().upper()]
 
     @overrides
     def visitArrayType(self, ctx: SqlBaseParser.ArrayTypeContext) -> DataType:
@@ -1101,7 +1101,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From ddd164f233dbb6e64c1538a0944ccf4fb83e1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 09/44] fix: print and infer decimal and double literals
 exactly

Decimal('3') was printed as the integer 3, Decimal('1E+3') and 1e+16 in a notation
which isn't read back, negative decimals of over 28 digits were rounded, and the sign,
the exponent and leading zeros were counted in the precision.
---
 treeno/builder/convert.py     | 21 +++++----------------
 treeno/datatypes/inference.py | 16 ++++++----------
 treeno/expression.py          | 11 +++++++++--
 3 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 0eb4e6e..86fd342 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -11,7 +11,6 @@ from treeno.datatypes.builder import (
     array,
     boolean,
     double,
-    integer,
     interval,
     row,
     unknown,
@@ -697,21 +696,11 @@ class ConvertVisitor(SqlBaseVisitor):
         self, ctx: SqlBaseParser.DecimalLiteralContext
     ) -> Literal:
         text = ctx.DECIMAL_VALUE().getText()
-        negative = ctx.MINUS() is not None
-
-        dtype: DataType
-        value: Union[int, Decimal]
-        if "." in text:
-            value = Decimal(text)
-            dtype = infer_decimal(value)
-        else:
-            value = int(text)
-            dtype = integer()
-
-        if negative:
-            value = -value
-
-        return Literal(value, data_type=dtype)
+        if ctx.MINUS() is not None:
+            # Negating the value instead would round it to python's decimal context
+            text = "-" + text
+        value = Decimal(text)
+        return Literal(value, data_type=infer_decimal(value))
 
     @overrides
     def visitStringLiteral(
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..ad84c65 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,16 +51,12 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
-    if "." not in str_val:
-        return decimal(precision=len(str_val), scale=0)
-    else:
-        assert str_val.count(".") == 1, f"Malformed decimal str_val {str_val}"
-        decimal_point_pos = str_val.index(".")
-        return decimal(
-            precision=len(str_val) - 1,
-            scale=len(str_val) - decimal_point_pos - 1,
-        )
+    # Neither the sign, nor the exponent nor the zeros in front are digits of the value
+    str_val = format(decimal_value.copy_abs(), "f")
+    integral_digits, _, fractional_digits = str_val.partition(".")
+    integral_digits = integral_digits.lstrip("0")
+    scale = len(fractional_digits)
+    return decimal(precision=max(len(integral_digits) + scale, 1), scale=scale)
 
 
 def infer_timelike_precision(value: str) -> int:
diff --git a/treeno/expression.py b/treeno/expression.py
index 176cd94..9d19051 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -214,9 +214,16 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
+        if isinstance(self.value, Decimal):
+            # Decimals are told apart from integers by the decimal point, and from doubles by the exponent.
+            # i.e. 3.14 is DECIMAL(3,2)
+            s = format(self.value, "f")
+            if "." not in s:
+                s += "."
+        if isinstance(self.value, float):
+            # The exponent is always in upper case
+            s = s.upper()
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
-- 
2.43.0


From ea19876e31eb4455b0e228188b08409c5f0893de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 10/44] fix: print LIMIT 0 and OFFSET 0

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..dbf50d7 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -245,9 +245,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
-- 
2.43.0


From 13d5352b50ed917971ddb86497a02099331dc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 11/44] fix: print the WITH, ORDER BY, OFFSET and LIMIT clauses
 of set queries

---
 treeno/relation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index dbf50d7..e262483 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -318,7 +318,18 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+
+        # The WITH clause and the constraints surround the whole set operation.
+        with_builder = StatementPrinter()
+        with_builder.update(self._with_query_string_builder(opts))
+        constraint_builder = StatementPrinter()
+        constraint_builder.update(self._constraint_string_builder(opts))
+        stmts = [
+            with_builder.to_string(opts),
+            query_string,
+            constraint_builder.to_string(opts),
+        ]
+        return spacing.join(stmt for stmt in stmts if stmt)
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From e49fba726612128e338507ccb6d78c2af6bb2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 12/44] fix: read queries in parentheses and FETCH FIRST
 clauses

The operands of (SELECT 1) UNION (SELECT 2) were lost, which made it fail, and the
row count of FETCH FIRST 5 ROWS ONLY was silently dropped.
---
 treeno/builder/convert.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 86fd342..76fa9f9 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -225,6 +225,14 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        has_clauses = ctx.ORDER() or ctx.offset or ctx.LIMIT() or ctx.FETCH()
+        if has_clauses and (
+            query.orderby is not None
+            or query.offset is not None
+            or query.limit is not None
+        ):
+            # The clauses of a query in parentheses apply before the ones outside of them
+            query = SelectQuery([Star()], from_=query)
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
@@ -233,8 +241,17 @@ class ConvertVisitor(SqlBaseVisitor):
         if limit_clause:
             # TODO: Assign this to the query object
             query.limit = self.visit(limit_clause)
+        if ctx.FETCH():
+            if ctx.TIES():
+                raise NotImplementedError("WITH TIES is not yet supported")
+            # FETCH FIRST n ROWS ONLY is LIMIT n, and fetches a single row if there's no n
+            query.limit = self.visit(ctx.fetchFirst) if ctx.fetchFirst else 1
         return query
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitSetOperation(
         self, ctx: SqlBaseParser.SetOperationContext
-- 
2.43.0


From 97c2011b02136a9b5e4bc0062b642bf592a38d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 13/44] fix: quote every identifier that is printed

---
 treeno/expression.py | 10 ++++++----
 treeno/relation.py   | 16 ++++++++++++----
 treeno/window.py     |  3 ++-
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 9d19051..089bbd2 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -289,7 +289,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -335,8 +335,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -353,7 +355,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
diff --git a/treeno/relation.py b/treeno/relation.py
index e262483..bef6577 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -528,7 +528,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -758,13 +758,20 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
 
+    def _column_aliases_sql(self, opts: PrintOptions) -> str:
+        return parenthesize(
+            join_stmts(
+                [quote_identifier(alias) for alias in self.column_aliases], opts
+            )
+        )
+
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -848,7 +855,8 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        column_names = [quote_identifier(name) for name in self.column_names]
+        return {"USING": parenthesize(join_stmts(column_names, opts))}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..bd14f1a 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From 1942873430767c705ae07ba846cb58e7e8e2f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 14/44] fix: print WITH ORDINALITY as words instead of letters

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index bef6577..c307395 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1013,7 +1013,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-- 
2.43.0


From 438d2e99497052ffdcf143f5035e0cfe4b5ff2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 15/44] fix: parenthesize joins, samples and aliases nested in
 another relation

An alias of a join bound to its last relation only, a join on the right side of
another one was printed as if it was on the left, and an alias of a sample or of
another alias and a sample of a sample were not valid.
---
 treeno/relation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index c307395..b0be236 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -756,7 +756,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_sql = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[Join, AliasedRelation, TableSample],
+        )
+        alias_str = f"{relation_sql} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
@@ -949,7 +954,11 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        # Joins are left associative
+        right_string = relation_string(
+            self.right_relation, opts, special_parenthesize_relations=[Join]
+        )
+        builder.add_entry(join_type, right_string)
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1098,7 +1107,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
 
-- 
2.43.0


From df7cc038c3ab958bc702d93828aeca102b56064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 16/44] fix: reject malformed SQL instead of reading a part of
 it

Syntax errors were only printed, and whatever the parser recovered was returned. What
follows a query was ignored altogether, e.g. the condition of SELECT 1 WHEERE x.
---
 treeno/grammar/parse.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..f16d1a4 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,7 +1,9 @@
 from io import StringIO
 
 import nltk
-from antlr4 import CommonTokenStream
+from antlr4 import CommonTokenStream, Token
+from antlr4.error.ErrorListener import ErrorListener
+from antlr4.error.Errors import ParseCancellationException
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
 from antlr4.tree.Trees import Trees
@@ -17,6 +19,13 @@ except ImportError:
     raise
 
 
+class RaisingErrorListener(ErrorListener):
+    """Antlr's default listener prints the error and carries on with a tree that's only a part of the input."""
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise ParseCancellationException(f"line {line}:{column} {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -26,15 +35,29 @@ class AST:
 
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
-        stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(CommonTokenStream(lexer))
+        for recognizer in (lexer, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        query = parser.query()
+        # Unlike the standalone rules, a query doesn't have to end where the input does.
+        tokens = parser.getTokenStream()
+        if tokens.LT(1).text == ";":
+            tokens.consume()
+        token = tokens.LT(1)
+        if token.type != Token.EOF:
+            parser.notifyErrorListeners(
+                f"extraneous input '{token.text}' expecting <EOF>", token
+            )
+        return query
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From c15cb71f569f4f51faffba9be28ad55f89b8475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 17/44] fix: reject the SQL constructs that aren't converted
 instead of dropping them

EXISTS (SELECT 1) was read as None, a AT TIME ZONE 'UTC' as its time zone, COUNT(DISTINCT x)
as COUNT(x), a.b.c.d as b.c.d, a.b.* as b.* and BIGINT(3) as BIGINT.
---
 treeno/builder/convert.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 76fa9f9..e089cfa 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -5,6 +5,8 @@ from decimal import Decimal
 from string import hexdigits
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.tree.Tree import TerminalNode
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -153,6 +155,9 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    assert (
+        len(qualifiers) <= 3
+    ), f"Table names have at most a catalog, a schema and a name, got {qualifiers}"
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
@@ -164,6 +169,20 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        # Everything that isn't explicitly converted can only be a wrapper around a single rule, otherwise a part of
+        # the SQL would be lost.
+        if node.getChildCount() != 1:
+            raise NotImplementedError(
+                f"{type(node).__name__} is not yet supported: {node.getText()}"
+            )
+        return self.visit(node.getChild(0))
+
+    @overrides
+    def visitTerminal(self, node: TerminalNode) -> None:
+        raise NotImplementedError(f"{node.getText()} is not yet supported")
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
@@ -512,6 +531,9 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
+        assert len(param_values) <= len(
+            FIELDS[type_name]
+        ), f"Too many parameters for {type_name}: {param_values}"
         # We assume the parameters will be passed into here.
         parameters = {
             param.name: val
@@ -809,6 +831,10 @@ class ConvertVisitor(SqlBaseVisitor):
 
         # Qualified names usually have multiple parts, but afaik functions aren't namespaced so there should only
         # be one part
+        if ctx.setQuantifier():
+            raise NotImplementedError(
+                "Set quantifiers in function calls are not yet supported"
+            )
         qual_name = self.visit(ctx.qualifiedName())
         assert (
             len(qual_name) == 1
@@ -893,6 +919,10 @@ class ConvertVisitor(SqlBaseVisitor):
 
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
+        if ctx.setQuantifier():
+            raise NotImplementedError(
+                "Set quantifiers in LISTAGG are not yet supported"
+            )
         kwargs = {}
         separator = ctx.string()
         if separator:
@@ -1028,6 +1058,9 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
+            assert (
+                not isinstance(expr, Field) or expr.table is None
+            ), "Treeno currently only supports stars in the form * or x.*"
             table = expr.name if isinstance(expr, Field) else expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
-- 
2.43.0


From 40b5c8e2b92a3d89971d2bb2078f8615d0ff62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 18/44] fix: infer the type of TIMESTAMP literals and read
 DOUBLE PRECISION ones

The precision inferred for TIMESTAMP '...' was overwritten by a type without one, and
DOUBLE PRECISION '1' failed.
---
 treeno/builder/convert.py | 4 ++--
 treeno/expression.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e089cfa..439a776 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -19,7 +19,7 @@ from treeno.datatypes.builder import (
     varchar,
 )
 from treeno.datatypes.inference import infer_decimal, infer_integral
-from treeno.datatypes.types import FIELDS, TIME, TIMESTAMP, DataType
+from treeno.datatypes.types import DOUBLE, FIELDS, TIME, TIMESTAMP, DataType
 from treeno.expression import (
     AliasedStar,
     AliasedValue,
@@ -814,7 +814,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name=DOUBLE)
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
diff --git a/treeno/expression.py b/treeno/expression.py
index 089bbd2..14d41b5 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -899,7 +899,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
-- 
2.43.0


From dc2c532f110e2009b77d4398c6d0af813040b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 19/44] fix: return the common supertype of parametric types

common_supertype dropped the type it computed for two types of the same name
(COALESCE, IF, VALUES and set queries got None for DECIMAL, VARCHAR, ...),
failed on TIME and TIMESTAMP, had no answer for NULL, exceeded the longest
DECIMAL and CHAR, and cut off the longer of two rows.
---
 treeno/datatypes/conversions.py | 39 +++++++++++++++++++++++----------
 treeno/functions/common.py      |  3 ++-
 treeno/functions/conditional.py |  2 +-
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..47e586f 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -40,6 +42,7 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
@@ -53,6 +56,7 @@ NUMERIC_TYPES = INTEGRAL_TYPES | FLOAT_TYPES | {DECIMAL}
 STRING_TYPES = {CHAR, VARCHAR}
 # Refer to: https://github.com/trinodb/trino/blob/f382a176760975fec51e89f3dc62060e20420f82/core/trino-spi/src/main/java/io/trino/spi/type/CharType.java#L48
 MAX_CHAR_LENGTH = 65536
+MAX_DECIMAL_PRECISION = 38
 
 HLL_TYPES = {HLL, P4HLL}
 
@@ -64,7 +68,7 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
     if name1 == name2:
-        return common_same_type(dtype1, dtype2)
+        return common_supertype(dtype1, dtype2)
     elif {name1, name2}.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
     return unknown()
@@ -77,8 +81,11 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
         return unknown()
+    elif UNKNOWN in (dtype1.type_name, dtype2.type_name):
+        # UNKNOWN is the type of NULL, which can be coerced to any other type
+        return dtype2 if dtype1.type_name == UNKNOWN else dtype1
     elif dtype1.type_name in NUMERIC_TYPES:
         return common_numeric(dtype1, dtype2)
     elif dtype1.type_name in STRING_TYPES:
@@ -183,7 +190,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -223,7 +230,10 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    return decimal(
+        precision=min(MAX_DECIMAL_PRECISION, precision), scale=scale
+    )
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -257,6 +267,8 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
     dtypes = []
+    if len(dtype1.parameters["dtypes"]) != len(dtype2.parameters["dtypes"]):
+        raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
     for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
         dtypes.append(common_supertype(t1, t2))
     return row(dtypes=dtypes)
@@ -281,15 +293,21 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_precision(dtype1: DataType, dtype2: DataType) -> Dict[str, int]:
+    precision1 = dtype1.parameters.get("precision", None)
+    precision2 = dtype2.parameters.get("precision", None)
+    # The default precision is a matter of the session, so without both of them the common one isn't known
+    if precision1 is None or precision2 is None:
+        return {}
+    return {"precision": max(precision1, precision2)}
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
     timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(timezone=timezoned, **common_precision(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -297,10 +315,7 @@ def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
     timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(timezone=timezoned, **common_precision(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..b672bea 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -10,6 +10,7 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
     common_supertype,
     promote_varchar_to_char,
@@ -68,7 +69,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(MAX_CHAR_LENGTH, max_chars))
 
 
 @value_attr
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..2632591 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -50,7 +50,7 @@ class Coalesce(Function):
             val.data_type for val in self.values if val.data_type != unknown()
         ]
         self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
+            lambda t1, t2: common_supertype(t1, t2), dtypes, unknown()
         )
 
     @classmethod
-- 
2.43.0


From 2c76e126822af701e721e8a7aed2825bad372bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 20/44] fix: print NORMALIZE and parenthesize predicates used
 as subscripts

NORMALIZE called a method that doesn't exist, and neither its argument nor a
subscript can be a bare boolean expression.
---
 treeno/expression.py       | 3 ++-
 treeno/functions/string.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 14d41b5..ddc4be7 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -1009,7 +1009,8 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{primary_str(self.value, opts)}[{self.index.sql(opts)}]"
+        # The index is a value expression, so it's written like the operand of an operator.
+        return f"{primary_str(self.value, opts)}[{pemdas_str(Add, self.index, opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..246c828 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,7 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import Add, Value, pemdas_str, value_attr, wrap_literal
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +268,8 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        # The string is a value expression, so it's written like the operand of an operator.
+        components = [pemdas_str(Add, self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From ff1b0ed53b3e6500c5ec665507d90cf44eb7e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 21/44] fix: do not pad the line breaks of string literals and
 identifiers

Pretty printing changed the contents of quoted strings with line breaks.
---
 treeno/printer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..78dae58 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -14,10 +14,23 @@ from treeno.base import PrintMode, PrintOptions
 def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
+
+    Line breaks inside of quotes belong to a string literal or an identifier, so they can't be followed by any padding.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    output = []
+    quote = None
+    for char in input:
+        output.append(char)
+        if quote is not None:
+            # A doubled quote closes the quotes and opens them again right after
+            if char == quote:
+                quote = None
+        elif char in ("'", '"'):
+            quote = char
+        elif char == "\n":
+            output.append(pad)
+    return "".join(output)
 
 
 def join_stmts(
-- 
2.43.0


From 899e788c4299d351f7f938771df783a8ca5d1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 22/44] fix: print APPROX_PERCENTILE weights in order, read
 FROM_UNIXTIME(x)

Weights were printed in place of the percentage, FROM_UNIXTIME with one
argument was rejected, and so were the time zone functions of a timestamp
without precision.
---
 treeno/functions/aggregate.py | 4 +++-
 treeno/functions/datetime.py  | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..9f78762 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -507,9 +507,11 @@ class ApproxPercentile(AggregateFunction):
             self.data_type = unknown()
 
     def sql(self, opts: PrintOptions) -> str:
-        values = [self.value, self.percentage]
+        values = [self.value]
+        # The weight is the second argument if there is one
         if self.weight:
             values.append(self.weight)
+        values.append(self.percentage)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..65bbe30 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -136,7 +136,7 @@ class AtTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -157,7 +157,7 @@ class WithTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
@@ -197,7 +199,7 @@ class FromUnixtime(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
         if self.zone:
-- 
2.43.0


From 8808eff282bf3f5cbbced2a7e55a0c4ff2661c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 23/44] fix: register every function when the converter is
 imported

Only the functions of the modules that happened to be imported were known, so
queries using e.g. COALESCE or DATE_TRUNC were rejected by the CLI.
---
 treeno/functions/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..adeaa1e 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,10 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (  # noqa: F401
+    aggregate,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
-- 
2.43.0


From 2e9a95f890e87dff56ee77ac36f6534894492535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 24/44] fix: visit every part of queries, joins, lambdas and
 aggregates

Visitors skipped WITH and ORDER BY clauses and the constraints of aggregates,
and failed on select lists, joins without criteria, lambdas and QDIGEST_AGG.
---
 treeno/functions/aggregate.py | 26 +++++++++++++++++++++++++-
 treeno/relation.py            | 17 +++++++++++++++--
 treeno/visitor.py             |  3 +++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 9f78762..c3d7512 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -80,6 +80,15 @@ class AggregateFunction(Function, ABC):
             return call_str + constraint_string
         return call_str
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
 
 @value_attr
 class UnaryAggregateFunction(AggregateFunction, ABC):
@@ -90,6 +99,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -106,6 +116,7 @@ class BinaryStatsFunction(AggregateFunction, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.x)
         visitor.visit(self.y)
+        super().visit(visitor)
 
 
 @value_attr
@@ -265,6 +276,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        super().visit(visitor)
 
 
 @value_attr
@@ -288,6 +300,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -313,6 +326,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -336,6 +350,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -361,6 +376,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -406,6 +422,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -434,6 +451,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -457,6 +475,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        super().visit(visitor)
 
 
 @value_attr
@@ -478,6 +497,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        super().visit(visitor)
 
 
 @value_attr(init=False)
@@ -519,6 +539,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -566,6 +587,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -591,11 +613,12 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        super().visit(visitor)
 
 
 @value_attr
@@ -619,6 +642,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
diff --git a/treeno/relation.py b/treeno/relation.py
index b0be236..55a3522 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -251,6 +251,13 @@ class Query(Relation, Value, ABC):
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        for query in self.with_:
+            visitor.visit(query)
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+
 
 @value_attr
 class SetQuery(Query, ABC):
@@ -350,6 +357,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        super().visit(visitor)
 
 
 @value_attr
@@ -538,7 +546,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for val in self.select:
+            visitor.visit(val)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -550,6 +559,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        super().visit(visitor)
 
 
 @attr.s
@@ -658,6 +668,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        super().visit(visitor)
 
 
 @value_attr
@@ -724,6 +735,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        super().visit(visitor)
 
 
 @attr.s
@@ -929,7 +941,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..81a60af 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -187,6 +187,9 @@ class TreenoVisitor(Generic[T]):
     def visit_NotEqual(self, node: "NotEqual") -> T:
         ...
 
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
+
     def visit_UnboundedFrameBound(self, node: "UnboundedFrameBound") -> T:
         ...
 
-- 
2.43.0


From 25ff964f4f47faf537fad67f95fe2929cf7262e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 25/44] fix: print unnamed columns and mappings in the CLI

The schema command failed on columns without a name, and tree split up the
names of windows.
---
 treeno/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..e98effe 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -83,7 +83,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
@@ -123,7 +123,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
-- 
2.43.0


From df5b5da32710c6251175a60b07e5fffffe151381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 26/44] fix: bind lambda variables in expressions with
 subqueries

Lambdas could not be read at all if there was a table in one of their
subqueries.
---
 treeno/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index ddc4be7..f591a5d 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -374,6 +374,9 @@ class Lambda(Expression):
     def from_generic_expr(
         cls, inputs: List[Variable], expr: GenericValue
     ) -> "Lambda":
+        # Avoids a circular import
+        from treeno.relation import Query
+
         input_set = set(input.name for input in inputs)
 
         def _from_expr(node: Any) -> Any:
@@ -388,6 +391,9 @@ class Lambda(Expression):
                 )
             if not isinstance(node, Sql):
                 return node
+            # The fields of a subquery are the ones of its own relations
+            if isinstance(node, Query):
+                return node
             if (
                 isinstance(node, Field)
                 and node.table is None
-- 
2.43.0


From 1cc9e72138124033558f25d33380dfa09b972548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 27/44] fix: resolve the columns of relations by name and scope

Qualified references were matched with any column of any relation, columns of
unaliased queries with the same name were merged, common columns of USING and
NATURAL joins were ambiguous, stars stood for one column, named queries were
hidden from later ones and from set queries, VALUES and select lists with
subqueries failed, and set queries took the types of the left query.
---
 treeno/datatypes/resolve.py |  73 ++++++++------
 treeno/relation.py          | 193 ++++++++++++++++++++++++++++--------
 2 files changed, 192 insertions(+), 74 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..920dff5 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,13 +1,13 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List
 
 import attr
 
 from treeno.base import Sql
-from treeno.datatypes.builder import row
+from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.types import DataType
 from treeno.expression import Field, Star
-from treeno.relation import Query, Schema
+from treeno.relation import Query, Schema, SchemaField
 from treeno.util import children, is_dictlike, is_listlike
 
 
@@ -17,46 +17,52 @@ def _make_field(field: Field, schema: Schema) -> Field:
     if isinstance(field.table, Query):
         raise NotImplementedError("Subqueries are not yet supported")
 
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
+    # Dereferences of any other expression don't refer to a relation.
+    if field.table is not None and not isinstance(field.table, str):
+        return Field(
+            name=field.name,
+            table=resolve_fields(field.table, schema),
+            data_type=copy.deepcopy(field.data_type),
+        )
+
+    matching_fields = [
+        f
+        for f in schema.fields
+        if f.name == field.name
+        and (field.table is None or f.source.identifier() == field.table)
+    ]
 
     # If the schema didn't include the field, it should have an unknown type
     if not len(matching_fields):
         return copy.deepcopy(field)
 
     # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
-        ]
-        assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
-    return Field(name=field.name, table=field.table, data_type=dtype)
+    assert (
+        len(matching_fields) == 1
+    ), f"Expected 1 field matching {field}, got {len(matching_fields)}"
+    return Field(
+        name=field.name,
+        table=field.table,
+        data_type=matching_fields[0].data_type,
+    )
+
+
+def star_fields(star: Star, schema: Schema) -> List[SchemaField]:
+    """Finds the fields of the schema that the star stands for. There are none if not all of them are known."""
+    if star.table is None:
+        known_ids = {f.source.identifier() for f in schema.fields}
+        return schema.fields if schema.relation_ids <= known_ids else []
+    return [f for f in schema.fields if f.source.identifier() == star.table]
 
 
 def _make_star(star: Star, schema: Schema) -> Star:
     if isinstance(star.table, Query):
         raise NotImplementedError("Subqueries are not yet supported")
-    matching_fields = schema.fields
-    if star.table is not None:
-        matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
-        ]
-    dtype = row(dtypes=[f.data_type for f in matching_fields])
+    # Dereferences of any other expression don't refer to a relation.
+    if star.table is not None and not isinstance(star.table, str):
+        return copy.deepcopy(star)
+    dtypes = [f.data_type for f in star_fields(star, schema)]
+    dtype = row(dtypes=dtypes) if dtypes else unknown()
     return Star(table=star.table, data_type=dtype)
 
 
@@ -74,6 +80,9 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     # We don't want to modify data types
     if isinstance(node, DataType):
         return copy.deepcopy(node)
+    # Neither do we want to resolve the fields of a subquery, which don't belong to the relation we're dealing with.
+    if isinstance(node, Query):
+        return copy.deepcopy(node)
     if isinstance(node, Field):
         return _make_field(node, schema)
     if isinstance(node, Star):
diff --git a/treeno/relation.py b/treeno/relation.py
index 55a3522..bc0aced 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -44,7 +44,7 @@ schemas. More information can be found in :class:`Relation`.
 import copy
 from abc import ABC, abstractmethod
 from enum import Enum
-from typing import Dict, List, Optional, Set, Type
+from typing import Dict, List, Optional, Set, Type, Union
 
 import attr
 
@@ -56,10 +56,10 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import AliasedStar, Star, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -175,11 +175,21 @@ class Schema:
         relation_ids = copy.copy(self.relation_ids)
         # .. todo:: This is also pretty slow, O(N^2)
         for f in another_schema.fields:
-            if f not in fields:
+            # NOTE: Different fields can look the same, and == doesn't tell queries apart.
+            if not any(f is existing_field for existing_field in fields):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
         return Schema(fields, relation_ids)
 
+    def shadow(self, another_schema: "Schema") -> "Schema":
+        """Merge two schemas, where the relations of the other schema hide the ones with the same name in this one."""
+        fields = [
+            f
+            for f in self.fields
+            if f.source.identifier() not in another_schema.relation_ids
+        ]
+        return Schema(fields, self.relation_ids).merge(another_schema)
+
 
 @value_attr
 class Query(Relation, Value, ABC):
@@ -210,8 +220,8 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
-        """Resolves the queries in WITH statement with context that carries over.
+    def _resolve_with(self, existing_schema: Schema) -> Schema:
+        """Resolves the queries in WITH statement with context that carries over, on top of the existing schema.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
 
@@ -225,10 +235,11 @@ class Query(Relation, Value, ABC):
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
         """
-        merging_schema = Schema.empty_schema()
+        merging_schema = existing_schema
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
+            # NOTE: The named query isn't in a namespace of its own, unlike the query of any other AliasedRelation.
+            new_schema = w._alias_schema(w.relation.resolve(merging_schema))
+            merging_schema = merging_schema.shadow(new_schema)
         return merging_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
@@ -339,19 +350,24 @@ class SetQuery(Query, ABC):
         return spacing.join(stmt for stmt in stmts if stmt)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        existing_schema = self._resolve_with(existing_schema)
+        left_schema = self.left_query.resolve(existing_schema)
+        right_schema = self.right_query.resolve(existing_schema)
+        # The number of columns differs only if not all of them are known, e.g. the ones of a table.
+        same_length = len(left_schema.fields) == len(right_schema.fields)
         # The column names and such are always taken from the left schema.
         schema_fields = []
-        for schema_field in left_schema.fields:
+        for idx, schema_field in enumerate(left_schema.fields):
+            dtype = unknown()
+            if same_length:
+                right_dtype = right_schema.fields[idx].data_type
+                # Either of them may be coerced to the one that's not known
+                if unknown() not in (schema_field.data_type, right_dtype):
+                    dtype = common_supertype(
+                        schema_field.data_type, right_dtype
+                    )
             # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
+            schema_fields.append(SchemaField(schema_field.name, self, dtype))
         return Schema(schema_fields, relation_ids=left_schema.relation_ids)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -378,6 +394,7 @@ class IntersectQuery(SetQuery):
     """
 
     def __attrs_post_init__(self) -> None:
+        super().__attrs_post_init__()
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
@@ -404,6 +421,7 @@ class ExceptQuery(SetQuery):
     """
 
     def __attrs_post_init__(self) -> None:
+        super().__attrs_post_init__()
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
@@ -491,8 +509,9 @@ class SelectQuery(Query):
         from treeno.datatypes.resolve import resolve_fields
 
         # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        schema = Schema.empty_schema()
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
+            existing_schema = self._resolve_with(existing_schema)
             schema = self.from_.resolve(
                 maybe_prune_schema(self.from_, existing_schema)
             )
@@ -501,6 +520,9 @@ class SelectQuery(Query):
 
         schema_fields = []
         for value in self.select:
+            if isinstance(value, (Star, AliasedStar)):
+                schema_fields.extend(self._star_fields(value, schema))
+                continue
             # All schema fields have the source to the current object
             schema_fields.append(
                 SchemaField(
@@ -511,6 +533,27 @@ class SelectQuery(Query):
             )
         return Schema(schema_fields, relation_ids=set())
 
+    def _star_fields(
+        self, value: Union[Star, AliasedStar], schema: Schema
+    ) -> List[SchemaField]:
+        """Creates a field for every column that the star stands for."""
+        from treeno.datatypes.resolve import star_fields
+
+        star = value.star if isinstance(value, AliasedStar) else value
+        fields = star_fields(star, schema)
+        if not fields:
+            return [SchemaField(None, self, value.data_type)]
+        names = [f.name for f in fields]
+        if isinstance(value, AliasedStar):
+            assert len(value.aliases) == len(
+                names
+            ), f"Expected {len(names)} aliases, got {value.aliases}"
+            names = value.aliases
+        return [
+            SchemaField(name, self, f.data_type)
+            for name, f in zip(names, fields)
+        ]
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
@@ -614,12 +657,23 @@ class Table(Relation):
             f
             for f in existing_schema.fields
             if f.source.identifier() == self.identifier()
+            and (self.schema is None or self._is_same_table(f.source))
         ]
+        # A named query isn't referred to by a qualified name
+        if self.schema is not None and not schema_fields:
+            return self._column_schema
         self._column_schema = Schema(
             schema_fields, relation_ids={self.identifier()}
         )
         return self._column_schema
 
+    def _is_same_table(self, relation: Relation) -> bool:
+        return (
+            isinstance(relation, Table)
+            and relation.schema == self.schema
+            and relation.catalog == self.catalog
+        )
+
     def identifier(self) -> Optional[str]:
         return self.name
 
@@ -647,9 +701,13 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        dtypes = [f.data_type for f in self.table._column_schema.fields]
+        if not dtypes:
+            return unknown()
+        # The same special case as the one of SelectQuery
+        if len(dtypes) == 1:
+            return dtypes[0]
+        return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -661,10 +719,13 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
+        with_schema = self._resolve_with(existing_schema)
         table_schema = self.table.resolve(with_schema)
         self.data_type = self._compute_data_type()
-        return table_schema
+        return Schema(
+            [SchemaField(f.name, self, f.data_type) for f in table_schema.fields],
+            relation_ids=set(),
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
@@ -728,8 +789,13 @@ class ValuesQuery(Query):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # ..todo:: Does ValuesQuery dereference anything by itself?
+        # Each of the values is a row, and a value that isn't row-like is a row of a single column.
+        dtypes = [self.data_type]
+        if self.data_type.type_name == type_consts.ROW:
+            dtypes = self.data_type.parameters["dtypes"]
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -793,20 +859,27 @@ class AliasedRelation(Relation):
         return alias_str
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
-        )
-        new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
+        return self._alias_schema(
+            self.relation.resolve(
+                maybe_prune_schema(self.relation, existing_schema)
             )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
-        return Schema(new_schema_fields, relation_ids={self.identifier()})
+        )
+
+    def _alias_schema(self, relation_schema: Schema) -> Schema:
+        names = [f.name for f in relation_schema.fields]
+        dtypes = [f.data_type for f in relation_schema.fields]
+        if self.column_aliases:
+            names = self.column_aliases
+            # There's an alias for each of the columns, so not all of the columns are known.
+            if len(names) != len(dtypes):
+                dtypes = [unknown()] * len(names)
+        return Schema(
+            [
+                SchemaField(name, self, dtype)
+                for name, dtype in zip(names, dtypes)
+            ],
+            relation_ids={self.identifier()},
+        )
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -988,7 +1061,39 @@ class Join(Relation):
             self.right_relation, existing_schema
         )
         right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
+        return self._join_schemas(left_schema, right_schema)
+
+    def _join_schemas(
+        self, left_schema: Schema, right_schema: Schema
+    ) -> Schema:
+        left_fields, right_fields = left_schema.fields, right_schema.fields
+        # The columns of USING and natural joins are selected only once, before any of the other columns
+        names: List[str] = []
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            names = self.config.criteria.column_names
+        elif self.config.natural:
+            right_names = {f.name for f in right_fields if f.name is not None}
+            names = [f.name for f in left_fields if f.name in right_names]
+        common_fields = []
+        for name in names:
+            dtypes = [
+                f.data_type
+                for f in left_fields + right_fields
+                if f.name == name
+            ]
+            # The column isn't in the schema if either of the relations' schemas isn't known
+            dtype = unknown()
+            if len(dtypes) == 2 and unknown() not in dtypes:
+                dtype = common_supertype(dtypes[0], dtypes[1])
+            common_fields.append(SchemaField(name, self, dtype))
+        fields = left_fields + right_fields
+        other_fields = [f for f in fields if f.name not in names]
+        # Relations without any other columns don't have any left to be referred to
+        hidden_ids = {f.source.identifier() for f in fields} - {
+            f.source.identifier() for f in other_fields
+        }
+        relation_ids = left_schema.relation_ids | right_schema.relation_ids
+        return Schema(common_fields + other_fields, relation_ids - hidden_ids)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
@@ -1028,6 +1133,8 @@ class Unnest(Relation):
                 dtypes.append(unknown())
             else:
                 dtypes.append(val.data_type.parameters["dtype"])
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1125,8 +1232,10 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-        return self.relation.resolve(existing_schema)
+        # NOTE: The table sample itself does not affect the namespace scope, but a subquery does
+        return self.relation.resolve(
+            maybe_prune_schema(self.relation, existing_schema)
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.relation)
-- 
2.43.0


From 092868f002c2765d61fd016218d21edd0542b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 28/44] fix: tell nodes of different classes apart in equals

equals only compared the classes of the outermost nodes, e.g. NOT (a < b) was
equal to NOT (a > b).
---
 treeno/base.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..23d8b64 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -58,6 +58,29 @@ class PrintOptions:
     spaces: int = attr.ib(default=4)
 
 
+def _has_equal_content(left: Any, right: Any) -> bool:
+    """Compares nodes by their class and their members, since some of the nodes override ``==``."""
+    if attr.has(type(left)) or attr.has(type(right)):
+        if type(left) is not type(right):
+            return False
+        return all(
+            _has_equal_content(
+                getattr(left, field.name), getattr(right, field.name)
+            )
+            for field in attr.fields(type(left))
+        )
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        return len(left) == len(right) and all(
+            _has_equal_content(left_item, right_item)
+            for left_item, right_item in zip(left, right)
+        )
+    if isinstance(left, dict) and isinstance(right, dict):
+        return left.keys() == right.keys() and all(
+            _has_equal_content(value, right[key]) for key, value in left.items()
+        )
+    return left == right
+
+
 @attr.s
 class Sql(ABC):
     """A base class for all SQL nodes in Treeno.
@@ -141,9 +164,7 @@ class Sql(ABC):
         """
         if not isinstance(other, Sql) or type(self) is not type(other):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        return _has_equal_content(self, other)
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
-- 
2.43.0


From 26fa56c573103be4bf5184bd9652aeb358917d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 29/44] fix: look up tables apart from the columns that UNNEST
 and LATERAL refer to

---
 treeno/relation.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index bc0aced..476f8e0 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -145,10 +145,13 @@ class Schema:
         Relation_ids: A set of relations used to denote the existence of a relation included in the schema.
             This set can contain relations that contains no fields - e.g. for a table with an undefined schema,
             the fields would be empty but the relation would still be in the set
+        outer_fields: Fields of the relations to the left of a correlated relation (:class:`Unnest` or
+            :class:`Lateral`), which can be referred to from within it. Tables are never looked up in them.
     """
 
     fields: List[SchemaField] = attr.ib()
     relation_ids: Set[str] = attr.ib()
+    outer_fields: List[SchemaField] = attr.ib(factory=list)
 
     @classmethod
     def empty_schema(cls) -> "Schema":
@@ -179,7 +182,7 @@ class Schema:
             if not any(f is existing_field for existing_field in fields):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
-        return Schema(fields, relation_ids)
+        return Schema(fields, relation_ids, self.outer_fields)
 
     def shadow(self, another_schema: "Schema") -> "Schema":
         """Merge two schemas, where the relations of the other schema hide the ones with the same name in this one."""
@@ -188,7 +191,15 @@ class Schema:
             for f in self.fields
             if f.source.identifier() not in another_schema.relation_ids
         ]
-        return Schema(fields, self.relation_ids).merge(another_schema)
+        return Schema(fields, self.relation_ids, self.outer_fields).merge(
+            another_schema
+        )
+
+    def with_outer_fields(self, fields: List[SchemaField]) -> "Schema":
+        """Lets a correlated relation refer to the given fields, which hide the outer ones with the same name."""
+        names = {f.name for f in fields}
+        outer_fields = [f for f in self.outer_fields if f.name not in names]
+        return attr.evolve(self, outer_fields=fields + outer_fields)
 
 
 @value_attr
@@ -1054,11 +1065,11 @@ class Join(Relation):
             self.left_relation, existing_schema
         )
         left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
         # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
         # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
         pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
+            self.right_relation,
+            existing_schema.with_outer_fields(left_schema.fields),
         )
         right_schema = self.right_relation.resolve(pruned_right_arg)
         return self._join_schemas(left_schema, right_schema)
@@ -1148,9 +1159,10 @@ class Unnest(Relation):
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
-        # There's no base
+        # Only the fields of the relations to the left can be referred to, and not any table in the namespace
+        outer_schema = Schema(existing_schema.outer_fields, relation_ids=set())
         self.arrays = [
-            resolve_fields(arr, existing_schema) for arr in self.arrays
+            resolve_fields(arr, outer_schema) for arr in self.arrays
         ]
         self.data_type = self._compute_data_type()
         return Schema(
-- 
2.43.0


From e24526dc42a1146df88e5c91f9016db04c9a7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 30/44] fix: take the type of a USING column from one column of
 each side

---
 treeno/relation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 476f8e0..5fccf8f 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1087,15 +1087,15 @@ class Join(Relation):
             names = [f.name for f in left_fields if f.name in right_names]
         common_fields = []
         for name in names:
-            dtypes = [
-                f.data_type
-                for f in left_fields + right_fields
-                if f.name == name
-            ]
+            left_dtypes = [f.data_type for f in left_fields if f.name == name]
+            right_dtypes = [f.data_type for f in right_fields if f.name == name]
             # The column isn't in the schema if either of the relations' schemas isn't known
             dtype = unknown()
-            if len(dtypes) == 2 and unknown() not in dtypes:
-                dtype = common_supertype(dtypes[0], dtypes[1])
+            if (
+                len(left_dtypes) == len(right_dtypes) == 1
+                and unknown() not in left_dtypes + right_dtypes
+            ):
+                dtype = common_supertype(left_dtypes[0], right_dtypes[0])
             common_fields.append(SchemaField(name, self, dtype))
         fields = left_fields + right_fields
         other_fields = [f for f in fields if f.name not in names]
-- 
2.43.0


From 10960b5def6d2291d021dd3ab33d07494e443e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 31/44] fix: accept column aliases of a star over columns that
 are not known

---
 treeno/relation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5fccf8f..bde54cf 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -551,18 +551,22 @@ class SelectQuery(Query):
         from treeno.datatypes.resolve import star_fields
 
         star = value.star if isinstance(value, AliasedStar) else value
-        fields = star_fields(star, schema)
-        if not fields:
-            return [SchemaField(None, self, value.data_type)]
+        # An unnamed field can stand for any number of columns that aren't known
+        fields = star_fields(star, schema) or [
+            SchemaField(None, self, unknown())
+        ]
         names = [f.name for f in fields]
+        dtypes = [f.data_type for f in fields]
         if isinstance(value, AliasedStar):
-            assert len(value.aliases) == len(
-                names
-            ), f"Expected {len(names)} aliases, got {value.aliases}"
             names = value.aliases
+            if len(names) != len(dtypes):
+                assert any(
+                    f.name is None and f.data_type == unknown() for f in fields
+                ), f"Expected {len(dtypes)} aliases, got {names}"
+                dtypes = [unknown()] * len(names)
         return [
-            SchemaField(name, self, f.data_type)
-            for name, f in zip(names, fields)
+            SchemaField(name, self, dtype)
+            for name, dtype in zip(names, dtypes)
         ]
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 4db49c736577abcdb1ec1810fedd21b60e67dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 32/44] fix: show every token in the antlr tree

Going through a string lost parentheses and failed on the ones in literals.
---
 treeno/grammar/parse.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index f16d1a4..0045c78 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from typing import Union
 
 import nltk
 from antlr4 import CommonTokenStream, Token
@@ -6,7 +7,9 @@ from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.Errors import ParseCancellationException
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.tree.Tree import ParseTree
 from antlr4.tree.Trees import Trees
+from antlr4.Utils import escapeWhitespace
 
 try:
     from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer  # type: ignore
@@ -66,10 +69,19 @@ class AST:
         return self.parser().standaloneType()
 
 
-def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
+def _to_nltk_tree(node: ParseTree) -> Union[nltk.Tree, str]:
+    # The tokens can contain spaces and parentheses themselves, so there's no way to go through a string.
+    text = escapeWhitespace(
+        Trees.getNodeText(node, SqlBaseParser.ruleNames), False
+    )
+    if not isinstance(node, ParserRuleContext):
+        return text
+    return nltk.Tree(
+        text, [_to_nltk_tree(child) for child in Trees.getChildren(node)]
     )
+
+
+def tree(ast: AST, node: ParserRuleContext) -> str:
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    _to_nltk_tree(node).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From 175d6bed8b2da644e045a6bb6fc02273db19f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 33/44] fix: show the tree of a type

The tree command always failed on types, which are terminal nodes.
---
 treeno/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/cli.py b/treeno/cli.py
index e98effe..5377f47 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -102,6 +102,9 @@ def treeify(node: Any) -> Any:
 def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sql_obj = get_sql_object(construct_type, sql)
     tree = treeify(sql_obj)
+    # Terminal nodes aren't trees by themselves
+    if not isinstance(tree, Tree):
+        tree = Tree(tree, [])
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-- 
2.43.0


From 46db78eee047ae3ae5b9655dc6ad47115a8e6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 34/44] fix: do not take a star in a select list for a single
 column

---
 treeno/relation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index bde54cf..e064ec7 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -511,6 +511,9 @@ class SelectQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
+        # A star can stand for any number of columns.
+        if any(isinstance(val, (Star, AliasedStar)) for val in self.select):
+            return unknown()
         # Special case: If the select clause only has one output element, it's not a row.
         if len(self.select) == 1:
             return self.select[0].data_type
-- 
2.43.0


From 624cfde470c58a015983a64a432214ba70651457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 35/44] fix: take a row of one value in VALUES for one column

---
 treeno/relation.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index e064ec7..e47fa2d 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -790,11 +790,21 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        dtypes = self._column_data_types()
+        # The same special case as the one of SelectQuery
+        self.data_type = dtypes[0] if len(dtypes) == 1 else row(dtypes=dtypes)
+
+    def _column_data_types(self) -> List[DataType]:
+        # Each of the values is a row, and a value that isn't row-like is a row of a single column.
+        data_type = unknown()
         for val in self.exprs:
-            if self.data_type == unknown():
-                self.data_type = val.data_type
+            if data_type == unknown():
+                data_type = val.data_type
             else:
-                self.data_type = common_supertype(self.data_type, val.data_type)
+                data_type = common_supertype(data_type, val.data_type)
+        if data_type.type_name == type_consts.ROW:
+            return data_type.parameters["dtypes"]
+        return [data_type]
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -807,12 +817,11 @@ class ValuesQuery(Query):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # ..todo:: Does ValuesQuery dereference anything by itself?
-        # Each of the values is a row, and a value that isn't row-like is a row of a single column.
-        dtypes = [self.data_type]
-        if self.data_type.type_name == type_consts.ROW:
-            dtypes = self.data_type.parameters["dtypes"]
         return Schema(
-            [SchemaField(None, self, dtype) for dtype in dtypes],
+            [
+                SchemaField(None, self, dtype)
+                for dtype in self._column_data_types()
+            ],
             relation_ids=set(),
         )
 
-- 
2.43.0


From 556d92cf145846fbbb968271c8b6e5ec95d6ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 36/44] fix: reject lists that must not be empty

---
 treeno/expression.py | 3 +++
 treeno/groupby.py    | 3 +++
 treeno/relation.py   | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index f591a5d..54d8c75 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -332,6 +332,7 @@ class AliasedStar(Value):
     aliases: List[str] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.aliases), "There must be at least one alias for a star"
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
@@ -845,6 +846,7 @@ class InList(Expression):
     exprs: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "exprs must be a non-empty list for IN"
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
@@ -932,6 +934,7 @@ class RowConstructor(Expression):
     values: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values), "values must be a non-empty list for ROW"
         self.data_type = row(dtypes=[value.data_type for value in self.values])
 
     def sql(self, opts: PrintOptions) -> str:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index b897dcf..9e0c578 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -19,6 +19,9 @@ class GroupBy(Sql):
     groups: List[Group] = attr.ib()
     groupby_quantifier: SetQuantifier = attr.ib(factory=SetQuantifier.default)
 
+    def __attrs_post_init__(self) -> None:
+        assert len(self.groups) > 0, "GROUP BY must have at least one group"
+
     def sql(self, opts: PrintOptions) -> str:
         groupby_string = join_stmts(
             [group.sql(opts) for group in self.groups], opts
diff --git a/treeno/relation.py b/treeno/relation.py
index e47fa2d..8179bd2 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -790,6 +790,7 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "Must specify at least one row for VALUES"
         dtypes = self._column_data_types()
         # The same special case as the one of SelectQuery
         self.data_type = dtypes[0] if len(dtypes) == 1 else row(dtypes=dtypes)
@@ -971,6 +972,11 @@ class JoinUsingCriteria(JoinCriteria):
     # both the left and right relations of the join.
     column_names: List[str] = attr.ib()
 
+    def __attrs_post_init__(self) -> None:
+        assert len(
+            self.column_names
+        ), "Must specify at least one column for USING clause"
+
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         column_names = [quote_identifier(name) for name in self.column_names]
         return {"USING": parenthesize(join_stmts(column_names, opts))}
@@ -1151,6 +1157,7 @@ class Unnest(Relation):
     with_ordinality: bool = attr.ib(default=False, kw_only=True)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.arrays), "Must specify at least one array for UNNEST"
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-- 
2.43.0


From 384ffa19ab43d91d3e3129ad6de30a3ad9ab3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 37/44] fix: reject intervals that end in an unknown unit

---
 treeno/expression.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index 54d8c75..62c9b74 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -958,6 +958,15 @@ class Interval(Expression):
     to_interval: Optional[str] = attr.ib(default=None)
 
     def __attrs_post_init__(self) -> None:
+        assert self.to_interval in (
+            None,
+            "YEAR",
+            "MONTH",
+            "DAY",
+            "HOUR",
+            "MINUTE",
+            "SECOND",
+        ), f"Unknown interval type {self.to_interval}"
         if self.from_interval in ("YEAR", "MONTH"):
             self.data_type = interval(from_interval="YEAR", to_interval="MONTH")
         else:
-- 
2.43.0


From d495bf4c968e63ed4b483a6fec8aac027d9c303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 38/44] fix: tell empty identifiers from missing ones

---
 treeno/relation.py | 4 ++--
 treeno/window.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 8179bd2..901e4cb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -656,9 +656,9 @@ class Table(Relation):
     _column_schema: Schema = attr.ib(factory=Schema.empty_schema)
 
     def __attrs_post_init__(self) -> None:
-        if self.catalog:
+        if self.catalog is not None:
             assert (
-                self.schema
+                self.schema is not None
             ), "If a catalog is specified, a schema must be specified as well"
         if self.name not in self._column_schema.relation_ids:
             self._column_schema.relation_ids.add(self.name)
diff --git a/treeno/window.py b/treeno/window.py
index bd14f1a..79fc32e 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -101,7 +101,7 @@ class Window(Sql):
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-        if self.parent_window:
+        if self.parent_window is not None:
             # Empty string for no value on the right side of the river
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
-- 
2.43.0


From 8f43b0054e157e577c7db6d29ba8d367c3e20010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 39/44] fix: reject dereferences of a qualified name with an
 empty qualifier

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 439a776..739ff4e 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -652,7 +652,7 @@ class ConvertVisitor(SqlBaseVisitor):
         if isinstance(primary_expr, Field):
             table = primary_expr.name
             assert (
-                not primary_expr.table
+                primary_expr.table is None
             ), "Treeno currently only supports dereference in the form x or y.x"
         else:
             table = primary_expr
-- 
2.43.0


From e81838468b644af072c27137f0028d7bbffde856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 40/44] fix: reject windows with the same name

---
 treeno/builder/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 739ff4e..7f8a009 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1354,7 +1354,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
+            windows = [
                 self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            ]
+            query_builder.window = dict(windows)
+            assert len(query_builder.window) == len(
+                windows
+            ), f"Window names must be unique, got {[name for name, _ in windows]}"
         return query_builder
-- 
2.43.0


From 3a9cd63ddf9f7b4f2202975f5ff3887ed8b2c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 41/44] fix: reject Unicode escape characters that are digits,
 signs, quotes or blanks

---
 treeno/builder/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7f8a009..7e423e7 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -774,6 +774,9 @@ class ConvertVisitor(SqlBaseVisitor):
         else:
             escape_seq = "\\"
         assert len(escape_seq) == 1, "Escape string must be a single character"
+        assert (
+            "!" <= escape_seq <= "~" and escape_seq not in hexdigits + "+'\""
+        ), f"Invalid escape character {escape_seq}"
         # Strip the U&' prefix and the ' suffix
         text = ctx.UNICODE_STRING().getText()[3:-1].replace("''", "'")
         # The parts between escape characters: the first one has no escape, an empty one means that the escape
-- 
2.43.0


From 7319aab533acf329369d9f9a9e65f57e20676a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 42/44] fix: reject escaped surrogates in Unicode strings

---
 treeno/builder/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7e423e7..365897f 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -798,7 +798,11 @@ class ConvertVisitor(SqlBaseVisitor):
                 assert len(digits) == end - start and all(
                     digit in hexdigits for digit in digits
                 ), f"Invalid escape sequence {escape_seq}{part}"
-                decoded.append(chr(int(digits, 16)) + part[end:])
+                code_point = int(digits, 16)
+                assert (
+                    not 0xD800 <= code_point <= 0xDFFF
+                ), f"Escaped character {digits} is a surrogate"
+                decoded.append(chr(code_point) + part[end:])
         return "".join(decoded)
 
     @overrides
-- 
2.43.0


From 129b295714c403640c81bc523791fb9f5009378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 43/44] fix: update the type of a set query when it is resolved

---
 treeno/relation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index 901e4cb..6fb1d87 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -364,6 +364,7 @@ class SetQuery(Query, ABC):
         existing_schema = self._resolve_with(existing_schema)
         left_schema = self.left_query.resolve(existing_schema)
         right_schema = self.right_query.resolve(existing_schema)
+        self.data_type = self._compute_data_type()
         # The number of columns differs only if not all of them are known, e.g. the ones of a table.
         same_length = len(left_schema.fields) == len(right_schema.fields)
         # The column names and such are always taken from the left schema.
-- 
2.43.0


From efd419bccdf34e4b3f7e4ac132800762f70db7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 44/44] fix: reject types of negative lengths or scales, of
 booleans as numbers and rows without fields

---
 treeno/datatypes/types.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..d39e3f3 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -94,7 +94,10 @@ class DataType(Sql):
                 field.name in self.parameters
             ), f"{field.name} not specified. Required for {self.type_name}"
             field_value = self.parameters[field.name]
-            assert isinstance(field_value, field.type), (
+            # A boolean is an integer in python, but it isn't a precision or a length in SQL
+            assert isinstance(field_value, field.type) and (
+                field.type is bool or not isinstance(field_value, bool)
+            ), (
                 f"Field {field.name} for type {self.type_name} must "
                 f"be of type {field.type.__name__}. "
                 f"Got {type(field_value).__name__} instead with value {field_value})"
@@ -200,15 +203,24 @@ def validate_map(row: DataType) -> None:
 
 def validate_row(row: DataType) -> None:
     data_types = row.parameters["dtypes"]
+    assert data_types, "Rows must have at least one field"
     assert all(
         isinstance(t, DataType) for t in data_types
     ), "dtypes argument must be a list of DataTypes"
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
+    # TODO: Should we validate the scale against the precision as well?
     precision = decimal.parameters["precision"]
     assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert scale >= 0, f"Scale {scale} is not supported"
+
+
+def validate_length(text: DataType) -> None:
+    max_chars = text.parameters.get("max_chars", None)
+    if max_chars is not None:
+        assert max_chars >= 0, f"Length {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -301,4 +313,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_length,
+    CHAR: validate_length,
 }
-- 
2.43.0

