From f56ab9120fff05d85bb2f286250834f9e3192fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/30] =?UTF-8?q?fix:=20keep=20brackets=20when=20writing?=
 =?UTF-8?q?=20a/(b=C2=B7c),=20a/(b/c)=20and=20(a=C2=B7b)^n=20as=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pyudunits2/_expr/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..7ebf8c6 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,7 +101,10 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
-        return f"{self.lhs}^{self.rhs}"
+        lhs = str(self.lhs)
+        if isinstance(self.lhs, BinaryOp):
+            lhs = f"({lhs})"
+        return f"{lhs}^{self.rhs}"
 
 
 class Multiply(BinaryOp):
@@ -111,9 +114,11 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
-        return f"{self.lhs}/{self.rhs}"
+        rhs = str(self.rhs)
+        if isinstance(self.rhs, (Multiply, Divide)):
+            # Without brackets, "a/(b·c)" would read as "(a/b)·c".
+            rhs = f"({rhs})"
+        return f"{self.lhs}/{rhs}"
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From 1203f53662aba8e850d6f669476c655b190ecfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 02/30] fix: superscript exponents are numbers, not text

---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..182840b 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        value = int(normd)
+    except ValueError:
+        # For example, a sign without any digits.
+        raise SyntaxError(f"invalid exponent '{string}'") from None
+    return graph.Number(value, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From 5a200c4baeb49aa7c6363e5f6559b368e2f4f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 03/30] fix: log(re ...) is a base 10 logarithm, as in udunits2

---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..f1425d2 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # In udunits2, "log" is a synonym of "lg".
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From aaf1e145f999a624b53ca91a6a4fc1b21d4743b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/30] fix: the empty unit is the dimensionless unit one

---
 pyudunits2/_unit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..920f750 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -299,6 +299,10 @@ def _unit_from_expression_and_identifiers(
     unit_expr: unit_graph.Node,
     identifier_references: typing.Mapping[Identifier, Unit | Prefix],
 ) -> Unit | DateUnit:
+    if isinstance(unit_expr, unit_graph.Unhandled) and not unit_expr.raw_content:
+        # The empty unit is the dimensionless unit one.
+        unit_expr = unit_graph.Number(1, raw_content="")
+
     if isinstance(unit_expr, unit_graph.Shift):
         # The first shift MAY be a date unit. Any subsequent date shifts
         # will result in an exception during normalisation.
-- 
2.43.0


From 8b6b056136ebd34036ac4ea29bf4ecb24255cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/30] fix: a Converter refuses date units instead of ignoring
 the date

---
 pyudunits2/_unit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 920f750..f9688c2 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -184,6 +184,11 @@ class Converter:
 
         import sympy
 
+        if isinstance(from_unit, DateUnit) or isinstance(to_unit, DateUnit):
+            raise IncompatibleUnitsError(
+                f"Date units are not convertible ({from_unit} to {to_unit})"
+            )
+
         from_dimensionality = from_unit.dimensionality()
         to_dimensionality = to_unit.dimensionality()
 
-- 
2.43.0


From 15cbcdcf5b3fbdd5485ebaef0a27f08a19c3e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/30] fix: a date unit can be written as text

---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index f9688c2..57d1ccf 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -494,6 +494,9 @@ class DateUnit(UnitInterface):
         self._unit = unit
         self._reference_date = reference_date
 
+    def __str__(self):
+        return f"{self._unit} since {self.reference_date}"
+
     def is_convertible_to(self, other: UnitInterface) -> bool:
         # TODO: We can start to do better now that we have rich dates.
         return False
-- 
2.43.0


From 27b4743080fb985f5847bdc2d887493fbad99349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 07/30] fix: derived plural of names ending in a consonant and
 y (henries, not henrys)

---
 pyudunits2/_udunits2_xml_parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..b4a5759 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -88,8 +88,17 @@ class UDUNITS2XMLParser:
             # In the UDUNITS2 XML files, things like meters aren't defined.
             # You have to interpret a name as trivially plural iff there is
             # not a noplural tag.
-            if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
+            if len(singular_name) > 1 and singular_name.endswith(
+                ("s", "ss", "sh", "ch", "x", "z")
+            ):
                 plural_name = singular_name + "es"
+            elif (
+                len(singular_name) > 1
+                and singular_name.endswith("y")
+                and singular_name[-2] not in "aeiou"
+            ):
+                # For example, "gravity" and "gravities".
+                plural_name = singular_name[:-1] + "ies"
             else:
                 plural_name = singular_name + "s"
 
-- 
2.43.0


From 29d7ec78a0747d3b6c2b36aa25ee6b65208e8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/30] =?UTF-8?q?fix:=20a=20prefix=20spelt=20like=20its=20?=
 =?UTF-8?q?unit=20keeps=20its=20value=20(mm=20is=201e-3=20m,=20not=20m?=
 =?UTF-8?q?=C2=B7m)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pyudunits2/_unit_system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..d7cd811 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -233,14 +233,15 @@ class UnitSystem:
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
                         refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_name) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
+                                # The value, not an identifier, since the prefix
+                                # may be spelt like the unit (e.g. "mm").
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_name) :]
                                 ),
@@ -257,14 +258,15 @@ class UnitSystem:
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
                         refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_symbol) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
+                                # The value, not an identifier, since the prefix
+                                # may be spelt like the unit (e.g. "mm").
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_symbol) :]
                                 ),
-- 
2.43.0


From ee876a9eaf92747bbf974ecfd93f6a0037fe2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 09/30] fix: a shift which is not the outermost operation is
 ignored, and nested shifts add up

---
 pyudunits2/_expr/split.py | 31 +++++++++++++++++++++++++++++++
 pyudunits2/_unit.py       |  8 +++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..75012c7 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -4,6 +4,7 @@ import logging
 import typing
 
 from . import graph as unit_graph
+from .substitute import Substitute
 
 _log = logging.getLogger(__name__)
 
@@ -82,3 +83,33 @@ class SplitExpr(unit_graph.Visitor):
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         return unit_graph.Logarithm(function=node.function, term=t1), d1
+
+
+class DropShifts(Substitute):
+    """Remove all shifts from the given expression."""
+
+    def __init__(self):
+        super().__init__({})
+
+    def visit_Shift(self, node: unit_graph.Shift):
+        return self.visit(node.unit)
+
+
+def merge_shifts(node: unit_graph.Node) -> unit_graph.Node:
+    """
+    Leave at most one shift, at the root of the given expression.
+
+    As in UDUNITS2, a shift which isn't the terminating operation is ignored,
+    and a shift of a shifted unit (for example ``degC @ 10``) is their sum.
+
+    """
+    shifts = []
+    while isinstance(node, unit_graph.Shift):
+        shifts.append(node.shift_from.content)
+        node = node.unit
+    node = DropShifts().visit(node)
+    if shifts:
+        node = unit_graph.Shift(
+            node, unit_graph.Number(sum(shifts), raw_content=None)
+        )
+    return node
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 57d1ccf..db0ae3f 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -392,9 +392,9 @@ class Unit(UnitInterface):
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            from ._expr.split import SplitExpr, merge_shifts
 
-            definition = self._expanded_expr()
+            definition = merge_shifts(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
@@ -435,10 +435,8 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
-        r = DimensionalityCounter().visit(d)
+        r = DimensionalityCounter().visit(self._definition)
 
         result = {}
         for identifier, order in r.items():
-- 
2.43.0


From b49539da421ebb3628a8090cfed61e52410db7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 10/30] fix: dimensionless basis units (radian) vanish from
 conversions

---
 pyudunits2/_unit.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index db0ae3f..9f18c89 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -203,8 +203,14 @@ class Converter:
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
 
-        t1, d1 = from_unit._symbolic_definition()
-        t2, d2 = to_unit._symbolic_definition()
+        # A dimensionless basis unit (e.g. radian) has no influence on the value.
+        ones = {
+            sympy.Symbol(name): 1
+            for unit in (from_unit, to_unit)
+            for name in unit._dimensionless_basis_names()
+        }
+        t1, d1 = (expr.subs(ones) for expr in from_unit._symbolic_definition())
+        t2, d2 = (expr.subs(ones) for expr in to_unit._symbolic_definition())
 
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
@@ -420,6 +426,14 @@ class Unit(UnitInterface):
         ).visit(self._definition)
         return result
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        """The basis units which this unit is made of and have no dimension."""
+        result = set()
+        for unit in self._identifier_references.values():
+            if isinstance(unit, Unit):
+                result |= unit._dimensionless_basis_names()
+        return result
+
     def expanded(self) -> str:
         expr = self._expanded_expr()
         # TODO: Simplify & normalise.
@@ -589,6 +603,9 @@ class BasisUnit(NamedUnit):
     def _expanded_expr(self):
         return self._definition
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        return {self._ref} if self._dimensionless else set()
+
     def __str__(self):
         return self._ref
 
-- 
2.43.0


From e128b10dbb740cb175ea0ff5b26fe52cf4ad671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 11/30] fix: refuse a conversion whose expression still
 contains units

---
 pyudunits2/_unit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 9f18c89..2e4c11e 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -235,6 +235,12 @@ class Converter:
         else:
             convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))
 
+        if convert_expr.free_symbols - {orig_qty}:
+            # For example "m lg(re s)", for which there is no numeric conversion.
+            raise IncompatibleUnitsError(
+                f"Units {to_unit} and {from_unit} are not convertible"
+            )
+
         fn = sympy.lambdify(
             orig_qty,
             convert_expr,
-- 
2.43.0


From 36051b653f007c800089fd2e10142700bfe6b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 12/30] fix: the dimensionality of a basis unit is a
 Dimensionality, as for any unit

---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 2e4c11e..61bcb07 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -615,11 +615,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From b3a8e1e04c4be82a3da5a915e631914e6f2bd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 13/30] fix: converting an integer array does not overflow

---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 61bcb07..b29a334 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -255,6 +255,9 @@ class Converter:
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
+        if getattr(getattr(values, "dtype", None), "kind", "") in ("b", "i", "u"):
+            # Array integers would wrap around silently.
+            values = values.astype(float)
         return self._converter(values)
 
 
-- 
2.43.0


From e4c1160ab486105f24225e78aef6c32b857560ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 14/30] fix: a basis unit may have symbols only

---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index b4a5759..4ea5c12 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -222,7 +222,9 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = (
+                    reference.name is not None and reference.name.singular == "second"
+                )
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index b29a334..81eacba 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -592,7 +592,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = names.name.singular if names.name else names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 3da20fae7cf9507ad88c2733ad983dcec55a39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 15/30] fix: microseconds are written with six digits

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..3f21b04 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From 96dcd1ac0522fb42c1309f8f6f25ad49a5c40e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 16/30] fix: equal DateTimes have equal hashes

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 3f21b04..b65b0cd 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -27,7 +27,7 @@ class DateTime:
     time: Time = Time(0, 0)
     tz_offset: Time | str = "UTC"
     #: The original representation of the date time before any parsing.
-    raw_content: str | None = None
+    raw_content: str | None = dataclasses.field(default=None, hash=False)
 
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
-- 
2.43.0


From 949fc9fa9faa322028eb3cd74e6c28ef9f02cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 17/30] fix: a lookup does not register units again, which
 undid earlier replacements

---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index d7cd811..4af59c0 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From c885302ca334f0262e4b2cfd437a56c84ad1b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 18/30] fix: units spelt alike but defined differently are not
 equal

---
 pyudunits2/_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 81eacba..ae1431b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -391,8 +391,9 @@ class Unit(UnitInterface):
 
         assert isinstance(other, Unit)
         # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
-            # Short-circuit identical definitions.
+        if other.expanded() == self.expanded():
+            # Short-circuit identical definitions. Note that the definitions must
+            # be expanded as units of different systems may share their spelling.
             return True
 
         from sympy import simplify, expand
-- 
2.43.0


From 213998b86839635b6f4216999fd8f77a6b149ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 19/30] =?UTF-8?q?fix:=20lexer=20accepts=20the=20non-letter?=
 =?UTF-8?q?=20unit=20symbols=20of=20the=20database=20(%,=20',=20",=20?=
 =?UTF-8?q?=CE=BC,=20=E2=84=83,=20...)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pyudunits2/_grammar/parser/udunits2Lexer.py | 20 +++++++++++++++++++-
 pyudunits2/_grammar/udunits2Lexer.g4.jinja  |  5 +++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/parser/udunits2Lexer.py b/pyudunits2/_grammar/parser/udunits2Lexer.py
index 05cb653..1f3cec9 100644
--- a/pyudunits2/_grammar/parser/udunits2Lexer.py
+++ b/pyudunits2/_grammar/parser/udunits2Lexer.py
@@ -1478,8 +1478,14 @@ def serializedATN():
         95,
         97,
         122,
-        9,
+        18,
         0,
+        34,
+        34,
+        37,
+        37,
+        39,
+        39,
         128,
         128,
         173,
@@ -1496,8 +1502,20 @@ def serializedATN():
         255,
         937,
         937,
+        956,
+        956,
         960,
         960,
+        8242,
+        8243,
+        8451,
+        8451,
+        8457,
+        8457,
+        8486,
+        8486,
+        8491,
+        8491,
         1,
         0,
         32,
diff --git a/pyudunits2/_grammar/udunits2Lexer.g4.jinja b/pyudunits2/_grammar/udunits2Lexer.g4.jinja
index 17cdacd..ed6f8ac 100644
--- a/pyudunits2/_grammar/udunits2Lexer.g4.jinja
+++ b/pyudunits2/_grammar/udunits2Lexer.g4.jinja
@@ -81,6 +81,11 @@ LATIN_SUBSET:
   | '\u00B0'            // Degree symbol °
   | '\u00B5'            // Mu µ
   | 'π' | 'Ω'           // NOTE: Other symbols are allowed, as long as they are defined in the XML.
+  | '%' | '\'' | '"'     // Percent, arc minute and arc second.
+  | '\u2032' | '\u2033' // Prime ′ and double prime ″
+  | '\u03BC'            // Greek mu μ (not the micro sign)
+  | '\u2103' | '\u2109' // ℃ and ℉
+  | '\u2126' | '\u212B' // Ohm sign Ω and angstrom sign Å
 ;
 
 WS : [ ] ;
-- 
2.43.0


From b8544fc030e8e23c33a67ab12030e294d514915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 20/30] fix: converting an int does not depend on it fitting 64
 bits

---
 pyudunits2/_unit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index ae1431b..32e60bd 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -247,6 +247,7 @@ class Converter:
         )
         self.expression = convert_expr
         self._converter = fn
+        self._uses_functions = convert_expr.has(sympy.Function)
 
         # TODO: Check that it is dimensionless.
 
@@ -258,6 +259,9 @@ class Converter:
         if getattr(getattr(values, "dtype", None), "kind", "") in ("b", "i", "u"):
             # Array integers would wrap around silently.
             values = values.astype(float)
+        elif isinstance(values, int) and self._uses_functions:
+            # The numpy functions refuse integers of more than 64 bits.
+            values = float(values)
         return self._converter(values)
 
 
-- 
2.43.0


From b4e2787f79aae8e872678e758207ea32144004d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 21/30] fix: equality of units does not depend on the rounding
 of their factors

---
 pyudunits2/_expr/sympy.py |  6 ++++++
 pyudunits2/_unit.py       | 35 ++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index f1425d2..61f05f4 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -18,6 +18,10 @@ _log = logging.getLogger(__name__)
 
 
 class ToSympy(unit_graph.Visitor):
+    def __init__(self, exact: bool = False):
+        # Whether decimals are represented exactly, rather than as a float.
+        self._exact = exact
+
     if typing.TYPE_CHECKING:
 
         def visit(self, node: unit_graph.Node) -> sympy.core.expr.Expr: ...
@@ -32,6 +36,8 @@ class ToSympy(unit_graph.Visitor):
         if isinstance(node.content, str):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
+            if self._exact:
+                return sympy.Rational(str(node.content))
             return sympy_parse(str(node.content))
         elif isinstance(node.content, (int, float)):
             return sympy_parse(str(node.content))
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 32e60bd..816b4ea 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -402,8 +402,9 @@ class Unit(UnitInterface):
 
         from sympy import simplify, expand
 
-        self_t, self_d = self._symbolic_definition()
-        other_t, other_d = other._symbolic_definition()
+        # Exact numbers, so that the order of the factors has no influence.
+        self_t, self_d = self._build_symbolic_definition(exact=True)
+        other_t, other_d = other._build_symbolic_definition(exact=True)
 
         eq = self_d - other_d
         sim = simplify(eq)
@@ -411,22 +412,26 @@ class Unit(UnitInterface):
 
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
-            from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr, merge_shifts
-
-            definition = merge_shifts(self._expanded_expr())
-            t, d = SplitExpr(definition).visit(definition)
-            if t is not None:
-                transform = ToSympy().visit(t)
-            else:
-                import sympy
+            self._cached_symbolic_definition = self._build_symbolic_definition()
+        return self._cached_symbolic_definition
 
-                transform = sympy.Symbol("value")
+    def _build_symbolic_definition(
+        self, exact: bool = False
+    ) -> tuple[SympyExpr, SympyExpr]:
+        from ._expr.sympy import ToSympy
+        from ._expr.split import SplitExpr, merge_shifts
+
+        to_sympy = ToSympy(exact=exact)
+        definition = merge_shifts(self._expanded_expr())
+        t, d = SplitExpr(definition).visit(definition)
+        if t is not None:
+            transform = to_sympy.visit(t)
+        else:
+            import sympy
 
-            prepared = ToSympy().visit(d)
+            transform = sympy.Symbol("value")
 
-            self._cached_symbolic_definition = transform, prepared
-        return self._cached_symbolic_definition
+        return transform, to_sympy.visit(d)
 
     def _expanded_expr(self) -> Node:
         from ._expr.substitute import Substitute
-- 
2.43.0


From 1efd4e42323d48db86dc050f6eef4648219c0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 22/30] fix: read unit databases without an XML namespace

Their tags were all named '', so that the whole content was ignored.
---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 4ea5c12..35e540b 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,7 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        tag_name = element.tag.rpartition("}")[2]
 
         text = (element.text or "").strip()
         children = []
-- 
2.43.0


From f6aba29a97ea8417ebe99639d3cf9574ea840d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 23/30] fix: comments inside of a unit database are ignored

They raised an AttributeError.
---
 pyudunits2/_udunits2_xml_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 35e540b..a4f04c6 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -145,7 +145,10 @@ class UDUNITS2XMLParser:
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
         with path.open("rt") as fh:
-            tree = etree.parse(fh)
+            # Comments may appear anywhere and have no meaning.
+            tree = etree.parse(
+                fh, etree.XMLParser(remove_comments=True, remove_pis=True)
+            )
         root = tree.getroot()
 
         [unit_system] = root.xpath('//*[local-name()="unit-system"]')
-- 
2.43.0


From 4f5b2a03c4a543cd51e7a3242363a1de03f38f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 24/30] fix: the longest prefix wins whatever the order of
 registration

---
 pyudunits2/_unit_system.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 4af59c0..def97f6 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -78,6 +78,11 @@ class LazilyDefinedUnit:
         # return
 
 
+def _longest_first(prefixes: dict[str, Prefix]) -> list[tuple[str, Prefix]]:
+    # As in UDUNITS-2, independent of the order in which they were added.
+    return sorted(prefixes.items(), key=lambda item: -len(item[0]))
+
+
 class UnitSystem:
     def __init__(
         self,
@@ -224,7 +229,7 @@ class UnitSystem:
             result = unit
 
         if result is None:
-            for prefix_name, prefix in self._prefix_names.items():
+            for prefix_name, prefix in _longest_first(self._prefix_names):
                 if name_or_symbol.startswith(prefix_name):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_name) :]
@@ -249,7 +254,7 @@ class UnitSystem:
                         break
 
         if result is None:
-            for prefix_symbol, prefix in self._prefix_symbols.items():
+            for prefix_symbol, prefix in _longest_first(self._prefix_symbols):
                 if name_or_symbol.startswith(prefix_symbol):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_symbol) :]
-- 
2.43.0


From 7081dea543326c99b45ecb61f22a9cfeee88382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 25/30] fix: the encoding of a unit database does not depend on
 the locale
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Loading the UDUNITS-2 database failed or gave wrong symbols (e.g. for µ)
unless the preferred encoding was UTF-8.
---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index a4f04c6..435072b 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -144,7 +144,8 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        # As bytes, since the document declares its own encoding.
+        with path.open("rb") as fh:
             # Comments may appear anywhere and have no meaning.
             tree = etree.parse(
                 fh, etree.XMLParser(remove_comments=True, remove_pis=True)
-- 
2.43.0


From ff9b578c21719421e394c9857962e7b606328c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 26/30] fix: the shift of a unit isn't rounded to the decimal
 context

Converting from or to an offset unit gave a different value depending on
the precision of the decimal context of the calling thread.
---
 pyudunits2/_expr/split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 75012c7..85302d3 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import decimal
 import logging
 import typing
 
@@ -109,7 +110,10 @@ def merge_shifts(node: unit_graph.Node) -> unit_graph.Node:
         node = node.unit
     node = DropShifts().visit(node)
     if shifts:
+        # The definition of a unit doesn't depend on the caller's precision.
+        with decimal.localcontext(decimal.Context(prec=100)):
+            shift_from = sum(shifts)
         node = unit_graph.Shift(
-            node, unit_graph.Number(sum(shifts), raw_content=None)
+            node, unit_graph.Number(shift_from, raw_content=None)
         )
     return node
-- 
2.43.0


From 52b8d885645c5252246bbe72412ea68c2dadf7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 27/30] fix: masked arrays are converted with integers of more
 than 64 bits

---
 pyudunits2/_unit.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 816b4ea..12d705f 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -247,6 +247,18 @@ class Converter:
         )
         self.expression = convert_expr
         self._converter = fn
+        # Masked arrays turn into arrays of objects when multiplied by integers
+        # of more than 64 bits.
+        large_integers = {
+            n: sympy.Float(n, 17)
+            for n in convert_expr.atoms(sympy.Integer)
+            if 2**63 <= abs(n) < 2**1023
+        }
+        self._array_converter = (
+            sympy.lambdify(orig_qty, convert_expr.xreplace(large_integers))
+            if large_integers
+            else fn
+        )
         self._uses_functions = convert_expr.has(sympy.Function)
 
         # TODO: Check that it is dimensionless.
@@ -262,6 +274,8 @@ class Converter:
         elif isinstance(values, int) and self._uses_functions:
             # The numpy functions refuse integers of more than 64 bits.
             values = float(values)
+        if hasattr(values, "dtype"):
+            return self._array_converter(values)
         return self._converter(values)
 
 
-- 
2.43.0


From f28f846327be6c7ce4db81f38dd2c7829ce9f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:39 +0000
Subject: [PATCH 28/30] fix: the canonical text of a negative zero reads back
 as itself

---
 pyudunits2/_expr/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 7ebf8c6..ba8a3d1 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -64,7 +64,9 @@ class Number(Terminal):
         return self.value
 
     def __str__(self):
-        return str(self.value)
+        text = str(self.value)
+        # The text of an integer, among which there is no negative zero.
+        return "0" if text == "-0" else text
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From 18ef620fa3637520025d9dcec7176c09727869a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:30 +0000
Subject: [PATCH 29/30] fix: invert value transformations directly rather than
 with a general solver

Converting from a scaled logarithmic unit such as '43.05564166 lg(re m)' or
'1e-30 lg(re m)' never came to an end, since the solver evaluates powers of
huge integers when it checks its solution, and shifted logarithms of
logarithms gave expressions which numpy is unable to evaluate.
---
 pyudunits2/_unit.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 12d705f..81a0c42 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -93,6 +93,35 @@ class UnitDefinition:
         pass
 
 
+def _inverse_transform(
+    transform: SympyExpr, symbol: SympyExpr, result: SympyExpr
+) -> SympyExpr:
+    """
+    Solve ``transform == result`` for the given symbol.
+
+    Transformations are made of sums, products and logarithms, in which the
+    symbol appears once. There is no need for a general (and possibly very
+    slow) solver to invert those.
+
+    """
+    import sympy
+
+    while transform != symbol:
+        assert transform.has(symbol)
+        if isinstance(transform, sympy.log):
+            [transform] = transform.args
+            result = sympy.exp(result)
+        elif transform.is_Add:
+            constant, transform = transform.as_independent(symbol, as_Add=True)
+            result = result - constant
+        elif transform.is_Mul:
+            constant, transform = transform.as_independent(symbol, as_Add=False)
+            result = result / constant
+        else:
+            raise NotImplementedError(f"Not implemented for {type(transform)}")
+    return result
+
+
 class Converter:
     def __init__(self, from_unit: Unit, to_unit: Unit):
         """
@@ -226,9 +255,7 @@ class Converter:
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol)
-            assert len(transformer1) == 1
-            [transformer1] = transformer1
+            transformer1 = _inverse_transform(t1, to_symbol, orig_qty)
 
         if is_direct_conversion:
             convert_expr = t2.subs(to_value, transformer1 * d1 / d2)
-- 
2.43.0


From aaabce8a6bc4b001add079a91239204e54731635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:10 +0000
Subject: [PATCH 30/30] fix: numbers beyond the limits of int and Decimal are a
 SyntaxError

---
 pyudunits2/_grammar/__init__.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 182840b..852472b 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -1,5 +1,5 @@
 import unicodedata
-from decimal import Decimal
+from decimal import Context, Decimal, InvalidOperation
 
 from .._expr import graph as graph
 from ._antlr4_runtime import (
@@ -32,6 +32,26 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(value, raw_content=normd)
 
 
+def handle_INT(string):
+    try:
+        value = int(string)
+    except ValueError:
+        # Python limits the number of digits.
+        raise SyntaxError("integer has too many digits") from None
+    return graph.Number(value, raw_content=string)
+
+
+def handle_FLOAT(string):
+    try:
+        # A decimal, in order to preserve precision. The context has no
+        # influence on that.
+        value = Decimal(string, Context(traps=[InvalidOperation]))
+    except InvalidOperation:
+        # Decimals limit the magnitude of the exponent.
+        raise SyntaxError(f"number out of range '{string}'") from None
+    return graph.Number(value, raw_content=string)
+
+
 class UnitParseVisitor(udunits2ParserVisitor):
     """
     A visitor which converts the parse tree into an abstract expression graph.
@@ -46,20 +66,18 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "DATE": str,
         "DIVIDE": "/",  # Drop context, such as " per ".
         "E_POWER": str,
-        "FLOAT": lambda c: graph.Number(
-            value=Decimal(c), raw_content=c
-        ),  # Preserve precision as decimal.
+        "FLOAT": handle_FLOAT,
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-        "INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "INT": handle_INT,
         "LOG": lambda c: c.split("(")[0].strip(),
         "MULTIPLY": None,
         "OPEN_PAREN": None,
         "PERIOD": str,
         "RAISE": None,
         "TIMESTAMP": str,
-        "SIGNED_INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "SIGNED_INT": handle_INT,
         "SHIFT_OP": None,
         "WS": None,
         "UNICODE_EXPONENT": handle_UNICODE_EXPONENT,
-- 
2.43.0

