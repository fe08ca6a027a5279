From b648441724f2469049571504c6b940c9c043a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 01/35] fix: even power under an odd-numerator root must keep
 the absolute value

(x**2)**(3/2) became x**3, which has the wrong sign for negative x.
---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..5fe7232 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1334,11 +1334,9 @@ def _multiply_exponents(b: Expr, x1: Expr, x2: Expr) -> Expr:
     exponent inside a radical to another even exponent cancels out the radical
     and results in the absolute value of the base.
     """
-    # TODO: this is not exhausitve, like when x1 and x2 aren't exactly reciprocals.
-    # but i'm fine with this for now.
     if isinstance(x1, Rat) and x1 % 2 == 0:
-        if isinstance(x2, Rat) and x1 == x2.reciprocal():
-            return Abs(b)
+        if isinstance(x2, Rat) and (x2 > 0 or x1 * x2 == 1) and (x1 * x2) % 2 == 1:
+            return Abs(b) ** (x1 * x2)
 
     return b ** (x1 * x2)
 
-- 
2.43.0


From 34bceb83cf0bb70dcf81975f816b25ca54a17d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 02/35] fix: decide exact rational powers without floats

The integer test on n**(1/q) was done on a float, so large numbers were
rounded: sqrt(10**33) became an (inexact) integer.
---
 src/simpy/expr.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 5fe7232..e6dbe56 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -729,6 +729,19 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _integer_power(n: int, x: Fraction) -> Optional[int]:
+    """n**x if that is an integer, otherwise None. Never trusts a float, as those are inexact for large n."""
+    if x.denominator == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+    try:
+        root = round(n ** (1 / x.denominator))
+    except OverflowError:
+        return None
+    return root**x.numerator if root**x.denominator == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -743,14 +756,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _integer_power(b.value.numerator, abs(x.value))
+        den = _integer_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -765,9 +777,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From 33f3e194e4d4a0342ae61d3c88fb717909e1ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 03/35] fix: roots of very large rationals raised OverflowError

Rat.__pow__ evaluated a float power only to throw it away.
---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e6dbe56..dbfd35a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -574,10 +574,8 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
-            value = self.value**other.value
-            if isinstance(value, Fraction):
-                return Rat(value)
+        if isinstance(other, Rat) and other.value.denominator == 1:
+            return Rat(self.value**other.value)
         return super().__pow__(other)
 
     @cast
-- 
2.43.0


From e88a1f7c9670bb91978b04df45b42a3a509333a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 04/35] fix: a product could contain a product after combining
 powers

y*sqrt(-x)*sqrt(-x) was Prod([Prod([-1, x]), y]): not flat, and its -1 was invisible to later operations.
---
 src/simpy/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index dbfd35a..4c35706 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1167,6 +1167,9 @@ class Prod(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         new_terms = _combine_like_terms(terms)
+        while any(isinstance(t, Prod) for t in new_terms):
+            # combining powers can give a product again, ex: sqrt(-x) * sqrt(-x) -> -x
+            new_terms = _combine_like_terms(cls._flatten_terms(new_terms))
 
         if len(new_terms) == 0:
             return Rat(1)
-- 
2.43.0


From 13002cb5808c32982812ea9474c2106c3554ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 05/35] fix: a sum could contain a sum after combining like
 terms

3*(x + y) - 2*(x + y) + z kept x + y as a nested sum.
---
 src/simpy/expr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 4c35706..59aaa3c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -863,6 +863,8 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
             continue
         elif coeff == 1:
             non_constant_terms.append(Prod(non_const_factors1, skip_checks=True))
+        elif coeff == -1 and len(non_const_factors1) == 1 and isinstance(non_const_factors1[0], Sum):
+            non_constant_terms.append(-non_const_factors1[0])  # same as in Prod.__new__
         else:
             non_constant_terms.append(Prod([coeff] + non_const_factors1, skip_checks=True))
 
@@ -898,6 +900,9 @@ class Sum(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         final_terms = _combine_like_terms_sum(terms)
+        while any(isinstance(t, Sum) for t in final_terms):
+            # combining coefficients can give a sum again, ex: 3*(x + y) - 2*(x + y) -> x + y
+            final_terms = _combine_like_terms_sum(cls._flatten_terms(final_terms))
 
         if len(final_terms) == 0:
             return Rat(0)
-- 
2.43.0


From 702c1fae8e148abea06a28d63a3233090e7658a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 06/35] fix: a rational times an equal decimal lost the decimal

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 59aaa3c..6898be2 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1125,7 +1125,8 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
             if not j in decon:
                 decon[j] = deconstruct_power(initial_terms[j])
             other_base, other_expo = decon[j]
-            if other_base == base:
+            # a Rat equals a Float of the same value, but their product has to be a Float
+            if other_base == base and isinstance(other_base, Float) == isinstance(base, Float):
                 is_hit = True
                 expo += other_expo
                 initial_terms[j] = None
-- 
2.43.0


From 6210c83f5d6ed85fc6992244ab0b4de77f624de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 07/35] fix: the derivative of an absolute value had the wrong
 sign for a negative argument

---
 src/simpy/expr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 6898be2..ef51b38 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -2054,8 +2053,7 @@ class Abs(SingleFunc):
         return super().__new__(cls)
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        return self.inner.diff(var) * self / self.inner
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From 4bc8b802d2e253b8bbea81aaab27e7cffa537000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 08/35] fix: the derivative of a logarithm ignored its base

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index ef51b38..f1331cd 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1626,7 +1626,9 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-        return self.inner.diff(var) / self.inner
+        if self.base == e:
+            return self.inner.diff(var) / self.inner
+        return (log(self.inner) / log(self.base)).diff(var)
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
-- 
2.43.0


From 1196f78201d95deb8e9ed0cb0793232b9849db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 09/35] fix: expanding inside a logarithm lost its base

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f1331cd..464abd9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1587,7 +1587,7 @@ class log(Expr):
 
     def _expand(self) -> Expr:
         assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        return self.__class__(self.inner.expand(), self.base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
-- 
2.43.0


From 212bdcb656799df73b2c43314e00b2fb7992dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 10/35] fix: diff returned a ValueError instead of raising it
 when the variable is ambiguous

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 464abd9..f5b0ec8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2082,7 +2082,7 @@ def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
 
 
 @cast
-def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
+def diff(expr: Expr, var: Optional[Symbol] = None) -> Expr:
     """Takes the derivative of expr relative to var. If expr has only one symbol in it, var doesn't need to be specified."""
     if not hasattr(expr, "diff"):
         raise NotImplementedError(f"Differentiation of {expr} not implemented")
@@ -2090,7 +2090,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From c6646b734b005edd03a7b1f6d4c0ac2c1995fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 11/35] fix: the derivative of the constants asin(1) and
 acos(1) was nan

---
 src/simpy/expr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f5b0ec8..1f28dbc 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1990,7 +1990,10 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
-        return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
+        dinner = self.inner.diff(var)
+        if dinner == 0:
+            return Rat(0)
+        return 1 / sqrt(1 - self.inner**2) * dinner
 
     @classproperty
     def _special_values(cls):
@@ -2003,7 +2006,10 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
-        return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
+        dinner = self.inner.diff(var)
+        if dinner == 0:
+            return Rat(0)
+        return -1 / sqrt(1 - self.inner**2) * dinner
 
     @classproperty
     def _special_values(cls):
-- 
2.43.0


From b720307b753f5724c2fc0716842d680b9e01bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 12/35] fix: printing a logarithm with an integer base raised
 NotImplementedError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1f28dbc..f6871b6 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1572,7 +1572,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
-- 
2.43.0


From 85303f2d4470688d5af5ada737a6b93e309591d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 13/35] fix: asin(0), acos(0) and atan(0) raised ValueError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f6871b6..c12607b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1997,7 +1997,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -2013,7 +2013,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2026,7 +2026,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From 0900836b0390f17fb90d64edd5a082c8063e2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 14/35] fix: evalf of any expression with a symbol raised
 TypeError

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c12607b..c97e588 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -803,7 +803,8 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        value = self.subs(subs)
+        return value if isinstance(value, Symbol) else value._evalf({})
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 3724123ad582deeb1f75cf91fd4981afef9ee1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 15/35] fix: evalf of a logarithm ignored its base

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c97e588..e822836 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1634,7 +1634,9 @@ class log(Expr):
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
-- 
2.43.0


From 23f2f10f5c86ca91eeffa74cddc2f96ceba3f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 16/35] fix: evalf of sec, csc and cot raised TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e822836..c014a54 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1823,7 +1823,7 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            return Float(type(self)._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From 43ed158080ecf1e08660d6e5f66b0987b9d539ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 17/35] fix: eq_with_var missed equal expressions whose terms
 are ordered differently, and merged two variables

---
 src/simpy/utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/simpy/utils.py b/src/simpy/utils.py
index 5308dd3..c6409db 100644
--- a/src/simpy/utils.py
+++ b/src/simpy/utils.py
@@ -19,29 +19,17 @@ def random_id(length):
 
 
 def eq_with_var(a: Tuple[Expr, Symbol], b: Tuple[Expr, Symbol]) -> bool:
-    """Checks if 2 expressions are equivalent up to symbol.
+    """Checks if 2 expressions are equivalent up to symbol."""
+    from .regex import replace
 
-    More efficient way of doing replace(a_expr, a_var, b_var) == b_expr
-    """
     a_expr, a_var = a
     b_expr, b_var = b
 
-    def _recursive_call(e1: Expr, e2: Expr) -> bool:
-        if type(e1) != type(e2):
-            return False
-        if isinstance(e1, Symbol):
-            if e1 == a_var:
-                return e2 == b_var
-            return e1 == e2
-        c1 = e1.children()
-        c2 = e2.children()
-        if c1 == [] or c2 == []:
-            return e1 == e2
-        if len(c1) != len(c2):
-            return False
-        return all(_recursive_call(x, y) for x, y in zip(c1, c2))
-
-    return _recursive_call(a_expr, b_expr)
+    # renaming must not merge two different variables
+    if a_var != b_var and (a_expr.contains(b_var) or b_expr.contains(a_var)):
+        return False
+    # the order of terms depends on the names of the symbols, so the expressions can't be compared term by term.
+    return replace(a_expr, a_var, b_var) == b_expr
 
 
 def count_symbols(expr: Expr) -> int:
-- 
2.43.0


From df9deceae617ff3e7f56d9c06361d4db0ad82d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 18/35] fix: adding or multiplying an infinity with a very
 large or very small rational raised OverflowError or gave nan

---
 src/simpy/expr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c014a54..a815070 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -722,8 +722,11 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
 
     if len(consts) == 1:
         return consts[0]
-    else:
-        return Const(operation(c.value for c in consts))
+    values = [c.value for c in consts]
+    if any(isinstance(c, (Infinity, NegInfinity)) for c in consts):
+        # Only the sign of a rational matters next to an infinity, and it might not fit in a float.
+        values = [(v > 0) - (v < 0) if isinstance(v, Fraction) else v for v in values]
+    return Const(operation(values))
 
 
 def _integer_power(n: int, x: Fraction) -> Optional[int]:
-- 
2.43.0


From d5204f14053077fc6afffa577c490c49b07b7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 19/35] fix: abs() of a product with a decimal or infinite
 coefficient raised AttributeError

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a815070..c3520ec 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2074,6 +2074,8 @@ class Abs(SingleFunc):
 
 
 def _is_strictly_positive(expr: Expr) -> bool:
+    if isinstance(expr, Num):
+        return expr >= 0
     if expr._strictly_positive:
         return True
     if isinstance(expr, (Prod, Sum)):
@@ -2081,8 +2083,6 @@ def _is_strictly_positive(expr: Expr) -> bool:
     if isinstance(expr, Power):
         # if base is positive then the power is always positive right
         return _is_strictly_positive(expr.base)
-    if isinstance(expr, Num):
-        return expr >= 0
 
     return False
 
-- 
2.43.0


From f851284b966fe4bfdf8f732da824cc64f6f9bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 20/35] fix: factor() of a sum with decimal coefficients raised
 AttributeError

---
 src/simpy/expr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c3520ec..e1bec7a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1014,8 +1014,9 @@ class Sum(Associative, Expr):
                     common_factors[i] = None
 
         # Factor coeffs
-        common_coeff = abs(coeffs[0])
-        for c in coeffs[1:]:
+        # (decimals and infinities have no common divisor to look for)
+        common_coeff = abs(coeffs[0]) if all(isinstance(c, Rat) for c in coeffs) else None
+        for c in coeffs[1:] if common_coeff else []:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
             if x.value.denominator == 1 or y.value.denominator == 1:
-- 
2.43.0


From 09d0f2bbf8cf5a0a2a6804466fbcab98fe4810b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 21/35] fix: sin^2 + cos^2 simplification kept one of the two
 terms when their factors hold another squared trig function

---
 src/simpy/simplify/simplify.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..c1c42a7 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -101,12 +101,24 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
         # with an optional factor that may or may not be there of a
         s = [is_thing_squared(term, sin) for term in expr.terms]
         c = [is_thing_squared(term, cos) for term in expr.terms]
-        return [el for el in s if el is not None and el in c]
-
-    both_inners = sin_cos_condition(sum)
-    if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
+        # pairs of indices of such terms, each term is used at most once.
+        pairs = []
+        used = set()
+        for i, el in enumerate(s):
+            if el is None or i in used:
+                continue
+            for j, el2 in enumerate(c):
+                if j not in used and el == el2:
+                    pairs.append((i, j, el[1]))
+                    used.update((i, j))
+                    break
+        return pairs
+
+    pairs = sin_cos_condition(sum)
+    if len(pairs) > 0:
+        used = [k for pair in pairs for k in pair[:2]]
+        new_terms = [t for k, t in enumerate(sum.terms) if k not in used]
+        new_terms += [factor for _, _, factor in pairs]
         return Sum(new_terms)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
-- 
2.43.0


From 189979f09b2d8c48346d44b6bcfe5a823c38ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 22/35] fix: expand_logs replaced the base of a logarithm by e

---
 src/simpy/simplify/simplify.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index c1c42a7..de87219 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -33,29 +33,30 @@ def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
     inner = expr.inner
+    base = expr.base
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log(t, base) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log(t, base) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log(abs(term), base) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log(abs(term), base) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From 4c5de2f74d26a821d80ced582ee03b1f62a08190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 23/35] fix: simplify() of a sum of even powers of sec and tan
 raised AssertionError or TypeError

---
 src/simpy/simplify/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index de87219..3ffbdb9 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -355,16 +355,15 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 92fb525f478133f265eeeac7661f4f57eac15806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 24/35] fix: product_to_sum dropped factors of products of
 three or more trig functions with a power among them

---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From 1fa9cffd9af789f3ffbb976c78e63798277b0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 25/35] fix: eq up to a sum used one term of the expression for
 two terms of the pattern

---
 src/simpy/regex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..d5cbc16 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -145,6 +145,11 @@ def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
     for query_term_repr, query_term_values in query_matches.items():
         has_match = False
         for expr_term_repr, matches in query_term_values.items():
+            # A term of expr stands for one query term only, and the matches can't contradict the ones we already chose.
+            if expr_term_repr in accounted_expr_terms:
+                continue
+            if not _matches_eq(matches, {k: v[0] for k, v in final.items()}):
+                continue
             if all(
                 any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
                 for query_term_values2 in query_matches.values()
-- 
2.43.0


From 71335ad93dfeada9d1ef719b197830b6ba04b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 26/35] fix: partial fractions raised ValueError or
 AssertionError when a factor of the denominator is not linear

---
 src/simpy/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..9637161 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -915,6 +915,10 @@ class PartialFractions(Transform):
         d1_list = to_const_polynomial(d1, node.var)
         d2_list = to_const_polynomial(d2, node.var)
 
+        # only linear factors for now
+        if not (d1_list.size == 2 and d2_list.size == 2):
+            return False
+
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
         if inv is None:
-- 
2.43.0


From bfc06de358256458f11ede3d89a4bcd27e1d0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 27/35] fix: completing the square of a perfect square divided
 by zero

---
 src/simpy/transforms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 9637161..104ad83 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -992,6 +992,10 @@ class CompleteTheSquare(Transform):
             except AssertionError:
                 return False
 
+            # 1 / sqrt(perfect square) is 1 / abs(linear), completing the square does not get us any closer to it.
+            if poly.size == 3 and expr.exponent != -1 and poly[1] ** 2 == 4 * poly[0] * poly[2]:
+                return False
+
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
             return poly.size == 3 and poly[1] != 0
@@ -1016,6 +1020,8 @@ class CompleteTheSquare(Transform):
             normalized = poly / norm_factor
             const = normalized[1] / 2
             diff = normalized[0] - const**2
+            if diff == 0:
+                return (node.var + const) ** 2 * norm_factor
             new_expr = (((node.var + const) / sqrt(diff)) ** 2 + 1) * diff * norm_factor
 
             return new_expr
-- 
2.43.0


From 6ae00db27e1c9d99aeed52deda9c8153b5d88798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 28/35] fix: a part of a sum that repeats an integral above was
 dropped from the solution

---
 src/simpy/integration.py | 3 ++-
 src/simpy/transforms.py  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..d0dc6b5 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -307,7 +307,8 @@ def _integrate_safely(node: Node):
             tr.forward(node)
             break
     for child in node.children:
-        _integrate_safely(child)
+        if child.type != "FAILURE":
+            _integrate_safely(child)
 
 
 def _integrate_heuristically(node: Node):
diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 104ad83..a68fbbe 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -82,7 +82,10 @@ class Node:
         if not child.is_filler:
             parents = _parents(self)
             if any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in parents):
-                return
+                if self.type != "AND":
+                    return
+                # the other parts alone do not solve an AND node.
+                child.type = "FAILURE"
         self.children.append(child)
 
     def add_children(self, children: List["Node"]) -> None:
-- 
2.43.0


From 6a27be568aff1e2f1b4a7df73eab1079622728a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 29/35] fix: partial fractions raised AssertionError when the
 factors of a polynomial denominator are not polynomials

---
 src/simpy/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index a68fbbe..70ceb11 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -915,8 +915,11 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            return False
 
         # only linear factors for now
         if not (d1_list.size == 2 and d2_list.size == 2):
-- 
2.43.0


From 4637d676d9eaf2bae9cf3af50b65a7cf20089a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:40 +0000
Subject: [PATCH 30/35] fix: integrating by parts twice divided by zero when
 the second time undoes the first

---
 src/simpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 70ceb11..007f998 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -741,6 +741,9 @@ class ByParts(Transform):
         old_byparts_integrands = [node.expr for node in byparts_parents]
         if integrand2 in old_byparts_integrands:
             return False
+        # it is the same integrand again if only the constant that was pulled out is missing.
+        if isinstance(node.transform, PullConstant) and node.transform._constant * integrand2 in old_byparts_integrands:
+            return False
         return True
 
     def __init__(self):
-- 
2.43.0


From ce356075579a0a9d84a7eb54b0b148c113541d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 31/35] fix: the brackets of sin((x + 1)*(y + 2)) were lost in
 its text

---
 src/simpy/expr.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e1bec7a..73041a5 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1561,10 +1561,7 @@ class SingleFunc(Expr):
 
 
 def _repr(inner: Expr, label: str) -> str:
-    inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
-    return f"{label}({inner_repr})"
+    return f"{label}({inner.__repr__()})"
 
 
 @dataclass
-- 
2.43.0


From ac4bbfbdfc470ceb6e6a236b20a56cb69b087d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 32/35] fix: powers with a reciprocal in the exponent were
 printed without brackets

---
 src/simpy/expr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 73041a5..68708c8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1377,6 +1377,12 @@ class Power(Expr):
                 return "(" + repr(term) + ")"
             return repr(term)
 
+        def _exponent_repr(term):
+            # x^(1/y) isn't x^1/y
+            if isinstance(term, Power) and isinstance(term.exponent, (Rat, Float)) and term.exponent < 0:
+                return "(" + repr(term) + ")"
+            return _term_repr(term)
+
         # represent negative powers as reciprocals
         if self.exponent == Rat(-1):
             return "1/" + _term_repr(self.base)
@@ -1388,7 +1394,7 @@ class Power(Expr):
         if self.exponent == Rat(1, 2):
             return _repr(self.base, "sqrt")
 
-        return f"{_term_repr(self.base)}^{_term_repr(self.exponent)}"
+        return f"{_term_repr(self.base)}^{_exponent_repr(self.exponent)}"
 
     def latex(self) -> str:
         from .latex import bracketfy, group
-- 
2.43.0


From 17a4a62b062bf9947ba407e07aaa3d805aa113a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 33/35] fix: a negative multiple of a power of -1 could not be
 printed

---
 src/simpy/expr.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 68708c8..0b114fb 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1212,13 +1212,9 @@ class Prod(Associative, Expr):
 
         # special case for subtraction:
         if self.is_subtraction:
-            new_prod = self * -1
+            new_prod = self._without_minus()
             if not isinstance(new_prod, Prod):
                 return f"-{_term_repr(new_prod)}"
-            if new_prod.is_subtraction:
-                from .debug.utils import debug_repr
-
-                raise ValueError(f"Cannot get repr of {debug_repr(self)}")
             return "-" + new_prod.__repr__()
 
         numerator, denominator = self.numerator_denominator
@@ -1234,6 +1230,12 @@ class Prod(Associative, Expr):
 
         return "*".join(map(_term_repr, self.terms))
 
+    def _without_minus(self) -> Expr:
+        """-self, for printing. Multiplying by -1 could combine it with a power of -1 instead of cancelling the minus."""
+        coefficient = -self.terms[0]
+        terms = self.terms[1:] if coefficient == 1 else [coefficient] + self.terms[1:]
+        return terms[0] if len(terms) == 1 else Prod(terms, skip_checks=True)
+
     def latex(self) -> str:
         from .latex import bracketfy, group
 
@@ -1244,7 +1246,7 @@ class Prod(Associative, Expr):
 
         # special case for subtraction:
         if self.is_subtraction:
-            new = self * -1
+            new = self._without_minus()
             if not isinstance(new, Prod):
                 return "-" + _term_latex(new)
             return "-" + new.latex()
-- 
2.43.0


From b0279c1eb656356b196307cc2589173ac2b5d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 34/35] fix: a negative decimal raised to a power was printed
 without brackets

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0b114fb..d84fbe8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1095,7 +1095,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and x.value.denominator != 1 or isinstance(x, (Rat, Float)) and x < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From 000b5e663ab43079a49579d84be1aa7de9c09b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 35/35] fix: latex of very large and very small decimals read
 as a multiple of e

---
 src/simpy/expr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d84fbe8..488ef6c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -480,7 +480,9 @@ class Float(Num, Expr):
         self.value = value
 
     def latex(self):
-        return repr(self)
+        # in latex, 1e-05 reads as 1 * e - 05
+        mantissa, _, exponent = repr(self).partition("e")
+        return f"{mantissa} \\cdot 10^{{{int(exponent)}}}" if exponent else mantissa
 
     def abs(self) -> "Float":
         return Float(abs(self.value))
@@ -1402,6 +1404,8 @@ class Power(Expr):
         from .latex import bracketfy, group
 
         def _base_latex(term: Expr):
+            if isinstance(term, Float) and "e" in repr(term):
+                return bracketfy(term)
             if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
                 return bracketfy(term)
             return term.latex()
-- 
2.43.0

