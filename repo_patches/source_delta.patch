From fde3bc6432e5565dec2ffb9a62aa1c33e0d3edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 01/59] fix: intersect finite numeric sets by equality, not by
 hash

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..9889346 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -123,7 +123,7 @@ class FiniteReal(Set):
         return Union(*intervals)
     def __and__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values & x.values
+            values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, Interval):
             values = {v for v in self.values if v in x}
-- 
2.43.0


From 6a5ecb9376747185aad211d12fdf3513c1d72713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 02/59] fix: equal nominal sets hash alike

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 9889346..77921c3 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -47,7 +47,7 @@ class FiniteNominal(Set):
     def __init__(self, *values, b=None):
         assert values or b
         self.values = frozenset(values)
-        self.b = b
+        self.b = bool(b)
     def __contains__(self, x):
         if self.b:
             return x not in self.values
-- 
2.43.0


From 91bff89c907ac24f7f70b5f3c211b59160b9a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 03/59] fix: intersection of a union with a set that meets
 several intervals in points

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 77921c3..0706bce 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -330,7 +330,7 @@ class Union(Set):
                     return intervalsne[0]
             if not intervalsne:
                 return atoms
-            return Union(atoms, *intervalsne)
+            return reduce(lambda a,b: a|b, intervalsne, atoms)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From b9d0828f0284352dacb7cf824f0c7079b96e86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 04/59] fix: union of numbers with a union that has no
 intervals

---
 src/sets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets.py b/src/sets.py
index 0706bce..ab83739 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -342,6 +342,8 @@ class Union(Set):
             return Union(nominals, self.atoms, *self.intervals)
         if isinstance(x, FiniteReal):
             atoms = self.atoms | x
+            if not self.intervals:
+                return Union(self.nominals, atoms)
             blocks = union_intervals_finite(self.intervals, atoms)
             assert blocks
             if len(blocks) == 1 and self.nominals is EmptySet:
-- 
2.43.0


From 20c195640ca713613aca12d18bca414076bce85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 05/59] fix: complement of a finite set containing an infinity

---
 src/sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index ab83739..248a63f 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -3,7 +3,7 @@
 
 from functools import reduce
 from itertools import chain
-
+from math import isinf
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
@@ -112,7 +112,9 @@ class FiniteReal(Set):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
     def __invert__(self):
-        values = sorted(self.values)
+        values = sorted(v for v in self.values if not isinf(v))
+        if not values:
+            return Interval(-inf, inf)
         intervals = chain(
             # Left-infinity interval.
             [Interval.Ropen(-inf, values[0])],
-- 
2.43.0


From 68959455ab0e53e3ecca202046c9f25560548b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 06/59] fix: upper endpoint of converted intervals

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 248a63f..4548b75 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -433,7 +433,7 @@ def convert_sympy(x):
         return EmptySet
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
-        right = inf if x.right == -inf else x.right
+        right = inf if x.right == inf else x.right
         return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
-- 
2.43.0


From a92d8805686d2f8c8e7430d4660471cb28cefc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 07/59] fix: complemented nominal sets contain only strings

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 4548b75..7b80452 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -50,7 +50,7 @@ class FiniteNominal(Set):
         self.b = bool(b)
     def __contains__(self, x):
         if self.b:
-            return x not in self.values
+            return isinstance(x, str) and x not in self.values
         return x in self.values
     def __invert__(self):
         if not self.values:
-- 
2.43.0


From 17892d3b1d205ee40d31c90b527e0a7932cf24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 08/59] fix: strings are not members of intervals

---
 src/sets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets.py b/src/sets.py
index 7b80452..f0800c1 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -185,6 +185,8 @@ class Interval(Set):
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
+        if isinstance(x, str):
+            return False
         if self.left_open and self.right_open:
             return self.a < x < self.b
         if self.left_open and not self.right_open:
-- 
2.43.0


From f2ac7487629d7001671e1ea57ff53f42bd90ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 09/59] fix: equal intervals hash alike whatever the number
 types of their endpoints

---
 src/sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index f0800c1..251aabb 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -261,7 +261,8 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        x = (self.__class__, float(self.a), float(self.b),
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From 26c7cba6002f611e29b13c1fec9acd601990319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 10/59] fix: number minus transform

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..1419dbc 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From c20ab7cb48b6618174076cc3b16ec6402f6841c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 11/59] fix: value of a logarithm at a point

---
 src/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1419dbc..d112dee 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,9 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        if isinf(x):
+            return oo
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From f8c48e56882ed25bf227175f922a591391560421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 12/59] fix: piecewise transforms are hashable

---
 src/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index d112dee..d162d41 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -704,8 +704,8 @@ class Poly(Transform):
 
 class Piecewise(Transform):
     def __init__(self, subexprs, events):
-        self.subexprs = [make_subexpr(subexpr) for subexpr in subexprs]
-        self.events = [make_event(event) for event in events]
+        self.subexprs = tuple(make_subexpr(subexpr) for subexpr in subexprs)
+        self.events = tuple(make_event(event) for event in events)
         self.symbols = get_piecewise_symbol(self.subexprs, self.events)
         self.domains = get_piecewise_domains(self.events)
     def domain(self):
-- 
2.43.0


From 6d6a5fec6248145131ebf3c188ee970559e40f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 13/59] fix: evaluate piecewise transforms, so variables
 defined by them can be sampled

---
 src/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index d162d41..99a0ac5 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -721,7 +721,10 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        for subexpr, event in zip(self.subexprs, self.events):
+            if event.evaluate(assignment):
+                return subexpr.evaluate(assignment)
+        raise ValueError('%s is undefined on %s' % (str(self), assignment))
     def ffwd(self, x):
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
         return self.subexprs[index].ffwd(x)
-- 
2.43.0


From 22c96c71e58736ffb983da0e8d0c0ad0e8670763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 14/59] fix: negation of contradictory nominal events

---
 src/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 99a0ac5..0f5f524 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -871,6 +871,10 @@ class EventBasic(Event):
         if isinstance(event, EventBasic):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
+                if intersection is EmptySet \
+                        and isinstance(self, EventFiniteNominal) \
+                        and isinstance(event, EventFiniteNominal):
+                    return EventFiniteNominal(self.subexpr, EmptySet)
                 if intersection is EmptySet:
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
@@ -1076,7 +1080,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From 22ae5d55034636e0bfac4cdffabe083fcb9f1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 15/59] fix: exponentials with a base below one are decreasing

---
 src/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index 0f5f524..c5c7b7e 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -266,6 +266,8 @@ class Transform():
         x_val = sympify_number(x)
         if x_val <= 0:
             raise ValueError('Base must be positive, not %s' % (x,))
+        if x_val < 1:
+            return Exponential(-1 * self, 1 / x_val)
         return Exponential(self, x_val)
     def __rpow__(self, x):
         try:
-- 
2.43.0


From f6ffaf5e673131904a707a11fa668f05a47e7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 16/59] fix: numerical polynomial solver on repeated roots,
 constant sign and isolated solutions

---
 src/poly.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..b0bcdea 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -28,6 +28,12 @@ def get_poly_symbol(expr):
     assert len(symbols) == 1
     return symbols[0]
 
+def get_real_roots_numerically(poly, symX):
+    # The square-free part has the same roots, all simple; numerical
+    # root finding does not converge on repeated roots.
+    roots = sympy.Poly(poly, symX).sqf_part().nroots()
+    return sorted([r for r in roots if r.is_real])
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -58,10 +64,9 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    zeros = get_real_roots_numerically(poly, symX)
     if not zeros:
-        return sympy.EmptySet
+        return Reals if poly.subs(symX, 0) < 0 else EmptySet
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -79,7 +84,8 @@ def solve_poly_inequality_numerically(expr, b, strict):
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    points = EmptySet if strict else FiniteReal(*zeros)
+    return make_union(points, *[intervals[i] for i in idxs])
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -126,9 +132,8 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    zeros = get_real_roots_numerically(expr-b, get_poly_symbol(expr))
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From eafd4a4ce3ad3c52f83f0d17a30c367b65bc2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 17/59] fix: queries with memoisation switched off

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..cfd4532 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From f834891ee3e09bf8675170559c085536ec5b0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 18/59] fix: probability of integer variables below a negative
 fraction

---
 src/math_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..5449508 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -1,8 +1,8 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import floor
 from math import isinf
-
 import numpy
 
 from scipy.special import logsumexp
@@ -52,4 +52,4 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+float_to_int = lambda a: a if isinf(a) else int(floor(a))
-- 
2.43.0


From 9f9eb19a839ce8a8945315f0c910b86b1d433d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 19/59] fix: constraining a variable keeps the variables
 derived from it

---
 src/spe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index cfd4532..442e5e0 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -818,8 +818,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
-
+        return AtomicLeaf(self.symbol, x, env=self.env)
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
         e = tuple(self.env.items())
-- 
2.43.0


From 4f35e7e152626926bfd8b97ff34472ee0ebb56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 20/59] fix: density of and constraint on atoms

---
 src/spe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 442e5e0..dbba1f9 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -952,7 +952,11 @@ class AtomicLeaf(LeafSPE):
         interval = event.solve()
         assert self.value in interval, 'Measure zero condition %s' % (event,)
         return self
-
+    def logpdf__(self, x):
+        return 0 if x in self.support else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
+        return self
     def __hash__(self):
         x = (self.__class__, self.symbol, self.value)
         return hash(x)
-- 
2.43.0


From 533cae48852f08170a626acfe1e635fb787a7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 21/59] fix: atoms with different derived variables are
 different

---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index dbba1f9..2e19eff 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -958,12 +958,13 @@ class AtomicLeaf(LeafSPE):
         assert not isinf_neg(self.logpdf__(x))
         return self
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From 44993913f8401c616dc9d0ef00ae55c808a2da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 22/59] fix: draws from an atom do not share one dictionary

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 2e19eff..7ec9b69 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -944,7 +944,7 @@ class AtomicLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, self.value, env=env)
 
     def sample__(self, N, prng):
-        return [{self.symbol : self.value}] * N
+        return [{self.symbol : self.value} for _i in range(N)]
     def logprob__(self, event):
         interval = event.solve()
         return 0 if self.value in interval else -inf
-- 
2.43.0


From a1792b0eaae0a29b9e1e774e31131ee9332c3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 23/59] fix: draws from a mixture come in random order,
 independent of sibling factors

---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 7ec9b69..332ee5b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -242,8 +242,9 @@ class SumSPE(BranchSPE):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
         samples = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(samples))
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From 69f8e755cc41cb244acac26dd0e3ee233e56ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 24/59] fix: density of a nominal outcome of probability zero

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 332ee5b..99b4a30 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -986,7 +986,7 @@ class NominalLeaf(LeafSPE):
         assert allclose(float(sum(self.weights)),  1)
 
     def logpdf__(self, x):
-        if x not in self.dist:
+        if x not in self.dist or self.dist[x] == 0:
             return -inf
         w = self.dist[x]
         return log(w.numerator) - log(w.denominator)
-- 
2.43.0


From 808ab0945ce4ef18e16cda5236d2f80e7a2fa428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 25/59] fix: reject negative weights of nominal outcomes

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 99b4a30..e64551d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -976,6 +976,7 @@ class NominalLeaf(LeafSPE):
     def __init__(self, symbol, dist):
         assert isinstance(symbol, Id)
         assert all(isinstance(x, str) for x in dist)
+        assert all(0 <= w for w in dist.values())
         self.symbol = symbol
         self.dist = {x: Fraction(w) for x, w in dist.items()}
         # Derived attributes.
-- 
2.43.0


From 2574de5f7bcbf105a31de2d2b8ece99d78a77a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 26/59] fix: simplify mixtures of leaves and products

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index e64551d..18dd263 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -358,9 +358,9 @@ class PartialSumSPE(SPE):
         return NotImplemented
 
 def spe_simplify_sum(spe):
-    if isinstance(spe.children[0], LeafSPE):
+    if all(isinstance(c, LeafSPE) for c in spe.children):
         return spe_simplify_sum_leaf(spe)
-    if isinstance(spe.children[0], ProductSPE):
+    if any(isinstance(c, ProductSPE) for c in spe.children):
         return spe_simplify_sum_product(spe)
     assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
 
-- 
2.43.0


From e18e2bcebc673259c41040a7bf31b37b681fb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 27/59] fix: condition continuous variables on events with
 isolated points

---
 src/spe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 18dd263..df11852 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -775,7 +775,9 @@ class RealLeaf(LeafSPE):
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
+            # Points have no mass under a continuous distribution.
+            if not isinstance(self, DiscreteLeaf):
+                return []
             blocks = partition_finite_real_contiguous(values)
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
-- 
2.43.0


From 374f3eaf3594d75d266f6e2a824b240e5090d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 28/59] fix: condition integer variables on sets with
 fractional endpoints

---
 src/spe.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index df11852..edbb24e 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -8,7 +8,9 @@ from fractions import Fraction
 from functools import reduce
 from inspect import getfullargspec
 from itertools import chain
+from math import ceil
 from math import exp
+from math import floor
 from math import log
 
 from .dnf import dnf_factor
@@ -772,6 +774,10 @@ class RealLeaf(LeafSPE):
         raise NotImplementedError()
 
     def flatten_values_contiguous(self, values):
+        if isinstance(self, DiscreteLeaf):
+            values = restrict_integers(values)
+        if values is EmptySet:
+            return []
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
@@ -1050,6 +1056,25 @@ class Memo():
         self.logpdf = {}
         self.constrain = {}
 
+def restrict_integers(values):
+    # Restrict the set, without changing the integers in it, such that finite
+    # values and endpoints of intervals are integers.
+    if isinstance(values, FiniteReal):
+        integers = [v for v in values if float(v) == int(v)]
+        return FiniteReal(*integers) if integers else EmptySet
+    if isinstance(values, Interval):
+        (a, b) = (values.left, values.right)
+        integral_a = int_or_isinf_neg(a)
+        integral_b = int_or_isinf_pos(b)
+        xl = a if integral_a else ceil(a)
+        xu = b if integral_b else floor(b)
+        if xl < xu:
+            return Interval(xl, xu,
+                left_open=integral_a and values.left_open,
+                right_open=integral_b and values.right_open)
+        return FiniteReal(xl) if xl in values else EmptySet
+    return values
+
 def spe_cache_duplicate_subtrees(spe, memo):
     if isinstance(spe, LeafSPE):
         if spe not in memo:
-- 
2.43.0


From f51564fa24640df3a2a64be9d1c12687d2378051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 29/59] fix: memo tables never answer for an expression that no
 longer exists

---
 src/spe.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index edbb24e..306c9f4 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -142,7 +142,7 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        x = MemoId(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
@@ -1049,6 +1049,15 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+class MemoId():
+    # Identity of an SPE; holding the SPE ensures that no later one has its id.
+    def __init__(self, spe):
+        self.spe = spe
+    def __hash__(self):
+        return id(self.spe)
+    def __eq__(self, x):
+        return isinstance(x, MemoId) and self.spe is x.spe
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 694394af68cb452c31604c53fb5f4108a9e0dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 30/59] fix: supports of distributions follow their parameters,
 location and scale

---
 src/distributions.py | 91 +++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..84fd0c2 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -68,7 +68,6 @@ class DistributionMix():
 
 from .sets import Interval
 from .sets import Reals
-from .sets import RealsNeg
 from .sets import RealsPos
 from .sets import inf as oo
 from .spe import ContinuousLeaf
@@ -83,6 +82,10 @@ def UnitIntervalLocScale(kwargs):
     scale = kwargs.get('scale', 1)
     return Interval(loc, loc + scale)
 
+def SupportContinuous(dist, kwargs):
+    (left, right) = dist(**kwargs).support()
+    return Interval(left, right)
+
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
 
@@ -94,7 +97,7 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -149,7 +152,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -219,7 +222,7 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -239,15 +242,7 @@ class genexpon(ContinuousReal):
 class genextreme(ContinuousReal):
     """A generalized extreme value continuous random variable."""
     dist = scipy.stats.genextreme
-    def get_domain(self):
-        c = self.kwargs['c']
-        if c == 0:
-            return Reals
-        elif c > 0:
-            return Interval(-oo, 1/c)
-        elif c < 0:
-            return Interval(1/c, oo)
-        assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class gausshyper(ContinuousReal):
     """A Gauss hypergeometric continuous random variable."""
@@ -267,9 +262,7 @@ class gengamma(ContinuousReal):
 class genhalflogistic(ContinuousReal):
     """A generalized half-logistic continuous random variable."""
     dist = scipy.stats.genhalflogistic
-    def get_domain(self):
-        assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -294,7 +287,7 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -364,7 +357,7 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
@@ -379,7 +372,7 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -394,7 +387,7 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -409,7 +402,7 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -465,7 +458,7 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -490,7 +483,7 @@ class powernorm(ContinuousReal):
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -510,7 +503,7 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -541,17 +534,17 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
@@ -564,12 +557,15 @@ class uniform(ContinuousReal):
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self):
+        loc = self.kwargs.get('loc', 0)
+        scale = self.kwargs.get('scale', 1)
+        return Interval(loc - sympy.pi*scale, loc + sympy.pi*scale)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -584,44 +580,46 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
+    def get_domain(self): return SupportContinuous(self.dist, self.kwargs)
 
 # ==============================================================================
 # DiscreteReal
 
 from .sets import Integers
-from .sets import IntegersPos
-from .sets import IntegersPos0
 from .sets import Range
 from .spe import DiscreteLeaf
 
+def SupportDiscrete(dist, kwargs):
+    (left, right) = dist(**kwargs).support()
+    return Range(left, right)
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -636,35 +634,32 @@ class geom(DiscreteReal):
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
-    def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
-        high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -674,12 +669,12 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return SupportDiscrete(self.dist, self.kwargs)
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From 88518bbc7177eea0021b35268e35f4d466714aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 31/59] fix: leaves with different tables of probabilities are
 different

---
 src/spe.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 306c9f4..7f1cd73 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -828,17 +828,22 @@ class RealLeaf(LeafSPE):
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
         return AtomicLeaf(self.symbol, x, env=self.env)
+    def get_dist_key(self):
+        # Two scipy distributions with the same key are the same distribution.
+        rv = self.dist.dist
+        kwds = tuple(sorted(self.dist.kwds.items()))
+        # Tables from scipy.stats.rv_discrete(values=...).
+        table = (tuple(rv.xk), tuple(rv.pk)) if hasattr(rv, 'xk') else None
+        return (rv.name, self.dist.args, kwds, table)
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
+        d = self.get_dist_key()
         e = tuple(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.dist.dist.name == x.dist.dist.name \
-            and self.dist.args == x.dist.args \
-            and self.dist.kwds == x.dist.kwds \
+            and self.get_dist_key() == x.get_dist_key() \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
-- 
2.43.0


From 9a2ea60b7d10cd5c568c518389ad1267baa9bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 32/59] fix: save and render tables of probabilities

---
 src/compilers/spe_to_dict.py |  5 +++++
 src/compilers/spe_to_sppl.py | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..11702e1 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -45,10 +45,15 @@ def env_to_dict(env):
     return {repr(k): repr(v) for k, v in env.items()}
 
 def scipy_dist_from_dict(dist):
+    # Tables from scipy.stats.rv_discrete(values=...).
+    if 'values' in dist:
+        return scipy.stats.rv_discrete(values=dist['values']).freeze()
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        return {'values': (dist.dist.xk.tolist(), dist.dist.pk.tolist())}
     return {
         'name': dist.dist.name,
         'args': dist.args,
diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..0845d28 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -41,6 +41,19 @@ def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     stream.write('%s%s ~= choice({%s%s%s})' %
         (idt, symbol, dist_op, dist_str, dist_cl))
     stream.write('\n')
+def render_sppl_dist(dist, fwidth):
+    # Tables from scipy.stats.rv_discrete(values=...).
+    if hasattr(dist.dist, 'xk'):
+        dist_pairs = ', '.join([
+            '%s : %s' % (k, float_to_str(v, fwidth))
+            for k, v in zip(dist.dist.xk.tolist(), dist.dist.pk.tolist())
+        ])
+        return 'discrete({%s})' % (dist_pairs,)
+    kwds = ', '.join([
+        '%s=%s' % (k, float_to_str(v, fwidth))
+        for k, v in dist.kwds.items()
+    ])
+    return '%s(%s)' % (dist.dist.name, kwds)
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
         assert len(spe.env) == 1
@@ -52,11 +65,7 @@ def render_sppl_helper(spe, state):
             state.fwidth)
         return state
     if isinstance(spe, RealLeaf):
-        kwds = ', '.join([
-            '%s=%s' % (k, float_to_str(v, state.fwidth))
-            for k, v in spe.dist.kwds.items()
-        ])
-        dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        dist = render_sppl_dist(spe.dist, state.fwidth)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
-- 
2.43.0


From 9746962b0121cc857d7cce8e72ab8455b6c83959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 33/59] fix: openness of interval endpoints is a plain bool

---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 251aabb..0b0c507 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -180,8 +180,8 @@ class Interval(Set):
         assert a < b
         self.a = a
         self.b = b
-        self.left_open = left_open or isinf_neg(self.a)
-        self.right_open = right_open or isinf_pos(self.b)
+        self.left_open = bool(left_open or isinf_neg(self.a))
+        self.right_open = bool(right_open or isinf_pos(self.b))
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
-- 
2.43.0


From 8d677ef3a1d7fb6cd0a58bdbf34db00bc9464a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 34/59] fix: range ends accept sympy numbers

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 0b0c507..5e08024 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -427,7 +427,7 @@ def Range(start, stop):
     assert int_or_isinf_neg(start)
     assert int_or_isinf_pos(stop)
     right_open = start == stop
-    return Interval(start, stop + right_open, right_open=(start == stop))
+    return Interval(start, stop + int(right_open), right_open=(start == stop))
 
 # TODO: Expunge.
 def convert_sympy(x):
-- 
2.43.0


From e82824dc8621fdff80b142b39863a33669e29c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 35/59] fix: exact logarithms when inverting exponentials and
 evaluating logarithms

---
 src/transforms.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index c5c7b7e..5b02c9b 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -2,6 +2,7 @@
 # See LICENSE.txt
 
 from collections import Callable
+from fractions import Fraction
 from functools import reduce
 from itertools import chain
 from itertools import product
@@ -468,7 +469,7 @@ class Exponential(Injective):
             return FiniteReal(oo)
         if y <= 0:
             return FiniteReal(-oo)
-        return FiniteReal(sympy.log(y, self.base))
+        return FiniteReal(log_base(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
             and self.subexpr == x.subexpr \
@@ -505,7 +506,7 @@ class Logarithm(Injective):
         assert x in self.domain()
         if isinf(x):
             return oo
-        return sympy.log(x, self.base) if x > 0 else -oo
+        return log_base(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
@@ -1223,6 +1224,19 @@ def Pow(subexpr, n):
 def expr_in_env(expr, env):
     return env and any(env.get(s,s) != s for s in expr.get_symbols())
 
+def log_base(y, base):
+    """Logarithm of y > 0, as an exact rational number when it is one."""
+    z = sympy.log(y, base)
+    numeric = (int, float, Fraction, sympy.Number)
+    if base in (1, sympy.E) or isinf(y) \
+            or not (isinstance(base, numeric) and isinstance(y, numeric)):
+        return z
+    r = Fraction(float(z)).limit_denominator(12)
+    (y_r, base_r) = (sympy.Rational(y), sympy.Rational(base))
+    if abs(r) <= 1100 and base_r**r.numerator == y_r**r.denominator:
+        return sympy.Rational(r.numerator, r.denominator)
+    return z
+
 def transform_interval(interval, a, b, flip=None):
     return \
         Interval(a, b, interval.left_open, interval.right_open) \
-- 
2.43.0


From 39d6ca1f49d3ccf76dc6b336df86dd7f93f5ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 36/59] fix: negation of disjunctions of contradictory nominal
 events

---
 src/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index 5b02c9b..3c551c4 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -898,6 +898,10 @@ class EventBasic(Event):
         if isinstance(event, EventBasic):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
+                if union is EmptySet \
+                        and isinstance(self, EventFiniteNominal) \
+                        and isinstance(event, EventFiniteNominal):
+                    return EventFiniteNominal(self.subexpr, EmptySet)
                 if union is EmptySet:
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(union, FiniteReal):
-- 
2.43.0


From 4c711e7a2b7d6c6615dee6e2c47b2fe34cd2f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 37/59] fix: repeated roots of polynomials with floating-point
 coefficients

---
 src/poly.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/poly.py b/src/poly.py
index b0bcdea..1a39691 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -28,10 +28,16 @@ def get_poly_symbol(expr):
     assert len(symbols) == 1
     return symbols[0]
 
+def make_exact(expr):
+    return sympy.nsimplify(expr, rational=True)
+
+def has_repeated_roots(expr):
+    return sympy.discriminant(expr, get_poly_symbol(expr)) == 0
+
 def get_real_roots_numerically(poly, symX):
     # The square-free part has the same roots, all simple; numerical
     # root finding does not converge on repeated roots.
-    roots = sympy.Poly(poly, symX).sqf_part().nroots()
+    roots = sympy.Poly(make_exact(poly), symX).sqf_part().nroots()
     return sorted([r for r in roots if r.is_real])
 
 # ==============================================================================
@@ -57,6 +63,10 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     return solve_poly_inequality_numerically(expr, b, strict)
 
 def solve_poly_inequality_symbolically(expr, b, strict):
+    # Repeated roots are lost in floating-point coefficients.
+    poly = expr - b
+    if poly.has(sympy.Float) and has_repeated_roots(make_exact(poly)):
+        (expr, b) = (make_exact(poly), 0)
     expr = (expr < b) if strict else (expr <= b)
     return sympy.solveset(expr, domain=sympy.Reals)
 
-- 
2.43.0


From 9a321824317d604ac867799ad2915022a03d81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 38/59] fix: rational roots of polynomials with floating-point
 coefficients

---
 src/poly.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 1a39691..9a157a7 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -31,8 +31,9 @@ def get_poly_symbol(expr):
 def make_exact(expr):
     return sympy.nsimplify(expr, rational=True)
 
-def has_repeated_roots(expr):
-    return sympy.discriminant(expr, get_poly_symbol(expr)) == 0
+def has_rational_or_repeated_roots(expr):
+    (_c, factors) = sympy.factor_list(expr, get_poly_symbol(expr))
+    return any(k > 1 or sympy.degree(f) == 1 for f, k in factors)
 
 def get_real_roots_numerically(poly, symX):
     # The square-free part has the same roots, all simple; numerical
@@ -63,9 +64,10 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     return solve_poly_inequality_numerically(expr, b, strict)
 
 def solve_poly_inequality_symbolically(expr, b, strict):
-    # Repeated roots are lost in floating-point coefficients.
+    # Floating-point coefficients lose repeated roots, and misplace roots
+    # that have an exact value.
     poly = expr - b
-    if poly.has(sympy.Float) and has_repeated_roots(make_exact(poly)):
+    if poly.has(sympy.Float) and has_rational_or_repeated_roots(make_exact(poly)):
         (expr, b) = (make_exact(poly), 0)
     expr = (expr < b) if strict else (expr <= b)
     return sympy.solveset(expr, domain=sympy.Reals)
-- 
2.43.0


From e3096ead18d0685853479f7eb1448e7fdf8bd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 39/59] fix: intersect intervals whose endpoints are equal
 numbers in different spellings

---
 src/sets.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 5e08024..5e8295b 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -210,25 +210,25 @@ class Interval(Set):
         if isinstance(x, Interval):
             if x == self:
                 return x
-            if (x.a in self) and (x.b in self):
-                return x
-            if (self.a in x) and (self.b in x):
-                return self
-            if x.a in self:
-                if self.b == x.a:
-                    return FiniteReal(x.a) if x.a in x else EmptySet
-                return Interval(x.a, self.b, left_open=x.left_open, right_open=self.right_open)
-            if x.b in self:
-                if self.a == x.b:
-                    return FiniteReal(x.b) if x.b in x else EmptySet
-                return Interval(self.a, x.b, left_open=self.left_open, right_open=x.right_open)
-            if self.a == x.a:
-                left_open = self.left_open or x.left_open
-                return Interval(self.a, self.b, left_open=left_open, right_open=self.right_open)
-            if self.b == x.b:
-                right_open = self.right_open or x.right_open
-                return Interval(self.a, self.b, left_open=self.left_open, right_open=right_open)
-            return EmptySet
+            # Endpoints are compared by < alone, since equal numbers may be
+            # spelled differently (a radical and its decimal expansion).
+            if self.a < x.a:
+                (a, left_open) = (x.a, x.left_open)
+            elif x.a < self.a:
+                (a, left_open) = (self.a, self.left_open)
+            else:
+                (a, left_open) = (self.a, self.left_open or x.left_open)
+            if x.b < self.b:
+                (b, right_open) = (x.b, x.right_open)
+            elif self.b < x.b:
+                (b, right_open) = (self.b, self.right_open)
+            else:
+                (b, right_open) = (self.b, self.right_open or x.right_open)
+            if a < b:
+                return Interval(a, b, left_open=left_open, right_open=right_open)
+            if b < a or left_open or right_open:
+                return EmptySet
+            return FiniteReal(a)
         if isinstance(x, Set):
             return x & self
         return NotImplemented
-- 
2.43.0


From d8f4805ba1d98af8c62dedc9cf84252b648f1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 40/59] fix: finite sets keep one spelling of equal numbers;
 logarithms to floating-point bases are numbers

---
 src/sets.py       | 11 ++++++++++-
 src/transforms.py |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 5e8295b..6349d22 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -12,6 +12,15 @@ from .math_util import isinf_pos
 inf = float('inf')
 oo = inf
 
+def distinct_reals(values):
+    # Equal numbers of different types may hash differently.
+    groups = {}
+    for v in dict.fromkeys(values):
+        group = groups.setdefault(float(v), [])
+        if v not in group:
+            group.append(v)
+    return chain.from_iterable(groups.values())
+
 class Set:
     pass
 
@@ -107,7 +116,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
-        self.values = frozenset(values)
+        self.values = frozenset(distinct_reals(values))
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
diff --git a/src/transforms.py b/src/transforms.py
index 3c551c4..58422c7 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1239,7 +1239,8 @@ def log_base(y, base):
     (y_r, base_r) = (sympy.Rational(y), sympy.Rational(base))
     if abs(r) <= 1100 and base_r**r.numerator == y_r**r.denominator:
         return sympy.Rational(r.numerator, r.denominator)
-    return z
+    # Products of floating-point numbers and logarithms overwhelm SymPy.
+    return z.evalf() if z.has(sympy.Float) else z
 
 def transform_interval(interval, a, b, flip=None):
     return \
-- 
2.43.0


From b25e801bbe7baecf67c041cc9ea3984d6eefb6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 41/59] fix: intervals whose transformed endpoints round to one
 number

---
 src/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index 58422c7..7a8ba3a 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1243,6 +1243,10 @@ def log_base(y, base):
     return z.evalf() if z.has(sympy.Float) else z
 
 def transform_interval(interval, a, b, flip=None):
+    # The images of two very close endpoints may be one floating-point number.
+    if a == b:
+        return EmptySet if interval.left_open or interval.right_open \
+            else FiniteReal(a)
     return \
         Interval(a, b, interval.left_open, interval.right_open) \
         if not flip else \
-- 
2.43.0


From 5c97b5c64156cf6ba90461e296b53e84bdf67d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 42/59] fix: polynomials that SymPy is unable to solve or bound
 symbolically are solved numerically

---
 src/poly.py       | 40 +++++++++++++++++++++++++++++++++++++---
 src/transforms.py |  4 ++--
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 9a157a7..3f7361f 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -8,7 +8,10 @@ from math import isinf
 
 import sympy
 
+from mpmath.libmp.libhyper import NoConvergence
+from sympy.calculus.util import function_range
 from sympy.calculus.util import limit
+from sympy.polys.polyerrors import BasePolynomialError
 
 from .sets import EmptySet
 from .sets import ExtReals
@@ -23,6 +26,10 @@ from .timeout import timeout
 
 TIMEOUT_SYMBOLIC = 5
 
+# Errors of SymPy when it is unable to solve or bound a polynomial.
+SYMBOLIC_FAILURES = (
+    BasePolynomialError, NoConvergence, NotImplementedError, TypeError)
+
 def get_poly_symbol(expr):
     symbols = tuple(get_symbols(expr))
     assert len(symbols) == 1
@@ -38,9 +45,36 @@ def has_rational_or_repeated_roots(expr):
 def get_real_roots_numerically(poly, symX):
     # The square-free part has the same roots, all simple; numerical
     # root finding does not converge on repeated roots.
-    roots = sympy.Poly(make_exact(poly), symX).sqf_part().nroots()
+    if not sympy.Poly(make_exact(poly), symX).domain.is_Numerical:
+        poly = poly.evalf()
+    poly_sqf = sympy.Poly(make_exact(poly), symX).sqf_part()
+    try:
+        roots = poly_sqf.nroots()
+    except NoConvergence:
+        roots = [r.evalf() for r in poly_sqf.real_roots()]
     return sorted([r for r in roots if r.is_real])
 
+# ==============================================================================
+# Range over the real line.
+
+def get_poly_range(expr, symX):
+    # An interval that contains the range and has the same infinite ends;
+    # finite ends are exact whenever they are attained at a rational point.
+    poly = sympy.Poly(make_exact(expr), symX)
+    if not poly.domain.is_Numerical:
+        return function_range(expr, symX, sympy.Reals)
+    if poly.degree() < 1:
+        return sympy.FiniteSet(poly.eval(0))
+    if poly.degree() % 2 == 1:
+        return sympy.Reals
+    roots = poly.diff(symX).real_roots()
+    values = [poly.eval(r) if r.is_Rational else poly.eval(r.evalf())
+        for r in roots]
+    slack = lambda x: 0 if x.is_Rational else 1e-6 * (1 + abs(x))
+    if poly.LC() > 0:
+        return sympy.Interval(min(x - slack(x) for x in values), sympy.oo)
+    return sympy.Interval(-sympy.oo, max(x + slack(x) for x in values))
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -55,7 +89,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_inequality_symbolically(expr, b, strict)
-    except TimeoutError:
+    except (TimeoutError,) + SYMBOLIC_FAILURES:
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
@@ -130,7 +164,7 @@ def solve_poly_equality(expr, b):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_equality_symbolically(expr, b)
-    except TimeoutError:
+    except (TimeoutError,) + SYMBOLIC_FAILURES:
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
diff --git a/src/transforms.py b/src/transforms.py
index 7a8ba3a..3483164 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -12,12 +12,12 @@ import sympy
 
 from sympy.abc import X as symX
 
-from sympy.calculus.util import function_range
 from sympy.calculus.util import limit
 
 from .math_util import isinf_neg
 from .math_util import isinf_pos
 
+from .poly import get_poly_range
 from .poly import solve_poly_equality
 from .poly import solve_poly_inequality
 
@@ -641,7 +641,7 @@ class Poly(Transform):
     def domain(self):
         return ExtReals
     def range(self):
-        result = function_range(self.symexpr, symX, sympy.Reals)
+        result = get_poly_range(self.symexpr, symX)
         if isinstance(result, sympy.FiniteSet):
             return FiniteReal(*[float(x) for x in result.args])
         pos_inf = FiniteReal(oo) if result.right == oo else EmptySet
-- 
2.43.0


From 2baac660764a40a9c97da2e76303dbea16a08eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 43/59] fix: equal components are found by equality, not by
 hash

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 209a8441fc232fcf48cb4218cd060b99c2e35227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 44/59] fix: numerically equal roots do not bound an interval

---
 src/poly.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/poly.py b/src/poly.py
index 3f7361f..e760277 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -52,7 +52,12 @@ def get_real_roots_numerically(poly, symX):
         roots = poly_sqf.nroots()
     except NoConvergence:
         roots = [r.evalf() for r in poly_sqf.real_roots()]
-    return sorted([r for r in roots if r.is_real])
+    zeros = []
+    for r in sorted([r for r in roots if r.is_real]):
+        # Intervals need distinct endpoints.
+        if not zeros or zeros[-1] < r:
+            zeros.append(r)
+    return zeros
 
 # ==============================================================================
 # Range over the real line.
-- 
2.43.0


From 450111e876c4dd68f497c3b7fba2b5c0df48282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 45/59] fix: logarithms of surds to floating-point bases are
 numbers

---
 src/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 3483164..eb76238 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1231,6 +1231,8 @@ def expr_in_env(expr, env):
 def log_base(y, base):
     """Logarithm of y > 0, as an exact rational number when it is one."""
     z = sympy.log(y, base)
+    # Products of floating-point numbers and logarithms overwhelm SymPy.
+    z = z.evalf() if z.has(sympy.Float) and not z.is_Float else z
     numeric = (int, float, Fraction, sympy.Number)
     if base in (1, sympy.E) or isinf(y) \
             or not (isinstance(base, numeric) and isinstance(y, numeric)):
@@ -1239,8 +1241,7 @@ def log_base(y, base):
     (y_r, base_r) = (sympy.Rational(y), sympy.Rational(base))
     if abs(r) <= 1100 and base_r**r.numerator == y_r**r.denominator:
         return sympy.Rational(r.numerator, r.denominator)
-    # Products of floating-point numbers and logarithms overwhelm SymPy.
-    return z.evalf() if z.has(sympy.Float) else z
+    return z
 
 def transform_interval(interval, a, b, flip=None):
     # The images of two very close endpoints may be one floating-point number.
-- 
2.43.0


From 2b562a7430af5a250b48453566eb0022e812c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 46/59] fix: cases of a switch given by an iterator can be
 interpreted more than once

---
 src/compilers/ast_to_spe.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compilers/ast_to_spe.py b/src/compilers/ast_to_spe.py
index 858e419..3bfccc6 100644
--- a/src/compilers/ast_to_spe.py
+++ b/src/compilers/ast_to_spe.py
@@ -106,12 +106,13 @@ class Switch(Command):
     def __init__(self, symbol, values, f):
         self.symbol = symbol
         self.f = f
-        self.values = values
+        # Iterators are consumed only once.
+        self.enumerated = isinstance(values, enumerate)
+        self.values = list(values)
     def interpret(self, spe=None):
-        if isinstance(self.values, enumerate):
-            values = list(self.values)
-            sets = [self.value_to_set(v[1]) for v in values]
-            subcommands = [self.f(*v) for v in values]
+        if self.enumerated:
+            sets = [self.value_to_set(v[1]) for v in self.values]
+            subcommands = [self.f(*v) for v in self.values]
         else:
             sets = [self.value_to_set(v) for v in self.values]
             subcommands = [self.f(v) for v in self.values]
-- 
2.43.0


From a04e31768924042980b35d174207a00bd2ccd45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 47/59] fix: simulate random variables whose parameters are
 counts

---
 src/distributions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index 84fd0c2..0404eaf 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -598,8 +598,15 @@ def SupportDiscrete(dist, kwargs):
     (left, right) = dist(**kwargs).support()
     return Range(left, right)
 
+def integerify(x):
+    return int(x) if isinstance(x, float) and x.is_integer() else x
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        # Counts must be integers to simulate the random variable.
+        self.kwargs = {k: integerify(v) for k, v in self.kwargs.items()}
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
-- 
2.43.0


From 94b94d5a4f7a48c1363320f5208b8ae9c7801363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 48/59] fix: reject constraints on variables that a product
 does not have

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 7f1cd73..80c6a3a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -576,6 +576,7 @@ class ProductSPE(BranchSPE):
 
     @memoize
     def constrain_mem(self, assignment, memo):
+        assert all(s in self.get_symbols() for s in assignment)
         children = []
         for spe in self.children:
             spe_constrain = spe
-- 
2.43.0


From b3fb836169b4e4a33261f0e3f27146ab98defb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 49/59] fix: save atoms whose value is a SymPy number

---
 src/compilers/spe_to_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 11702e1..93cc4aa 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -109,7 +109,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : float(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From b0ae6744773e225cc9a67cd5513dd5c53a312b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 50/59] fix: render derived variables, supports, atoms and
 outcomes as text that can be compiled

---
 src/compilers/spe_to_sppl.py    | 58 ++++++++++++++++++++++++---------
 src/compilers/sppl_to_python.py |  6 ++--
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 0845d28..08ee93f 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,9 +3,12 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
 from io import StringIO
 from math import exp
 
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
@@ -15,15 +18,26 @@ get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, symbols=None):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        self.symbols = symbols or frozenset()
+    def get_branch_var(self):
+        # The name of a new branch variable, not already in the expression.
+        taken = self.symbols.union(name for name, _dist in self.branches)
+        i = len(self.branches)
+        while 'branch_var_%s' % (i,) in taken:
+            i += 1
+        return 'branch_var_%s' % (i,)
+def render_sppl_expr(x):
+    # Source code of a set or transform, where variables appear by name.
+    return re.sub(r'Identity\(\'(\w+)\'\)', r'\1', repr(x))
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%s : %s' % (repr(str(k)), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
@@ -49,9 +63,12 @@ def render_sppl_dist(dist, fwidth):
             for k, v in zip(dist.dist.xk.tolist(), dist.dist.pk.tolist())
         ])
         return 'discrete({%s})' % (dist_pairs,)
+    # Distributions in SPPL take keyword arguments only.
+    shapes = dist.dist.shapes.split(', ') if dist.dist.shapes else []
+    args = dict(zip(shapes + ['loc', 'scale'], dist.args))
     kwds = ', '.join([
         '%s=%s' % (k, float_to_str(v, fwidth))
-        for k, v in dist.kwds.items()
+        for k, v in list(args.items()) + list(dist.kwds.items())
     ])
     return '%s(%s)' % (dist.dist.name, kwds)
 def render_sppl_helper(spe, state):
@@ -64,19 +81,22 @@ def render_sppl_helper(spe, state):
             state.indentation,
             state.fwidth)
         return state
-    if isinstance(spe, RealLeaf):
-        dist = render_sppl_dist(spe.dist, state.fwidth)
+    if isinstance(spe, (AtomicLeaf, RealLeaf)):
+        dist = 'atomic(loc=%s)' % (spe.value,) \
+            if isinstance(spe, AtomicLeaf) \
+            else render_sppl_dist(spe.dist, state.fwidth)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
-        if spe.conditioned:
-            event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
-            state.stream.write('%scondition(%s)' % (idt, event))
+        if isinstance(spe, RealLeaf) and spe.conditioned:
+            support = render_sppl_expr(spe.support)
+            state.stream.write('%scondition(%s << %s)'
+                % (idt, spe.symbol, support))
             state.stream.write('\n')
         for i, (var, expr) in enumerate(spe.env.items()):
             if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
+                state.stream.write('%s%s ~= %s'
+                    % (idt, var, render_sppl_expr(expr)))
                 state.stream.write('\n')
         return state
     if isinstance(spe, ProductSPE):
@@ -88,7 +108,7 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = state.get_branch_var()
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -109,12 +129,20 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    symbols = frozenset(str(s) for s in spe.get_symbols())
+    state = _SPPL_Render_State(fwidth=fwidth, symbols=symbols)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
-    # Write the import.
-    stream.write('from sppl.distributions import *')
-    stream.write('\n')
+    # Write the imports.
+    for line in [
+            'from sympy import E',
+            'from sympy import sqrt',
+            'from sppl.distributions import *',
+            'from sppl.sets import *',
+            'from sppl.transforms import *',
+        ]:
+        stream.write(line)
+        stream.write('\n')
     stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..83f3b9f 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -24,6 +24,8 @@ def __load_spe_distributions():
 
 DISTRIBUTIONS = __load_spe_distributions()
 get_indentation = lambda i: ' ' * i
+# Name of the function of a call, or None for methods and such.
+get_func_name = lambda call: getattr(call.func, 'id', None)
 
 @contextmanager
 def maybe_sequence_block(visitor, value, first=None):
@@ -96,12 +98,12 @@ class SPPL_Visitor(ast.NodeVisitor):
                 self.distributions[d] = None
 
         # Assigning an array.
-        if isinstance(value, ast.Call) and value.func.id == 'array':
+        if isinstance(value, ast.Call) and get_func_name(value) == 'array':
             return self.visit_Assign_array(node)
         # Assigning a distribution.
         if visitor_name.distributions:
             # Assigning distribution (directly).
-            if isinstance(value, ast.Call) and value.func.id in DISTRIBUTIONS:
+            if isinstance(value, ast.Call) and get_func_name(value) in DISTRIBUTIONS:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
             # Assigning distribution (mixture).
             if isinstance(value, ast.BinOp) and isinstance(value.op, ast.BitOr):
-- 
2.43.0


From 2abbbf86aa4047d31c90caeaa5aae26ac2773116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 51/59] fix: mutual information when an event is certain to
 rounding

---
 src/spe.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 80c6a3a..db55a35 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -98,10 +98,15 @@ class SPE():
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
         lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
-        m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
-        m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
-        m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-        m00 = exp(lp00) * (lp00 - (lpA0 + lpB0)) if not isinf_neg(lp00) else 0
+        # A term vanishes when either probability is zero, to rounding.
+        def get_term(lp, lq):
+            if isinf_neg(lp) or isinf_neg(lq):
+                return 0
+            return exp(lp) * (lp - lq)
+        m11 = get_term(lp11, lpA1 + lpB1)
+        m10 = get_term(lp10, lpA1 + lpB0)
+        m01 = get_term(lp01, lpA0 + lpB1)
+        m00 = get_term(lp00, lpA0 + lpB0)
         return m11 + m10 + m01 + m00
     def prob(self, event):
         lp = self.logprob(event)
-- 
2.43.0


From 3da71ca8de631768ff95918f9d5726cd61b89c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 52/59] fix: the support of powernorm is the whole real line

---
 src/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index 0404eaf..e6b2da7 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -478,7 +478,7 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
-- 
2.43.0


From 255a7ed147b45e646f48e6b9145e631fd4fb5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 53/59] fix: density of a continuous variable is zero outside
 its support

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index db55a35..0540bed 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -880,11 +880,11 @@ class ContinuousLeaf(RealLeaf):
     def logpdf__(self, x):
         if isinstance(x, str):
             return -float('inf')
+        if x not in self.support:
+            return -inf
         xf = float(x)
         if not self.conditioned:
             return self.dist.logpdf(xf)
-        if x not in self.support:
-            return -inf
         return self.dist.logpdf(xf) - self.logZ
 
     def logprob_finite__(self, values):
-- 
2.43.0


From dd6d754e84e5c5a157b306a277aeaeb482a40cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 54/59] fix: translate chained comparisons and comparisons
 nested in comparisons

---
 src/compilers/sppl_to_python.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 83f3b9f..9acf9d3 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -297,8 +298,19 @@ def unroll_ifexp(target, node):
 class SPPL_Transformer_Compare(ast.NodeTransformer):
     def visit_Compare(self, node):
         # TODO: Implement or/and.
+        self.generic_visit(node)
         if len(node.ops) > 1:
-            return node
+            # Chained comparisons are conjunctions.
+            operands = [node.left] + node.comparators
+            events = [
+                self.visit_Compare(ast.Compare(
+                    left=copy.deepcopy(operands[i]),
+                    ops=[op],
+                    comparators=[copy.deepcopy(operands[i+1])]))
+                for i, op in enumerate(node.ops)
+            ]
+            return reduce(
+                lambda x, y: ast.BinOp(left=x, op=ast.BitAnd(), right=y), events)
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From a5371353b691f084092227abd512c8a4a2ba1a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 55/59] fix: the target of a switch ends at its first 'in'

---
 src/compilers/sppl_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 9acf9d3..df3833e 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -364,7 +364,7 @@ class SPPL_Compiler():
         source_prime = os.linesep.join(l for l in lines if l.strip())
         source_prime = source_prime.replace('~=', '=')
         source_prime = re.sub(
-            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:',
+            r'^(\s*)switch\s*\((.+?)\)\s*cases\s*\((.+?)\s+in\s+(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
             source_prime, flags=re.MULTILINE)
         return source_prime
-- 
2.43.0


From d9563f6b676c582b3332e9c7f8b4d8d371d6f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 56/59] fix: keep every assignment of a constant in order

---
 src/compilers/sppl_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index df3833e..1675ab4 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -55,7 +55,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.context = ['global']
         self.command = stream or io.StringIO()
         self.imports = []
-        self.constants = OrderedDict()
+        self.constants = []
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
 
@@ -158,7 +158,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if self.distributions:
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
-        self.constants[str_node] = None
+        self.constants.append(str_node)
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
-- 
2.43.0


From 941f2ac77ac7335b631012657454ac4c74ff0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 57/59] fix: identify graph nodes by a counter instead of the
 clock

---
 magics/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 98944fe..f84fc11 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -3,8 +3,8 @@
 
 import os
 import tempfile
-import time
 
+from itertools import count
 from math import exp
 
 import graphviz
@@ -16,7 +16,8 @@ from sppl.spe import ProductSPE
 from sppl.spe import RealLeaf
 from sppl.spe import SumSPE
 
-gensym = lambda: 'r%s' % (str(time.time()).replace('.', ''),)
+symbols = count()
+gensym = lambda: 'r%d' % (next(symbols),)
 
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
-- 
2.43.0


From 90dda43dd6e321c2c11312c8c6c21274b2789b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 58/59] fix: draw the derived variables of atomic leaves

---
 magics/render.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index f84fc11..e13ddb4 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -19,6 +19,13 @@ from sppl.spe import SumSPE
 symbols = count()
 gensym = lambda: 'r%d' % (next(symbols),)
 
+def add_derived(G, root, spe):
+    for k, v in spe.env.items():
+        if k != spe.symbol:
+            roott = gensym()
+            G.add_node(roott, label=str(v), style='filled')
+            G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
         G = nx.DiGraph()
@@ -30,18 +37,14 @@ def render_networkx_graph(spe):
         root = gensym()
         G.add_node(root, label='%s\n%s(%s)'
             % (spe.symbol.token, 'Atomic', str(spe.value)))
+        add_derived(G, root, spe)
         return G
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
         kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
         G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
-        if len(spe.env) > 1:
-            for k, v in spe.env.items():
-                if k != spe.symbol:
-                    roott = gensym()
-                    G.add_node(roott, label=str(v), style='filled')
-                    G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+        add_derived(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
         G = nx.DiGraph()
-- 
2.43.0


From 157a997fbb3821f012c35a30341672f53ab161c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 59/59] fix: accept SymPy infinities as ends of intervals of
 discrete variables

---
 src/math_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_util.py b/src/math_util.py
index 5449508..55b9ece 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -42,14 +42,14 @@ def allclose(values, x):
     return numpy.allclose(values, x)
 
 def isinf_pos(x):
-    return isinf(x) and x > 0
+    return isinf(x) and float(x) > 0
 
 def isinf_neg(x):
-    return isinf(x) and x < 0
+    return isinf(x) and float(x) < 0
 
 def random(x):
     return x or numpy.random
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(floor(a))
+float_to_int = lambda a: float(a) if isinf(a) else int(floor(a))
-- 
2.43.0

