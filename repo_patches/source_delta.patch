From 82b1394c0bca681ec0f790d09b3aae6ae9a8b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/46] fix: subtracting a transform from a number

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..1419dbc 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From d91648a88d3322a890f6d7dc4168b5a0f7781ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 02/46] fix: Logarithm.ffwd returns a number, not a set

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1419dbc..f06a72b 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From 01ea30919093098722c03cd788b4b0b8c3e07bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 03/46] fix: Piecewise is hashable

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index f06a72b..4a8e94a 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -755,7 +755,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From 40d158818afde950c307cc06286bf4b79d09d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 04/46] fix: compound events are false on the complement

---
 src/transforms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 4a8e94a..2c26664 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1062,7 +1062,7 @@ class EventFiniteNominal(EventBasic):
             return self.finv(0)
         if ys == FiniteReal(1):
             return self.finv(1)
-        if ys == FiniteReal(1, 2):
+        if ys == FiniteReal(0, 1):
             return Strings
 
     def __repr__(self):
@@ -1101,9 +1101,12 @@ class EventOr(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_union(*xs_list)
+        return make_union(*xs_list) if y == 1 else make_intersection(*xs_list)
     def invert_finite(self, ys):
         xs_list = [event.invert(ys) for event in self.subexprs]
+        # False iff all subevents are false.
+        if ys == FiniteReal(0):
+            return make_intersection(*xs_list)
         return make_union(*xs_list)
 
     # Event methods.
@@ -1151,9 +1154,12 @@ class EventAnd(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        return make_intersection(*xs_list) if y == 1 else make_union(*xs_list)
     def invert_finite(self, ys):
         xs_list = [event.invert(ys) for event in self.subexprs]
+        # False iff some subevent is false.
+        if ys == FiniteReal(0):
+            return make_union(*xs_list)
         return make_intersection(*xs_list)
 
     # Event methods.
-- 
2.43.0


From 34e3a7f86cc3e43b32e45002bcd4894fe79ea36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 05/46] fix: union of an infinite atom with an unbounded
 interval keeps the atom

---
 src/sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..b7a6c38 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -141,12 +141,14 @@ class FiniteReal(Set):
             # Merge endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
+            if interval.a in values and interval.left_open \
+                    and not isinf_neg(interval.a):
                 values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
+            if interval.b in values and interval.right_open \
+                    and not isinf_pos(interval.b):
                 values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
-- 
2.43.0


From 1e582cbba79f4368c1859e659ca319622ab808a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 06/46] fix: intersecting a union may leave several finite
 pieces

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index b7a6c38..dd80ade 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -332,7 +332,7 @@ class Union(Set):
                     return intervalsne[0]
             if not intervalsne:
                 return atoms
-            return Union(atoms, *intervalsne)
+            return make_union(atoms, *intervalsne)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From 6402f1818fdb2835543b72161754c2e571e0ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 07/46] fix: union of a nominal and finite set with a finite
 set

---
 src/sets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets.py b/src/sets.py
index dd80ade..fd32ab1 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -367,6 +367,8 @@ class Union(Set):
 
 def union_intervals(intervals):
     intervals_sorted = sorted(intervals, key=lambda i:i.a)
+    if not intervals_sorted:
+        return []
     blocks = [intervals_sorted[0]]
     for interval in intervals_sorted[1:]:
         interval_union = blocks[-1] | interval
-- 
2.43.0


From 43aa15460f54dbb447f162d44c082b0a82c1b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 08/46] fix: equal sets have equal hashes

---
 src/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index fd32ab1..a8a448b 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -92,7 +92,7 @@ class FiniteNominal(Set):
             and bool(self.b) == bool(x.b) \
             and self.values == x.values
     def __hash__(self):
-        x = (self.__class__, self.values, self.b)
+        x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
         str_values = ', '.join(repr(x) for x in self.values)
@@ -259,7 +259,8 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        x = (self.__class__, self.a, self.b,
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From 8441df8434976c77ea1f19cf9420ccec660783eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 09/46] fix: equal leaves have equal hashes

---
 src/spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..0c3b636 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -821,8 +821,8 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
-        e = tuple(self.env.items())
+        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()))
+        e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
@@ -1025,7 +1025,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
-- 
2.43.0


From e15be0350666a27c0680fb94323df174e0f6563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 10/46] fix: leaves over different atoms are not equal

---
 src/spe.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 0c3b636..a9932e1 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -821,7 +821,8 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()))
+        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()),
+            get_dist_atoms(self.dist))
         e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
@@ -831,6 +832,7 @@ class RealLeaf(LeafSPE):
             and self.dist.dist.name == x.dist.dist.name \
             and self.dist.args == x.dist.args \
             and self.dist.kwds == x.dist.kwds \
+            and get_dist_atoms(self.dist) == get_dist_atoms(x.dist) \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
@@ -1057,6 +1059,13 @@ def spe_cache_duplicate_subtrees(spe, memo):
         return memo[spe]
     assert False, '%s is not an spe' % (spe,)
 
+def get_dist_atoms(dist):
+    # The atoms of scipy.stats.rv_discrete(values=(xk, pk)), whose frozen
+    # distribution does not record them in args or kwds.
+    return (
+        tuple(getattr(dist.dist, 'xk', ())),
+        tuple(getattr(dist.dist, 'pk', ())))
+
 def func_evaluate(spe, func, samples):
     args = func_symbols(spe, func)
     sample_kwargs = [{X.token: s[X] for X in args} for s in samples]
-- 
2.43.0


From 41264fd163a3fe9128116f6c91ba79fd01849947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 11/46] fix: distributions over given atoms convert to and from
 dict

---
 src/compilers/spe_to_dict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..51b73c3 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -45,10 +45,16 @@ def env_to_dict(env):
     return {repr(k): repr(v) for k, v in env.items()}
 
 def scipy_dist_from_dict(dist):
+    if dist['name'] == 'rv_discrete':
+        return scipy.stats.rv_discrete(**dist['kwds']).freeze()
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        # Distribution over given atoms.
+        values = [[float(v) for v in dist.dist.xk], [float(v) for v in dist.dist.pk]]
+        return {'name': 'rv_discrete', 'args': (), 'kwds': {'values': values}}
     return {
         'name': dist.dist.name,
         'args': dist.args,
-- 
2.43.0


From 77924f5ee4293c344230ec590af035a94aeafcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 12/46] fix: sum of transforms with symbolic constants

---
 src/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 2c26664..5688b8a 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -102,8 +102,8 @@ class Transform():
         if poly_x.subexpr != poly_self.subexpr:
             raise ValueError('Incompatible subexpressions in "%s + %s"'
                 % (str(self), x))
-        sym_poly_a = sympy.Poly(poly_self.symexpr)
-        sym_poly_b = sympy.Poly(poly_x.symexpr)
+        sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
+        sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a + sym_poly_b
         coeffs = sym_poly_c.all_coeffs()[::-1]
         return Poly(poly_self.subexpr, coeffs)
-- 
2.43.0


From e9d9eb65ba893d37b5a794fdf555e5c3c96097d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 13/46] fix: dict round trip of transforms with symbolic
 constants

---
 src/compilers/spe_to_dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 51b73c3..41f7e27 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -7,6 +7,9 @@ from fractions import Fraction
 
 import scipy.stats
 from sympy import E
+from sympy import exp
+from sympy import log
+from sympy import pi
 from sympy import sqrt
 
 from ..spe import AtomicLeaf
-- 
2.43.0


From 8cc9c59ced3b031adcf67afb83c73ee63a8d61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 14/46] fix: partitioning distinguishes values whose hashes
 collide

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From b272508e757cb90b1ef6c07134ecf29d5c50c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 15/46] fix: rounding of negative non-integer endpoints

---
 src/math_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..98bf960 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -1,6 +1,7 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import floor
 from math import isinf
 
 import numpy
@@ -52,4 +53,4 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+float_to_int = lambda a: a if isinf(a) else int(floor(a))
-- 
2.43.0


From 014808bc01cf2fce34c2ad42034f43e69178f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 16/46] fix: condition a discrete variable on non-integer
 bounds

---
 src/spe.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index a9932e1..2fcd0e3 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -888,10 +888,11 @@ class DiscreteLeaf(RealLeaf):
     atomic = True
     def __init__(self, symbol, dist, support, conditioned=None, env=None):
         super().__init__(symbol, dist, support, conditioned, env)
-        assert int_or_isinf_neg(support.left)
-        assert int_or_isinf_pos(support.right)
-        self.xl = float_to_int(support.left) + 1*bool(support.left_open)
-        self.xu = float_to_int(support.right) - 1*bool(support.right_open)
+        # Smallest and largest integers in the support.
+        offsetl = support.left_open or not int_or_isinf_neg(support.left)
+        offsetr = support.right_open and int_or_isinf_pos(support.right)
+        self.xl = float_to_int(support.left) + 1*bool(offsetl)
+        self.xu = float_to_int(support.right) - 1*bool(offsetr)
         if conditioned:
             self.Fl = self.dist.cdf(self.xl - 1)
             self.Fu = self.dist.cdf(self.xu)
-- 
2.43.0


From 6ab84d6bab876550effd3c8971d330b722234e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 17/46] fix: density of a zero-weight outcome

---
 src/spe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 2fcd0e3..239f41a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -987,6 +987,8 @@ class NominalLeaf(LeafSPE):
         if x not in self.dist:
             return -inf
         w = self.dist[x]
+        if w == 0:
+            return -inf
         return log(w.numerator) - log(w.denominator)
 
     def transform(self, symbol, expr):
-- 
2.43.0


From 8778c03a1d6d17230e9940ed3fc287a980175b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 18/46] fix: constraining a leaf keeps its derived variables

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 239f41a..af7cbfb 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -818,7 +818,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()),
-- 
2.43.0


From 93b09718a6a17fd37b3628467ad684b588f3edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 19/46] fix: atomic leaves support density queries and
 constraints

---
 src/spe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index af7cbfb..411419a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -956,6 +956,11 @@ class AtomicLeaf(LeafSPE):
         interval = event.solve()
         assert self.value in interval, 'Measure zero condition %s' % (event,)
         return self
+    def logpdf__(self, x):
+        return 0 if x in self.support else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
+        return self
 
     def __hash__(self):
         x = (self.__class__, self.symbol, self.value)
-- 
2.43.0


From 0138ca45d54c437c438016dd47c7a2f5b5543a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 20/46] fix: conditioning an atomic leaf on a null event raises
 ValueError

---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 411419a..918cb0f 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -954,7 +954,8 @@ class AtomicLeaf(LeafSPE):
         return 0 if self.value in interval else -inf
     def condition__(self, event):
         interval = event.solve()
-        assert self.value in interval, 'Measure zero condition %s' % (event,)
+        if self.value not in interval:
+            raise ValueError('Zero probability condition %s' % (event,))
         return self
     def logpdf__(self, x):
         return 0 if x in self.support else -inf
-- 
2.43.0


From 70c83da04e52e1e8c47d79f892018bf0fa85ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 21/46] fix: samples of an atomic leaf are distinct
 dictionaries

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 918cb0f..d9ffc7e 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -948,7 +948,7 @@ class AtomicLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, self.value, env=env)
 
     def sample__(self, N, prng):
-        return [{self.symbol : self.value}] * N
+        return [{self.symbol : self.value} for _i in range(N)]
     def logprob__(self, event):
         interval = event.solve()
         return 0 if self.value in interval else -inf
-- 
2.43.0


From 20b2ebc016f1e065ff07f8cf2b0dd6d4bdf154d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 22/46] fix: atomic leaves with different derived variables are
 not equal

---
 src/spe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d9ffc7e..db5477e 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -964,12 +964,14 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        e = frozenset(self.env.items())
+        x = (self.__class__, self.symbol, self.value, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From 7ac92434a7906f4e181aa6b6e1417c4cf74372f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 23/46] fix: queries with caching disabled receive the event

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index db5477e..a6220ac 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From ed62741f746ba002557961a7f9a2c97c606bbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 24/46] fix: samples of a mixture are in random order

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index a6220ac..31cc59e 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -241,9 +241,9 @@ class SumSPE(BranchSPE):
     def sample_many(self, func, N, prng=None):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
-        samples = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(func(i, counts[i]) for i in counts))
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From 3e4183a7643ea6d4bea0309854324cd2296894ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 25/46] fix: unbounded symbolic intervals convert to unbounded
 intervals

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index a8a448b..2ecd4ec 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -434,7 +434,7 @@ def convert_sympy(x):
         return EmptySet
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
-        right = inf if x.right == -inf else x.right
+        right = inf if x.right == inf else x.right
         return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
-- 
2.43.0


From 29380efc35d69a1495da5283e1fc517665c17b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 26/46] fix: timeout restores the previous alarm handler

---
 src/timeout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/timeout.py b/src/timeout.py
index 7ac7d70..706b1de 100644
--- a/src/timeout.py
+++ b/src/timeout.py
@@ -11,7 +11,8 @@ class timeout:
     def handle_timeout(self, signum, frame):
         raise TimeoutError(self.error_message)
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
+        self.handler = signal.signal(signal.SIGALRM, self.handle_timeout)
         signal.alarm(self.seconds)
     def __exit__(self, type, value, traceback):
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, self.handler)
-- 
2.43.0


From 22e61482acbd60efcb69e992244c8d1cd3fb55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 27/46] fix: exponentials with base below one are decreasing

---
 src/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 5688b8a..ae3cd79 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -351,7 +351,9 @@ class Injective(Transform):
         (a, b) = (ys.left, ys.right)
         a_prime = next(iter(self.finv(a)))
         b_prime = next(iter(self.finv(b)))
-        ys_prime = transform_interval(ys, a_prime, b_prime)
+        ys_prime = transform_interval(ys, a_prime, b_prime) \
+            if a_prime < b_prime else \
+            transform_interval(ys, b_prime, a_prime, flip=True)
         return self.subexpr.invert(ys_prime)
 
 class Identity(Injective):
@@ -463,9 +465,9 @@ class Exponential(Injective):
         if not y in self.range():
             return EmptySet
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if self.base > 1 else oo)
         return FiniteReal(sympy.log(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
-- 
2.43.0


From cc831919c2c14adcbdf523103f4bda7209176363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 28/46] fix: evaluate piecewise transforms

---
 src/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index ae3cd79..bfe8116 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -721,7 +721,12 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        (symbol,) = self.symbols
+        x = symbol.evaluate(assignment)
+        for subexpr, domain in zip(self.subexprs, self.domains):
+            if x in domain:
+                return subexpr.evaluate(assignment)
+        raise ValueError('Cannot evaluate %s on %s' % (str(self), assignment))
     def ffwd(self, x):
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
         return self.subexprs[index].ffwd(x)
-- 
2.43.0


From 18a6ba4336f6480c2c8c5754e7dbfffbca9a83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 29/46] fix: numerical solutions of inequalities without sign
 changes

---
 src/poly.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..bfe8088 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -59,9 +59,10 @@ def solve_poly_inequality_numerically(expr, b, strict):
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
     roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    zeros = sorted(set(r for r in roots if r.is_real))
     if not zeros:
-        return sympy.EmptySet
+        # The sign is constant.
+        return Reals if poly.subs(symX, 0) < 0 else EmptySet
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -79,7 +80,8 @@ def solve_poly_inequality_numerically(expr, b, strict):
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    zeros_set = EmptySet if strict else FiniteReal(*zeros)
+    return make_union(zeros_set, *[intervals[i] for i in idxs])
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -128,7 +130,7 @@ def solve_poly_equality_symbolically(expr, b):
 def solve_poly_equality_numerically(expr, b):
     roots = sympy.nroots(expr-b)
     zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From bd98168b36e0f13074fc7905c9a76746987db503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 30/46] fix: the negation of an impossible nominal event is
 certain

---
 src/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index bfe8116..3de3f6d 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -874,6 +874,9 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
@@ -1078,7 +1081,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = ~self.values if self.values is not EmptySet else Strings
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From 25f1b885c8da6bda6157fb6bcb4ab1ac32b47193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 31/46] fix: intersection of finite sets compares values by
 equality

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 2ecd4ec..a9a71e9 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -123,7 +123,7 @@ class FiniteReal(Set):
         return Union(*intervals)
     def __and__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values & x.values
+            values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, Interval):
             values = {v for v in self.values if v in x}
-- 
2.43.0


From 426dd1996a4ce2d9a7ccd08b08197414129ebb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 32/46] fix: supports of gumbel_l, genlogistic, powernorm,
 tukeylambda, loggamma, cosine, kstwobign, hypergeom

---
 src/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..7c3d4d3 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -149,7 +149,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
+    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -219,7 +219,7 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -294,7 +294,7 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -364,7 +364,7 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
@@ -394,7 +394,7 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return Reals
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -485,7 +485,7 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
@@ -551,7 +551,7 @@ class truncnorm(ContinuousReal):
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
@@ -637,7 +637,7 @@ class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
     def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
+        low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
         return Range(low, high)
 
-- 
2.43.0


From 0819f292cc58ddca19ca476ccf24b27801817c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 33/46] fix: supports of bounded and half-bounded distributions
 follow loc and scale

---
 src/distributions.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 7c3d4d3..6204867 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -83,6 +83,11 @@ def UnitIntervalLocScale(kwargs):
     scale = kwargs.get('scale', 1)
     return Interval(loc, loc + scale)
 
+def IntervalLocScale(kwargs, a, b):
+    loc = kwargs.get('loc', 0)
+    scale = kwargs.get('scale', 1)
+    return Interval(loc + scale*a, loc + scale*b)
+
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
 
@@ -94,7 +99,7 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
+    def get_domain(self): return IntervalLocScale(self.kwargs, -sympy.pi/4, sympy.pi/4)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -149,7 +154,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return IntervalLocScale(self.kwargs, -sympy.pi, sympy.pi)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -244,9 +249,9 @@ class genextreme(ContinuousReal):
         if c == 0:
             return Reals
         elif c > 0:
-            return Interval(-oo, 1/c)
+            return IntervalLocScale(self.kwargs, -oo, 1/c)
         elif c < 0:
-            return Interval(1/c, oo)
+            return IntervalLocScale(self.kwargs, 1/c, oo)
         assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
@@ -269,7 +274,7 @@ class genhalflogistic(ContinuousReal):
     dist = scipy.stats.genhalflogistic
     def get_domain(self):
         assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
+        return IntervalLocScale(self.kwargs, 0, 1./self.kwargs['c'])
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -379,7 +384,7 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return IntervalLocScale(self.kwargs, -oo, 0)
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -409,7 +414,7 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(self.kwargs, self.kwargs['a'], self.kwargs['b'])
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -465,7 +470,7 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
+    def get_domain(self): return IntervalLocScale(self.kwargs, 1, oo)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -490,7 +495,7 @@ class powernorm(ContinuousReal):
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return IntervalLocScale(self.kwargs, -1, 1)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -510,7 +515,7 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return IntervalLocScale(self.kwargs, -1, 1)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -541,12 +546,12 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(self.kwargs, 0, self.kwargs['b'])
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(self.kwargs, self.kwargs['a'], self.kwargs['b'])
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
@@ -569,7 +574,7 @@ class vonmises(ContinuousReal):
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return IntervalLocScale(self.kwargs, -sympy.pi, sympy.pi)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -584,12 +589,12 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return IntervalLocScale(self.kwargs, -oo, 0)
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
+    def get_domain(self): return IntervalLocScale(self.kwargs, 0, 2*sympy.pi)
 
 # ==============================================================================
 # DiscreteReal
-- 
2.43.0


From 8e710c72de9af4fc97273de2776e7e6c42d7cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 34/46] fix: supports of discrete distributions follow loc

---
 src/distributions.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 6204867..49ff64c 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -605,28 +605,32 @@ from .sets import IntegersPos0
 from .sets import Range
 from .spe import DiscreteLeaf
 
+def RangeLoc(kwargs, start, stop):
+    loc = kwargs.get('loc', 0)
+    return Range(loc + start, loc + stop)
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
+    def get_domain(self): return RangeLoc(self.kwargs, 0, 1)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['N'])
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -644,32 +648,34 @@ class hypergeom(DiscreteReal):
     def get_domain(self):
         low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
+        return RangeLoc(self.kwargs, low, high)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
+    def get_domain(self): return Interval.Ropen(
+        self.kwargs['low'] + self.kwargs.get('loc', 0),
+        self.kwargs['high'] + self.kwargs.get('loc', 0))
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -679,12 +685,12 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From b66ee9480cffb3168fe1b1ec53009ad317032858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 35/46] fix: chained comparisons and Boolean operators in SPPL
 conditions

---
 src/compilers/sppl_to_python.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..7e567ea 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -292,11 +293,28 @@ def unroll_ifexp(target, node):
         expr.orelse = [ast.Assign(target, node.orelse)]
     return expr
 
+def reduce_binop(op, nodes):
+    return reduce(lambda x, y: ast.BinOp(left=x, op=op(), right=y), nodes)
+
 class SPPL_Transformer_Compare(ast.NodeTransformer):
+    def visit_BoolOp(self, node):
+        self.generic_visit(node)
+        op = ast.BitAnd if isinstance(node.op, ast.And) else ast.BitOr
+        return reduce_binop(op, node.values)
+    def visit_UnaryOp(self, node):
+        self.generic_visit(node)
+        if isinstance(node.op, ast.Not):
+            return ast.UnaryOp(op=ast.Invert(), operand=node.operand)
+        return node
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
         if len(node.ops) > 1:
-            return node
+            # Conjunction of the adjacent comparisons.
+            lefts = [node.left] + node.comparators[:-1]
+            compares = [
+                self.visit_Compare(ast.Compare(left, [op], [right]))
+                for left, op, right in zip(lefts, node.ops, node.comparators)
+            ]
+            return reduce_binop(ast.BitAnd, compares)
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From b12bffb65a47bc7a137bccb45b305efdd2be53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 36/46] fix: reject SPPL statements that would be silently
 ignored

---
 src/compilers/sppl_to_python.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 7e567ea..73de79a 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -59,6 +59,8 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def generic_visit(self, node):
         """Called if no explicit visitor function exists for a node."""
+        if isinstance(node, ast.stmt):
+            assert isinstance(node, ast.Expr), unparse(node)
         for field, value in ast.iter_fields(node):
             if isinstance(value, list):
                 with maybe_sequence_block(self, value, self.first):
@@ -160,6 +162,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
+        assert not node.orelse, unparse(node)
         if node.iter.func.id == 'range':
             return self.visit_For_vanilla(node)
         if node.iter.func.id == 'switch':
@@ -269,6 +272,8 @@ class SPPL_Visitor(ast.NodeVisitor):
             src_assignment = unparse(assignment).strip()
             self.command.write('%sConstrain(%s),' % (idt, src_assignment))
             self.command.write('\n')
+        else:
+            assert False, 'unknown command: %s' % (unode,)
 
 def unroll_if(node, current=None):
     current = [] if current is None else current
-- 
2.43.0


From 021f5fc869fc5d4e4f464b840663ab8161e49581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 37/46] fix: pass in SPPL branches

---
 src/compilers/sppl_to_python.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 73de79a..4f76491 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -78,6 +78,11 @@ class SPPL_Visitor(ast.NodeVisitor):
         str_node = unparse(node).replace(os.linesep, '')
         self.imports.append(str_node)
 
+    def visit_Pass(self, node):
+        idt = get_indentation(self.indentation)
+        self.command.write('%sSkip(),' % (idt,))
+        self.command.write('\n')
+
     def visit_Assign(self, node):
         str_node = unparse(node)
 
@@ -393,7 +398,7 @@ class SPPL_Compiler():
             self.prog.imports.write('from sppl.distributions import %s' % (d,))
             self.prog.imports.write('\n')
         for c in ['Id', 'IdArray', 'Condition', 'Constrain', 'IfElse', 'For', 'Sample',
-                    'Sequence', 'Switch', 'Transform']:
+                    'Sequence', 'Skip', 'Switch', 'Transform']:
             self.prog.imports.write('from sppl.compilers.ast_to_spe import %s' % (c,))
             self.prog.imports.write('\n')
         # Write the constants.
-- 
2.43.0


From 0a208bc9bed5c925c16ebfd6c5ee66ea7c8848bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 38/46] fix: reject SPPL expressions and keywords that would be
 silently ignored

---
 src/compilers/sppl_to_python.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 4f76491..1a8ab86 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -71,6 +71,11 @@ class SPPL_Visitor(ast.NodeVisitor):
             elif isinstance(value, ast.AST):
                 self.visit(value)
 
+    def visit_Expr(self, node):
+        # Only commands and documentation strings are statements.
+        assert isinstance(node.value, (ast.Call, ast.Str)), unparse(node)
+        self.generic_visit(node)
+
     def visit_Import(self, node):
         str_node = unparse(node).replace(os.linesep, '')
         self.imports.append(str_node)
@@ -128,6 +133,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         assert isinstance(target, ast.Name), unode       # must not be subscript
         assert target.id not in self.variables, unode    # must be fresh
         assert len(node.value.args) == 1, unode          # must be array(n)
+        assert not node.value.keywords, unode
         # assert isinstance(node.value.args[0], ast.Num) # must be num n
         # assert isinstance(node.value.args[0].n, int)   # must be int n
         # assert node.value.args[0].n > 0                # must be pos n
@@ -179,6 +185,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         assert isinstance(node.target, (ast.Name, ast.Tuple)), unode
         assert node.iter.func.id == 'switch', unode
         assert len(node.iter.args) == 2, unode
+        assert not node.iter.keywords, unode
         assert isinstance(node.iter.args[0], (ast.Name, ast.Subscript)), unode
         # Open Switch.
         self.context.append('switch')
@@ -262,6 +269,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_Call(self, node):
         unode = unparse(node)
+        assert not node.keywords, unode
         if node.func.id == 'condition':
             assert len(node.args) == 1, unode
             idt = get_indentation(self.indentation)
-- 
2.43.0


From 6e254027916f5f56f427b90e9b3d4aeb84ba03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 39/46] fix: condition a continuous leaf on intervals and
 isolated points

---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 31cc59e..5a1d3fb 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -774,7 +774,8 @@ class RealLeaf(LeafSPE):
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
+            if not self.atomic:
+                return [] # Isolated points have probability zero.
             blocks = partition_finite_real_contiguous(values)
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
-- 
2.43.0


From 45381403930858ca69c6cc23c984621ec2219f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 40/46] fix: condition an integer leaf on a set with points
 that are not integers

---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 5a1d3fb..236483a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -777,7 +777,8 @@ class RealLeaf(LeafSPE):
             if not self.atomic:
                 return [] # Isolated points have probability zero.
             blocks = partition_finite_real_contiguous(values)
-            return [Range(min(v), max(v)) for v in blocks]
+            # Points which are not integers have probability zero.
+            return [Range(min(v), max(v)) for v in blocks if int_or_isinf_neg(min(v))]
         if isinstance(values, Union):
             subvalues = (self.flatten_values_contiguous(v) for v in values)
             return list(chain(*subvalues))
-- 
2.43.0


From 31fdb37ab3134ad534a5f54e49a3850c206d71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 41/46] fix: derived variables and given atoms in exported SPPL
 programs

Transforms were written in mathematical notation, e.g. 3(X), |X|, ln(X),
(1/1 + X), which SPPL cannot read or reads as another transform.
---
 src/compilers/spe_to_sppl.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..afda2a3 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,6 +3,8 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
 from io import StringIO
 from math import exp
 
@@ -13,6 +15,8 @@ from ..spe import SumSPE
 
 get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
+# Transforms are written with their constructors, applied to SPPL variables.
+transform_to_str = lambda x: re.sub(r"Identity\('([^']*)'\)", r'\1', repr(x))
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
             fwidth=None):
@@ -57,6 +61,12 @@ def render_sppl_helper(spe, state):
             for k, v in spe.dist.kwds.items()
         ])
         dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        if hasattr(spe.dist.dist, 'xk'):
+            # Distribution over given atoms.
+            dist = 'discrete({%s})' % (', '.join([
+                '%s: %s' % (x, float_to_str(p, state.fwidth))
+                for x, p in zip(spe.dist.dist.xk, spe.dist.dist.pk)
+            ]),)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
@@ -67,7 +77,8 @@ def render_sppl_helper(spe, state):
             state.stream.write('\n')
         for i, (var, expr) in enumerate(spe.env.items()):
             if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
+                state.stream.write('%s%s ~= %s'
+                    % (idt, var, transform_to_str(expr)))
                 state.stream.write('\n')
         return state
     if isinstance(spe, ProductSPE):
@@ -103,9 +114,14 @@ def render_sppl(spe, stream=None, fwidth=None):
     state = _SPPL_Render_State(fwidth=fwidth)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
-    # Write the import.
-    stream.write('from sppl.distributions import *')
-    stream.write('\n')
+    # Write the imports.
+    for names in [
+            'from sppl.distributions import *',
+            'from sppl.sets import *',
+            'from sppl.transforms import *',
+            'from sympy import E, exp, log, pi, sqrt']:
+        stream.write(names)
+        stream.write('\n')
     stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
-- 
2.43.0


From fb0133220a304d8891f74c0368d64ede5b154bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 42/46] fix: outcomes with quotes in exported SPPL programs

---
 src/compilers/spe_to_sppl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index afda2a3..906e57a 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -27,7 +27,7 @@ class _SPPL_Render_State:
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%s : %s' % (repr(str(k)), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
-- 
2.43.0


From 29aa5217586665036882e9412e5118123c7b404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 43/46] fix: integer powers given as a pair

X**(1, 1) and X**(-1, 1) reach __pow__rational with denominator one, where
the test of the numerator built a Radical of degree one, whose domain leaves
out the negative numbers.  Handle integer powers first.
---
 src/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 3de3f6d..04ccd59 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -220,12 +220,12 @@ class Transform():
         raise ValueError('Cannot raise %s to %s' % (str(self), x))
     def __pow__rational(self, x):
         (numer, denom) = x.as_numer_denom()
+        if denom == 1:
+            return self.__pow__integer(numer)
         if numer == 1:
             return Radical(self, denom)
         if numer == -1:
             return 1 / Radical(self, denom)
-        if denom == 1:
-            return self.__pow__integer(numer)
         # TODO: Consider default choice x**(a/b) = (x**(a))**(1/b)
         raise ValueError('Cannot raise %s to %s' % (str(self), x))
     def __pow__number(self, x):
-- 
2.43.0


From d8871540ae309be15eb7c1b3c3bb88aa96f0ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 44/46] fix: samples of no variables from a product

Asking a product for N samples of an empty set of variables, or of a function
without arguments, returned no samples, where leaves and mixtures return N.
---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 236483a..b2402de 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -451,8 +451,8 @@ class ProductSPE(BranchSPE):
             self.children[i].sample_subset(symbols_i, N, prng=prng)
             for i, symbols_i in index_to_symbols.items()
         ]
-        # Merge the samples.
-        return merge_samples(samples)
+        # Merge the samples, which are empty if there are no symbols.
+        return merge_samples([[{}]*N] + samples)
 
     def sample_func(self, func, N, prng=None):
         symbols = func_symbols(self, func)
-- 
2.43.0


From 9f918c363c9d3aefb0e9895cd9cf320e32b4d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:31 +0000
Subject: [PATCH 45/46] fix: keep repeated constant declarations of a program

---
 src/compilers/sppl_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 1a8ab86..f36d8fd 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -53,7 +53,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.context = ['global']
         self.command = stream or io.StringIO()
         self.imports = []
-        self.constants = OrderedDict()
+        self.constants = []
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
 
@@ -169,7 +169,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if self.distributions:
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
-        self.constants[str_node] = None
+        self.constants.append(str_node)
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
-- 
2.43.0


From ef8f480370a8829aeefd13be92688095ca1cdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 46/46] fix: declare arrays where the program declares them,
 with the constants of that point

---
 src/compilers/sppl_to_python.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index f36d8fd..5da8150 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -139,6 +139,8 @@ class SPPL_Visitor(ast.NodeVisitor):
         # assert node.value.args[0].n > 0                # must be pos n
         n = unparse(node.value.args[0]).strip()
         self.variables[target.id] = ('array', n)
+        # Sizes refer to the constants declared so far.
+        self.constants.append('%s = IdArray(\'%s\', %s)' % (target.id, target.id, n))
 
     def visit_Assign_sample_or_transform(self, node, op):
         unode = unparse(node)
@@ -369,7 +371,7 @@ class SPPL_Visitor_Name(ast.NodeVisitor):
         if node.id in self.variables_lookup:
             self.variables.add(node.id)
 
-prog = namedtuple('prog', ('imports', 'constants', 'variables', 'arrays', 'command'))
+prog = namedtuple('prog', ('imports', 'constants', 'variables', 'command'))
 class SPPL_Compiler():
     def __init__(self, source, modelname='model'):
         self.source = source
@@ -378,7 +380,6 @@ class SPPL_Compiler():
             imports=io.StringIO(),
             constants=io.StringIO(),
             variables=io.StringIO(),
-            arrays=io.StringIO(),
             command=io.StringIO())
         self.compile()
     def preprocess(self):
@@ -409,7 +410,7 @@ class SPPL_Compiler():
                     'Sequence', 'Skip', 'Switch', 'Transform']:
             self.prog.imports.write('from sppl.compilers.ast_to_spe import %s' % (c,))
             self.prog.imports.write('\n')
-        # Write the constants.
+        # Write the constants and arrays.
         if visitor.constants:
             self.prog.constants.write('# CONSTANT DECLRATIONS')
             self.prog.constants.write('\n')
@@ -418,19 +419,12 @@ class SPPL_Compiler():
                 self.prog.constants.write('\n')
         # Write the variables.
         variables = [v for v, t in visitor.variables.items() if t[0] == 'variable']
-        arrays = [(v, t[1]) for v, t in visitor.variables.items() if t[0] == 'array']
         if variables:
             self.prog.variables.write('# VARIABLE DECLARATIONS')
             self.prog.variables.write('\n')
             for v in variables:
                 self.prog.variables.write('%s = Id(\'%s\')' % (v, v,))
                 self.prog.variables.write('\n')
-        if arrays:
-            self.prog.arrays.write('# ARRAY DECLARATIONS')
-            self.prog.arrays.write('\n')
-            for v, n in arrays:
-                self.prog.arrays.write('%s = IdArray(\'%s\', %s)' % (v, v, n,))
-                self.prog.arrays.write('\n')
         # Write the command.
         self.prog.command.write('# MODEL DEFINITION')
         self.prog.command.write('\n')
-- 
2.43.0

