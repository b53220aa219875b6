From 52984d7b6ad80b6508f238f859abdc231932f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 01/68] fix: reject malformed permutation tuples with
 BadPermutationError

---
 src/qnet/utils/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8a4c456..c8502e7 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -64,7 +64,7 @@ def permutation_to_disjoint_cycles(permutation):
     :raise: BadPermutationError
     """
     if not check_permutation(permutation):
-        raise BadPermutationError('Malformed permutation %r' % permutation)
+        raise BadPermutationError('Malformed permutation %r' % (permutation,))
 
     p_index = 0
     current_cycle = [0]
-- 
2.43.0


From 3a0531bf08d8e41b94131584aa1ae90f485b8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 02/68] fix: return the permuted string when permuting a str

---
 src/qnet/utils/permutations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index c8502e7..8f123a7 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -232,7 +232,9 @@ def permute(sequence, permutation):
     if not check_permutation(permutation):
         raise BadPermutationError(str(permutation))
 
-    if type(sequence) in (list, tuple, str):
+    if type(sequence) is str:
+        constructor = ''.join
+    elif type(sequence) in (list, tuple):
         constructor = type(sequence)
     else:
         constructor = list
-- 
2.43.0


From 22d96bff093b4e82fb8cae31e5605e44f0ec9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 03/68] fix: empty permutation has no cycles

---
 src/qnet/utils/permutations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8f123a7..dea4779 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -65,6 +65,8 @@ def permutation_to_disjoint_cycles(permutation):
     """
     if not check_permutation(permutation):
         raise BadPermutationError('Malformed permutation %r' % (permutation,))
+    if len(permutation) == 0:
+        return []
 
     p_index = 0
     current_cycle = [0]
-- 
2.43.0


From 6232aa546466eab7192a9be931bf232383bd4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 04/68] fix: One minus a scalar expression subtracts it

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..632f4d7 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -749,7 +749,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
-- 
2.43.0


From add6a2b2f754c1f39350a6c7e5400f82c31b28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 05/68] fix: One divided by a scalar expression is its inverse

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 632f4d7..a5c9f99 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -771,7 +771,7 @@ class One(Scalar, metaclass=Singleton):
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 / other)
         else:
-            return super().__floordiv__(other)
+            return super().__truediv__(other)
 
     def __mod__(self, other):
         if isinstance(other, ScalarValue):
-- 
2.43.0


From b22f72ea86f56764432daeadd96185242e8d45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 06/68] fix: (b^x)^y is only combined to b^(x*y) for integer y

---
 src/qnet/algebra/_rules.py              | 10 ++++++++--
 src/qnet/algebra/core/scalar_algebra.py | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..bff97ab 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -18,7 +18,7 @@ from .library.fock_operators import (
     Displace, Squeeze)
 from .core.scalar_algebra import (
     Scalar, ScalarExpression, ScalarValue, ScalarPlus, ScalarTimes,
-    ScalarPower, ScalarIndexedSum, Zero, One, KroneckerDelta)
+    ScalarPower, ScalarIndexedSum, Zero, One, KroneckerDelta, _is_integer)
 from .core.state_algebra import (
     BasisKet, Bra, BraKet, CoherentStateKet, State, KetBra, KetIndexedSum,
     KetPlus, LocalKet, OperatorTimesKet, ScalarTimesKet, TensorKet, TrivialKet,
@@ -72,6 +72,12 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def combine_powers(x, y, z):
+        if _is_integer(z):
+            return x**(y*z)
+        else:
+            raise CannotSimplify()
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +90,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            lambda x, y, z: combine_powers(x, y, z))),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index a5c9f99..2e69f22 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1062,7 +1062,10 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        if _is_integer(other):
+            return ScalarPower.create(self.base, self.exp * other)
+        else:  # (b^x)^y is not b^(x*y), e.g. for b=-1, x=2, y=1/2
+            return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
@@ -1205,6 +1208,18 @@ def sqrt(scalar):
         raise TypeError("Unknown type of scalar: %r" % type(scalar))
 
 
+def _is_integer(scalar):
+    """Check if `scalar` (:class:`Scalar` or an equivalent native value) is
+    known to be an integer"""
+    val = scalar.val if hasattr(scalar, 'val') else scalar
+    if isinstance(val, sympy.Basic):
+        return val.is_integer is True
+    try:
+        return bool(val == int(val))
+    except TypeError:
+        return False
+
+
 def is_scalar(scalar):
     """Check if `scalar` is a :class:`Scalar` or a scalar value
 
-- 
2.43.0


From 2272f8e7f43691dc9c2d7a761adc11919ae0ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 07/68] fix: sorting the factors of a product never exchanges
 factors that share a degree of freedom

---
 src/qnet/algebra/core/algebraic_properties.py | 26 +++++++++++++++++++
 src/qnet/utils/ordering.py                    |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..100f90f 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -104,6 +104,27 @@ def idem(cls, ops, kwargs):
     return sorted(set(ops), key=cls.order_key), kwargs
 
 
+def _sorted_partial(ops, key):
+    """Sort `ops` by a partial order, given by `key`
+
+    The built-in :func:`sorted` assumes a total order, and may exchange
+    elements that are not comparable. Here, in contrast, each element of the
+    result is the smallest one of those remaining elements that are comparable
+    with everything to the left of them (i.e., that may be moved to the front).
+    """
+    remaining = [(key(op), op) for op in ops]
+    result = []
+    while len(remaining) > 0:
+        i_min = 0
+        for i in range(1, len(remaining)):
+            k = remaining[i][0]
+            if k < remaining[i_min][0] and all(
+                    [k < left or left < k for (left, _) in remaining[:i]]):
+                i_min = i
+        result.append(remaining.pop(i_min)[1])
+    return result
+
+
 def orderby(cls, ops, kwargs):
     """Re-order arguments via the class's ``order_key`` key object/function.
     Use this for commutative operations:
@@ -114,7 +135,12 @@ def orderby(cls, ops, kwargs):
         ...     simplifications = [orderby, ]
         >>> Times.create(2,1)
         Times(1, 2)
+
+    If the order is only partial (``order_key.partial``), operands that cannot
+    be compared keep their relative order.
     """
+    if getattr(cls.order_key, 'partial', False):
+        return _sorted_partial(ops, key=cls.order_key), kwargs
     return sorted(ops, key=cls.order_key), kwargs
 
 
diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 51251d9..ac11149 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -85,6 +85,9 @@ class DisjunctCommutativeHSOrder():
     achieves this ordering.
     """
 
+    #: operators that share a degree of freedom cannot be compared
+    partial = True
+
     def __init__(self, op, space_order=None, op_order=None):
         from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
         self.op = op
-- 
2.43.0


From fd18a60a662436edc827c32f979222ed7a4ca5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 08/68] fix: empty product of kets does not recurse infinitely

---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 100f90f..920e7ad 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -640,6 +640,8 @@ def accept_bras(cls, ops, kwargs):
             kets.append(bra.ket)
         else:
             return ops, kwargs
+    if len(kets) == 0:
+        return ops, kwargs
     return Bra.create(cls.create(*kets, **kwargs))
 
 
-- 
2.43.0


From 431dbf0463ab60fe683ca643096779f6d0a9e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 09/68] fix: product of an indexed sum with a scalar multiple

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..72cac06 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -864,7 +864,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
@@ -884,7 +884,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
-- 
2.43.0


From 45bf37193ae6c645c0230149eee9913503786e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 10/68] fix: renaming a summation index does not clash with the
 other indices of the sum

---
 src/qnet/algebra/core/indexed_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..987d954 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -200,7 +200,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         objects, or an indexed operation (something with a ``ranges`` attribute)
 
         Each index symbol is primed until it does not match any index symbol in
-        `others`.
+        `others`. An index symbol that must be primed also does not match any
+        symbol that already occurs in the sum.
         """
         new = self
         other_index_symbols = set()
@@ -225,7 +226,9 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         for r in self.ranges:
             index_symbol = r.index_symbol
             modified = False
-            while index_symbol in other_index_symbols:
+            while (
+                    index_symbol in other_index_symbols or
+                    (modified and index_symbol in new.all_symbols)):
                 modified = True
                 index_symbol = index_symbol.incr_primed()
             if modified:
-- 
2.43.0


From c26b624f635d3a93ce854a68c9e314d6a8999862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 11/68] fix: products of sums do not capture free index symbols

---
 .../algebra/core/abstract_quantum_algebra.py  | 22 ++++++++++----
 src/qnet/algebra/core/state_algebra.py        | 29 +++++++++++++------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 72cac06..5afe39a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -22,7 +22,8 @@ from .indexed_operations import IndexedSum
 from ...utils.ordering import (
     DisjunctCommutativeHSOrder, FullCommutativeHSOrder, KeyTuple, )
 from ...utils.indices import (
-    SymbolicLabelBase, IndexOverList, IndexOverFockSpace, IndexOverRange)
+    IdxSym, SymbolicLabelBase, IndexOverList, IndexOverFockSpace,
+    IndexOverRange)
 
 
 __all__ = [
@@ -855,7 +856,9 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
+            self = self.make_disjunct_indices(*_idx_syms(other.free_symbols))
+            other = other.make_disjunct_indices(
+                self, *_idx_syms(self.free_symbols))
             new_ranges = self.ranges + other.ranges
             new_term = self.term * other.term
             # note that class may change, depending on type of new_term
@@ -867,7 +870,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self.__class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(*_idx_syms(other.all_symbols))
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -875,7 +878,9 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __rmul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            self_new = self.make_disjunct_indices(other)
+            other = other.make_disjunct_indices(*_idx_syms(self.free_symbols))
+            self_new = self.make_disjunct_indices(
+                other, *_idx_syms(other.free_symbols))
             new_ranges = other.ranges + self_new.ranges
             new_term = other.term * self_new.term
             # note that class may change, depending on type of new_term
@@ -887,7 +892,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self.__class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(*_idx_syms(other.all_symbols))
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -1092,6 +1097,13 @@ def _series_expand_combine_prod(c1, c2, order):
     return tuple(res)
 
 
+def _idx_syms(symbols):
+    """The index symbols in the given set of symbols, in a fixed order"""
+    return sorted(
+        [sym for sym in symbols if isinstance(sym, IdxSym)],
+        key=lambda sym: (sym.name, sym.primed))
+
+
 def _evaluate_at(expr, sym, val):
     try:
         # for QuantumDerivative instance
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..a030575 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -14,7 +14,8 @@ from .scalar_algebra import is_scalar
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumPlus, QuantumTimes, QuantumAdjoint, QuantumIndexedSum,
-    QuantumDerivative, ensure_local_space, _series_expand_combine_prod)
+    QuantumDerivative, ensure_local_space, _series_expand_combine_prod,
+    _idx_syms)
 from .algebraic_properties import (
     accept_bras, assoc, assoc_indexed, basis_ket_zero_outside_hs,
     filter_neutral, match_replace, match_replace_binary, orderby,
@@ -109,7 +110,10 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 # Ket * Bra
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
-                    other_ket = other.ket.make_disjunct_indices(self)
+                    self = self.make_disjunct_indices(
+                        *_idx_syms(other.free_symbols))
+                    other_ket = other.ket.make_disjunct_indices(
+                        self, *_idx_syms(self.free_symbols))
                     new_term = self.term * Bra(other_ket.term)
                     new_ranges = self.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
@@ -117,24 +121,31 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket.make_disjunct_indices(
+                        *_idx_syms(self.all_symbols))
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
                 # Bra * Ket
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
-                    other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    self_ket = self.ket.make_disjunct_indices(
+                        *_idx_syms(other.free_symbols))
+                    other = other.make_disjunct_indices(
+                        self_ket, *_idx_syms(self_ket.free_symbols))
+                    new_term = Bra(self_ket.term) * other.term
+                    new_ranges = self_ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    self_ket = self.ket.make_disjunct_indices(
+                        *_idx_syms(other.all_symbols))
+                    new_term = Bra(self_ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *self_ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From 3d471571b0baba75c05b98ecf9c71dd7c00d0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 12/68] fix: outer product with the zero ket is the zero
 operator

---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index bff97ab..3fe5084 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -805,6 +805,12 @@ def _algebraic_rules_state():
         ('R011', (  # delegate to __mul__
             pattern_head(sum, Psi),
             lambda sum, Psi: sum * Bra.create(Psi))),
+        ('R012', (
+            pattern_head(ZeroKet, Phi),
+            lambda Phi: ZeroOperator)),
+        ('R013', (
+            pattern_head(Psi, ZeroKet),
+            lambda Psi: ZeroOperator)),
     ]))
 
     def pull_constfactor_from_sum(u, Psi, indranges):
-- 
2.43.0


From dba04596903f9279a4d392cd341e534ddfd60d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 13/68] fix: Kronecker delta in an indexed sum only eliminates
 an index within its range

---
 src/qnet/algebra/core/algebraic_properties.py | 80 +++++++++++++++----
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 920e7ad..fd15b4a 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -10,7 +10,8 @@ from sympy.concrete.delta import (
 from .abstract_algebra import LOG, LEVEL, LOG_NO_MATCH
 from .exceptions import CannotSimplify
 from ..pattern_matching import ProtoExpr, Pattern, match_pattern
-from ...utils.indices import IdxSym
+from ...utils.indices import (
+    IdxSym, IndexOverFockSpace, IndexOverList, yield_from_ranges)
 
 __all__ = []
 __private__ = [
@@ -25,20 +26,11 @@ __private__ = [
 
 
 _RESOLVE_KRONECKER_WITH_PIECEWISE = False
-# Handling indexed sums over Kronecker deltas correctly in the most general
-# cases requires substituting it with a Piecewise function (the delta is zero
-# outside of the range covered by the summmation index). This incurrs
-# considerable numerical overhead. In many cases, one gets correct results
-# while ignoring the range of the summation, with less effort. In that case,
-# you may speed calculations by settings this flag to False, at your own risk.
-#
-# An exmple where one gets the wrong result by ignoring the summation range is
-# this:
-#
-#   i, j = symbols('i, j', cls=IdxSym)
-#   sum = Sum(i, (1, 2, 3))(Sum(j, (3, 4))(KroneckerDelta(i, j)))
-#
-#   The wrong result is 3, the correct result is 1
+# If this flag is True, eliminating an index with a Kronecker delta always
+# multiplies with a Piecewise function that is zero outside of the range covered
+# by the summation index. This incurrs considerable numerical overhead. If it
+# is False, an index is eliminated only if the range of the summation is known
+# to contain the value that is substituted for the index.
 
 
 def assoc(cls, ops, kwargs):
@@ -881,6 +873,54 @@ def _extract_delta(expr, idx):
     return delta, new_expr
 
 
+def _multiplicity_in_range(value, ranges, i_range):
+    """How many times does ``ranges[i_range]`` take on the given `value`?
+
+    Auxiliary routine for :func:`_deltasummation`. If `value` depends on the
+    index symbols of the other `ranges`, return None unless the answer is the
+    same for all values of those index symbols. Also return None if `value`
+    depends on any other symbol, unless it is a single index symbol in a sum
+    over all levels of a Hilbert space, which is assumed to be one of them.
+    """
+    this_range = ranges[i_range]
+    others = [
+        r for (i, r) in enumerate(ranges)
+        if i != i_range and r.index_symbol in value.free_symbols]
+    if len(others) < len(value.free_symbols):
+        if (isinstance(this_range, IndexOverFockSpace) and
+                isinstance(value, IdxSym)):
+            return 1
+        return None
+    if any(_is_infinite(r) for r in others):
+        if len(others) == 1 and _is_infinite(this_range):
+            offset = value - others[0].index_symbol
+            if offset.is_Integer and offset >= 0:
+                return 1
+        return None
+    counts = set()
+    for mapping in yield_from_ranges(others):
+        counts.add(_count_in_range(value.subs(mapping), this_range))
+        if len(counts) > 1:
+            return None
+    return counts.pop() if len(counts) == 1 else None
+
+
+def _is_infinite(index_range):
+    """Does the given index range have no end?"""
+    return (
+        isinstance(index_range, IndexOverFockSpace) and
+        index_range.hs._dimension is None)
+
+
+def _count_in_range(value, index_range):
+    """How many times does `index_range` take on the given number `value`?"""
+    if isinstance(index_range, IndexOverList):
+        return index_range.values.count(value)
+    elif not value.is_Integer:
+        return 0
+    return 1 if int(value) in index_range else 0
+
+
 def _deltasummation(term, ranges, i_range):
     """Partially execute a summation for `term` with a Kronecker Delta for one
     of the summation indices.
@@ -950,6 +990,7 @@ def _deltasummation(term, ranges, i_range):
         >>> assert flag == 3
     """
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
+    from qnet.algebra.core.scalar_algebra import ScalarValue
     idx = ranges[i_range].index_symbol
     summands = _expand_delta(term, idx)
     if len(summands) > 1:
@@ -965,7 +1006,16 @@ def _deltasummation(term, ranges, i_range):
     if len(solns) != 1:
         return [(term, ranges)], 2
     value = solns[0]
+    multiplicity = _multiplicity_in_range(value, ranges, i_range)
+    if multiplicity is None:
+        return [(term, ranges)], 2
+    if multiplicity == 0:
+        return [(expr._zero, [])], 1
     new_term = expr.substitute({idx: value})
+    if isinstance(new_term, ScalarValue._val_types):
+        new_term = ScalarValue.create(new_term)
+    if multiplicity > 1:
+        new_term *= multiplicity
     if _RESOLVE_KRONECKER_WITH_PIECEWISE:
         new_term *= ranges[i_range].piecewise_one(value)
     assert isinstance(new_term, QuantumExpression)
-- 
2.43.0


From e6e35219e89cac55bace1ad76f741e0e915ae3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 14/68] fix: applying an operator to a sum of kets does not
 capture its index symbols

---
 src/qnet/algebra/_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 3fe5084..b5bc734 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -6,6 +6,7 @@ from .core.circuit_algebra import (
 from .core.exceptions import CannotSimplify, IncompatibleBlockStructures
 from .core.hilbert_space_algebra import (
     HilbertSpace, LocalSpace, ProductSpace, TrivialSpace)
+from .core.abstract_quantum_algebra import QuantumIndexedSum
 from .core.operator_algebra import (
     Adjoint, Commutator, IdentityOperator, LocalOperator,
     LocalSigma, Operator, OperatorIndexedSum, OperatorPlus, OperatorTimes,
@@ -706,7 +707,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            lambda A, sum: QuantumIndexedSum.__rmul__(sum, A))),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
-- 
2.43.0


From acf69347c75f454cbab56e75dfe26920544ffd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 15/68] fix: Liouvillian normal form with more than one jump
 operator

---
 .../algebra/core/super_operator_algebra.py    | 65 ++++++++++++-------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..d9c419a 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -7,7 +7,8 @@ from collections import OrderedDict, defaultdict
 
 from numpy import (array as np_array, sqrt as np_sqrt)
 from numpy.linalg import eigh
-from sympy import (I, Matrix as SympyMatrix, sqrt)
+from sympy import (
+    I, Matrix as SympyMatrix, SympifyError, simplify, sqrt, sympify)
 
 from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
@@ -23,7 +24,8 @@ from .matrix_algebra import Matrix
 from .operator_algebra import (
     Operator, OperatorPlus, ZeroOperator, sympyOne, Adjoint, PseudoInverse)
 from .scalar_algebra import is_scalar, One
-from ...utils.ordering import DisjunctCommutativeHSOrder, KeyTuple
+from ...utils.ordering import (
+    DisjunctCommutativeHSOrder, KeyTuple, expr_order_key)
 from ...utils.singleton import Singleton, singleton_object
 
 __all__ = [
@@ -424,6 +426,25 @@ def liouvillian(H, Ls=None):
 ###############################################################################
 
 
+def _sympy_coeff(coeff):
+    """Convert scalar `coeff` to a sympy expression"""
+    try:
+        return sympify(getattr(coeff, 'val', coeff))
+    except SympifyError:
+        raise CannotSymbolicallyDiagonalize(
+            "The coefficient {} is not a sympy expression".format(coeff))
+
+
+def _orthonormalized(vectors):
+    """Gram-Schmidt orthonormalization of a list of sympy column vectors"""
+    res = []
+    for vec in vectors:
+        for other in res:
+            vec = vec - other * (other.H * vec)[0]
+        res.append((vec / sqrt((vec.H * vec)[0])).applyfunc(simplify))
+    return res
+
+
 def liouvillian_normal_form(L, symbolic = False):
     r"""Return a Hamilton operator ``H`` and a minimal list of collapse
     operators ``Ls`` that generate the liouvillian ``L``.
@@ -509,9 +530,9 @@ def liouvillian_normal_form(L, symbolic = False):
                     symbolic = True
                     coeff = coeff.simplify_scalar()
 
-                collapse_form[Li][Ljd] = coeff
+                collapse_form[Li][Ljd] += coeff
 
-        basis = sorted(collapse_form.keys())
+        basis = sorted(collapse_form.keys(), key=expr_order_key)
 
         warn_msg = ("Warning: the Liouvillian is probably malformed: "
                     "The coefficients of SPre({!s})*SPost({!s}) and "
@@ -528,9 +549,9 @@ def liouvillian_normal_form(L, symbolic = False):
                         if abs(diff) > 1e-6:
                             print(warn_msg.format(Li, Lj.adjoint(), Lj,
                                                   Li.adjoint()))
-                    except ValueError:
+                    except (ValueError, TypeError):
                         symbolic = True
-                        if diff.simplify():
+                        if diff.simplify_scalar() != 0:
                             print("Warning: the Liouvillian my be malformed, "
                                   "convert to numerical representation")
         final_Lis = []
@@ -551,20 +572,13 @@ def liouvillian_normal_form(L, symbolic = False):
 ##                assert (kappa_12.conjugate() - kappa_21) == 0
             else:
                 M = SympyMatrix(len(basis), len(basis),
-                                lambda i,j: collapse_form[basis[i]][basis[j]
-                                            .adjoint()])
+                                lambda i, j: _sympy_coeff(
+                                    collapse_form[basis[i]][basis[j]
+                                                            .adjoint()]))
 
                 # First check if M is already diagonal (sympy does not handle
                 # this well, for some reason)
-                diag = True
-                for i in range(len(basis)):
-                    for j in range(i):
-                        if M[i,j].apply_rules() != 0 or M[j, i].apply_rules != 0:
-                            diag = False
-                            break
-                    if not diag:
-                        break
-                if diag:
+                if M.is_diagonal():
                     for bj in basis:
                         final_Lis.append(
                                 bj * sqrt(collapse_form[bj][bj.adjoint()]))
@@ -581,10 +595,10 @@ def liouvillian_normal_form(L, symbolic = False):
                         for evalue, multiplicity, ebasis in data:
                             if not evalue:
                                 continue
-                            for b in ebasis:
-                                new_L = (sqrt(evalue) * sum(cj[0] * Lj
+                            for b in _orthonormalized(ebasis):
+                                new_L = (sqrt(evalue) * sum(cj * Lj
                                          for (cj, Lj)
-                                         in zip(b.tolist(), basis))).expand()
+                                         in zip(b, basis))).expand()
                                 final_Lis.append(new_L)
                                 sdiff = (new_L.adjoint() * new_L / 2).expand()
                                 spres.append(sdiff)
@@ -595,13 +609,18 @@ def liouvillian_normal_form(L, symbolic = False):
                             "The matrix {} is too hard to diagonalize "
                             "symbolically. Please try converting to fully "
                             "numerical representation.").format(M))
-        else:
+        elif len(basis) > 0:
             M = np_array([[complex(collapse_form[Li][Lj.adjoint()])
                            for Lj in basis] for Li in basis])
 
             vals, vecs = eigh(M)
-            for sv, vec in zip(np_sqrt(vals), vecs.transpose()):
-                new_L = sum((sv * ci) * Li for (ci, Li) in zip(vec, basis))
+            cutoff = 1e-12 * max(abs(vals))
+            for val, vec in zip(vals, vecs.transpose()):
+                if val <= cutoff:
+                    continue  # zero, up to rounding errors
+                sv = np_sqrt(val)
+                new_L = sum(complex(sv * ci) * Li
+                            for (ci, Li) in zip(vec, basis))
                 final_Lis.append(new_L)
                 sdiff = (.5 * new_L.adjoint()*new_L).expand()
                 spres.append(sdiff)
-- 
2.43.0


From aa4192eaa0ddfbcaf50aeed472acb9c66921aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 16/68] fix: adjoint of a scaled superoperator

---
 src/qnet/algebra/core/super_operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index d9c419a..a1bebf7 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -161,7 +161,7 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From 9bd25df1ae763cc5c1cdb3d9ef7d88c2bc61887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 17/68] fix: commutator and anti-commutator with a zero second
 argument

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index a1bebf7..8d158e8 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -345,7 +345,7 @@ def commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B - B * A
     return SPre(A) - SPost(A)
 
@@ -364,7 +364,7 @@ def anti_commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B + B * A
     return SPre(A) + SPost(A)
 
-- 
2.43.0


From abbfce588b4c952eabe83d4131393f5e93f7241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 18/68] fix: jump operators with coefficient one in the
 Liouvillian normal form

---
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 8d158e8..95f647e 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -610,7 +610,8 @@ def liouvillian_normal_form(L, symbolic = False):
                             "symbolically. Please try converting to fully "
                             "numerical representation.").format(M))
         elif len(basis) > 0:
-            M = np_array([[complex(collapse_form[Li][Lj.adjoint()])
+            M = np_array([[complex(_sympy_coeff(
+                               collapse_form[Li][Lj.adjoint()]))
                            for Lj in basis] for Li in basis])
 
             vals, vecs = eigh(M)
-- 
2.43.0


From f8fa4e13e5d27cd420d3383569179e5ec9bd4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 19/68] fix: expanding the adjoint of a sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 5afe39a..29b3c04 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -464,7 +464,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From c174c5b1b4392fef4cbcf17de1a7ea99cd9b1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 20/68] fix: partial traces keep the order of factors that do
 not commute

---
 src/qnet/algebra/core/operator_algebra.py | 36 ++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..0a2e9b9 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -848,11 +848,15 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
     if ls & op.space == TrivialSpace:
         return ls.dimension * op
     if ls < op.space and isinstance(op, OperatorTimes):
-        pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
-
-        rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
-        if (not isinstance(rest[0], LocalSigma) or
-            not isinstance(rest[-1], LocalSigma)):
+        # only factors that commute with all the factors between them and the
+        # edge of the product can be moved out of the trace
+        left, rest = _split_off_disjoint(ls, op.operands)
+        right, rest = _split_off_disjoint(ls, reversed(rest))
+        right.reverse()
+        rest.reverse()
+        if (all(o.space == ls for o in rest) and
+                (not isinstance(rest[0], LocalSigma) or
+                 not isinstance(rest[-1], LocalSigma))):
             for j, r in enumerate(rest):
                 if isinstance(r, LocalSigma):
                     m = r.j
@@ -860,15 +864,27 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
                         rest[j:] + rest[:j] +
                         [LocalSigma.create(m, m, hs=ls), ])
                     break
-        if not rest:
-            rest = [IdentityOperator]
-        if len(pull_out):
-            return (OperatorTimes.create(*pull_out) *
+        if left or right:
+            return (OperatorTimes.create(*left) *
                     OperatorTrace.create(OperatorTimes.create(*rest),
-                                         over_space=ls))
+                                         over_space=ls) *
+                    OperatorTimes.create(*right))
     raise CannotSimplify()
 
 
+def _split_off_disjoint(ls, ops):
+    """Split `ops` into the list of factors that do not act on `ls` and commute
+    with all the remaining factors before them, and the remaining factors"""
+    off, rest = [], []
+    for o in ops:
+        if (o.space.isdisjoint(ls) and
+                all(o.space.isdisjoint(r.space) for r in rest)):
+            off.append(o)
+        else:
+            rest.append(o)
+    return off, rest
+
+
 def decompose_space(H, A):
     """Simplifies OperatorTrace expressions over tensor-product spaces by
     turning it into iterated partial traces.
-- 
2.43.0


From ee50f88cedd9ffa2e45f5e1968d08530b5880a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 21/68] fix: Leibniz expansion of a commutator with a product
 of two factors

---
 src/qnet/algebra/toolbox/commutator_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/commutator_manipulation.py b/src/qnet/algebra/toolbox/commutator_manipulation.py
index bdec62b..f177ad5 100644
--- a/src/qnet/algebra/toolbox/commutator_manipulation.py
+++ b/src/qnet/algebra/toolbox/commutator_manipulation.py
@@ -40,7 +40,7 @@ def expand_commutators_leibniz(expr, expand_expr=True):
     def leibniz_left(AB, C):
         """[AB, C] -> A [B, C] C + [A, C] B"""
         A = AB.operands[0]
-        B = OperatorTimes(*AB.operands[1:])
+        B = OperatorTimes.create(*AB.operands[1:])
         return A * Commutator.create(B, C) + Commutator.create(A, C) * B
 
     rules = OrderedDict([
-- 
2.43.0


From b70a5920191f8037b1f5bb7fb7c15f4eae2b17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 22/68] fix: series of derivatives and of operators plus or
 minus their conjugate

---
 .../algebra/core/abstract_quantum_algebra.py    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 29b3c04..80d9b4a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -451,11 +451,12 @@ class SingleQuantumOperation(QuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         # most single-quantum-operations are linear, i.e. they commute with the
         # derivative. Those that are not must override _diff
-        return self.__class__.create(self.operand.diff(sym))
+        return self.__class__.create(self.operand.diff(sym), **self.kwargs)
 
     def _series_expand(self, param, about, order):
         ope = self.operand.series_expand(param, about, order)
-        return tuple(self.__class__.create(opet) for opet in ope)
+        return tuple(
+            self.__class__.create(opet, **self.kwargs) for opet in ope)
 
 
 class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
@@ -831,6 +832,11 @@ class QuantumDerivative(SingleQuantumOperation):
                 return self.__class__(
                     self.operand, derivs=derivs, vals=self._vals)
 
+    def _series_expand(self, param, about, order):
+        # The expansion of a derivative is not the derivative of the expansion
+        # of the operand
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return self.__class__(
             self.operand.adjoint(), derivs=self._derivs, vals=self._vals)
@@ -1105,11 +1111,10 @@ def _idx_syms(symbols):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
-        # for QuantumDerivative instance
+    if isinstance(expr, QuantumDerivative) and sym in expr.derivs:
         return expr.evaluate_at({sym: val})
-    except AttributeError:
-        # for explicit Expression
+    else:
+        # explicit Expression
         return expr.substitute({sym: val})
 
 
-- 
2.43.0


From 9847be92b2d8f12011d1f004510ce1cd2201f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 23/68] fix: the canonical order of nested keys is consistent
 in both directions

---
 src/qnet/utils/ordering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index ac11149..4103626 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -55,7 +55,11 @@ class KeyTuple(tuple):
             return True
         elif len(self) > len(other):
             return False
-        return None
+        return False
+
+    def __gt__(self, other):
+        # tuple.__gt__ is not the reverse of the above ordering
+        return KeyTuple.__lt__(other, self)
 
     def __repr__(self):
         return self.__class__.__name__ + tuple.__repr__(self)
-- 
2.43.0


From 984168fa904ca09901f746428c70bbfd388ca8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 24/68] fix: simplify the scalars of an indexed sum without
 losing its ranges

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 80d9b4a..4c6e665 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -859,6 +859,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        return self.__class__.create(
+            self.term.simplify_scalar(func=func), *self.ranges)
+
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-- 
2.43.0


From db05ee1928cac6d706779fc48a62c2beb572a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 25/68] fix: expand the base of a scalar power

---
 src/qnet/algebra/core/scalar_algebra.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 2e69f22..b527c42 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1071,6 +1071,17 @@ class ScalarPower(QuantumOperation, Scalar):
         return self.__class__.create(
             self._base.conjugate(), self._exp.conjugate())
 
+    def _expand(self):
+        base = self.base.expand()
+        if isinstance(base, ScalarPlus) and _is_integer(self.exp):
+            try:
+                n = int(self.exp)
+            except TypeError:  # symbolic integer
+                n = 0
+            if n > 1:
+                return ScalarTimes(*([base, ] * n)).expand()
+        return ScalarPower.create(base, self.exp)
+
     def _diff(self, sym):
         inner = self.base._diff(sym)
         if inner != 0:
-- 
2.43.0


From 493cd88dfbac6fdcfcb99934affc0d6bfe80c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 26/68] fix: printing a derivative inside an adjoint or a
 superoperator raised TypeError

---
 src/qnet/printing/asciiprinter.py   | 8 ++++++--
 src/qnet/printing/latexprinter.py   | 7 +++++--
 src/qnet/printing/unicodeprinter.py | 8 ++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..36cb7cb 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -752,7 +752,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
         ct = self.doprint(op)
         return "%s[%s]" % (cs, ct)
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -762,7 +765,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 res += "D_%s " % sym_str
             else:
                 res += "D_%s^%s " % (sym_str, n)
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..84452b3 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -298,7 +298,10 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         ct = self.doprint(op)
         return r'%s\left[%s\right]' % (cs, ct)
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -314,7 +317,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         denominator = " ".join(denominators)
         res += r'\frac{%s}{%s}' % (numerator, denominator)
         res += " " + self.parenthesize(
-            expr.operand, PRECEDENCE['Mul'], strict=True)
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             res = r'\left. ' + res
             evaluation_strs = []
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..739f92c 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -176,7 +176,10 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
     def _print_IdentitySuperOperator(self, expr, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -190,7 +193,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             res += (render_unicode_sub_super(
                 '∂', subs, supers, sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super']) + " ")
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
-- 
2.43.0


From af53d19a951d8124e151f9efcecdd74e1be10322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 27/68] fix: derivative of a scalar power ignored a dependence
 of the exponent

---
 src/qnet/algebra/core/scalar_algebra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index b527c42..3005b20 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1083,7 +1083,10 @@ class ScalarPower(QuantumOperation, Scalar):
         return ScalarPower.create(base, self.exp)
 
     def _diff(self, sym):
-        inner = self.base._diff(sym)
+        if sym.free_symbols & self.exp.free_symbols:
+            # there is no logarithm of a quantum scalar in the algebra
+            return ScalarDerivative(self, derivs={sym: 1})
+        inner = self.base.diff(sym)
         if inner != 0:
             return (
                 self.exp * ScalarPower.create(self.base, self.exp-1) * inner)
-- 
2.43.0


From e2e013f35469bde524e62ba260015ed886f06dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 28/68] fix: derivative of A+c.c. crashed; pseudo-inverse and
 null-space projector were differentiated as if linear

---
 src/qnet/algebra/core/operator_algebra.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 0a2e9b9..fc3ab39 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -712,7 +712,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
 
     def _diff(self, sym):
         return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
@@ -754,6 +754,13 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not linear in the operand, so it does not commute with the derivative
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _pseudo_inverse(self):
         return self.operand
 
@@ -784,6 +791,13 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not linear in the operand, so it does not commute with the derivative
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return Adjoint(self)
 
-- 
2.43.0


From e40e598f90e04fa3cd2e9af6156eec43b67f7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 29/68] fix: derivative of SPre/SPost of an operator was left
 unevaluated (adding no product rule)

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 95f647e..2f5bbde 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -218,7 +218,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.__class__.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -252,7 +252,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.__class__.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPre(self.operands[0])
-- 
2.43.0


From d195ac22aa376376c64b8d47b965075f0cb1276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 30/68] fix: evaluated derivatives with numeric points crashed
 and ignored the chain rule through the point

---
 .../algebra/core/abstract_quantum_algebra.py   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 4c6e665..0ddab02 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -798,7 +798,8 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(
+                        sympy.sympify(val).free_symbols)
         return self._free_symbols
 
     @property
@@ -819,13 +820,16 @@ class QuantumDerivative(SingleQuantumOperation):
         return self._n
 
     def _diff(self, sym):
-        if sym in self._vals.keys():
-            return self.__class__._zero
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        if any(
+                sym.free_symbols & sympy.sympify(val).free_symbols
+                for val in self._vals.values()):
+            # chain rule: the point of evaluation depends on sym
+            return self.__class__(self, derivs={sym: 1})
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
-                return self.__class__(self, derivs={sym: 1})
+            if sym in self._vals.keys():
+                return self.__class__._zero
             else:
                 derivs = self._derivs.copy()
                 derivs[sym] += 1
-- 
2.43.0


From 4b02da5db5800ce823cc0f828554ca937a0f9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 31/68] fix: derivative of a coherent state was wrong for a
 complex amplitude path; adjoint of a state derivative was not a Bra

---
 src/qnet/algebra/core/state_algebra.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index a030575..72ab3ea 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -398,13 +398,14 @@ class CoherentStateKet(LocalKet):
         return self._ampl
 
     def _diff(self, sym):
-        from qnet.algebra.library.fock_operators import Destroy, Create
-        hs = self.space
-        return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
-            .diff(sym)
-            * self)
+        # |alpha> = exp(-|alpha|^2/2) exp(alpha a^dagger) |0>
+        from qnet.algebra.library.fock_operators import Create
+        ampl = self._ampl
+        ampl_diff = ampl.diff(sym)
+        norm_diff = (
+            ampl_diff * ampl.conjugate() +
+            ampl * ampl.conjugate().diff(sym)) / 2
+        return (ampl_diff * Create(hs=self.space) - norm_diff) * self
 
     def to_fock_representation(self, index_symbol='n', max_terms=None):
         """Return the coherent state written out as an indexed sum over Fock
@@ -545,7 +546,10 @@ class StateDerivative(QuantumDerivative, State):
 
     See :class:`.QuantumDerivative`.
     """
-    pass
+
+    def _adjoint(self):
+        # any adjoint of a state is a Bra instance at the top level
+        return State._adjoint(self)
 
 
 class Bra(State, QuantumAdjoint):
-- 
2.43.0


From 53852907b47cec948b3c6eef226b446c216a22af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 32/68] fix: sympy substitution of several symbols is
 simultaneous

---
 src/qnet/algebra/core/abstract_algebra.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..d9fe3b6 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -682,7 +682,7 @@ def substitute(expr, var_map):
             sympy_var_map = {
                 k: v for (k, v) in var_map.items()
                 if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map)
+            return _subs_simultaneous(expr, sympy_var_map)
         else:
             return expr.substitute(var_map)
     except AttributeError:
@@ -691,6 +691,17 @@ def substitute(expr, var_map):
         return expr
 
 
+def _subs_simultaneous(expr, var_map):
+    """Apply ``expr.subs`` for all items in `var_map` at the same time, so that
+    the replacements are not themselves subject to substitution"""
+    inserted = set().union(
+        *[getattr(v, 'free_symbols', set()) for v in var_map.values()])
+    if any([k.free_symbols & inserted for k in var_map.keys()]):
+        return expr.subs(var_map, simultaneous=True)
+    else:
+        return expr.subs(var_map)
+
+
 def _apply_rules_no_recurse(expr, rules):
     """Non-recursively match expr again all rules"""
     try:
-- 
2.43.0


From 47b59f131afe7a82be19d07a2f059635bb2c5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 33/68] fix: series expansion of operator-ket products, KetBra
 and super-operator applications

---
 src/qnet/algebra/core/state_algebra.py          | 6 ++----
 src/qnet/algebra/core/super_operator_algebra.py | 7 ++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 72ab3ea..41793f8 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -537,8 +537,7 @@ class OperatorTimesKet(State, Operation):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
 
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ce, te, order)
 
 
 class StateDerivative(QuantumDerivative, State):
@@ -719,8 +718,7 @@ class KetBra(Operator, Operation):
     def _series_expand(self, param, about, order):
         ke = self.ket.series_expand(param, about, order)
         be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ke, be, order)
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 2f5bbde..0b8a946 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -12,6 +12,7 @@ from sympy import (
 
 from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
+    _series_expand_combine_prod,
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumOperation, QuantumPlus, QuantumTimes, QuantumAdjoint,
     QuantumDerivative)
@@ -299,9 +300,9 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return _series_expand_combine_prod(sope, ope, order)
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From 085d050ecda0899f133abd1abc255c7d690f362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 34/68] fix: refuse series expansion of a scalar that has no
 Taylor series

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 3005b20..040e98f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -275,7 +275,7 @@ class ScalarValue(Scalar):
             next_order = 0
             for term in series:
                 c, o = term.as_coeff_exponent(param)
-                if o < 0 or o.is_noninteger:
+                if o < 0 or o.is_noninteger or param in c.free_symbols:
                     raise ValueError(
                         "%s is singular at expansion point %s=%s."
                         % (self, param, about))
-- 
2.43.0


From e2d3edc413ef62576dea49519bbb9750fd7003d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 35/68] fix: substituting a derivative symbol evaluates the
 derivative

---
 .../algebra/core/abstract_quantum_algebra.py  | 45 ++++++++++++++++---
 src/qnet/algebra/core/algebraic_properties.py |  2 +-
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 0ddab02..9a07514 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -836,6 +836,45 @@ class QuantumDerivative(SingleQuantumOperation):
                 return self.__class__(
                     self.operand, derivs=derivs, vals=self._vals)
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        op_map = {k: v for (k, v) in var_map.items() if k not in self._syms}
+        # symbols that the substitution of the operand would introduce, and
+        # that thus must not be confused with the symbols of the derivative
+        inserted = set().union(
+            *[getattr(v, 'free_symbols', set()) for v in op_map.values()])
+        taken = inserted | self.operand.free_symbols
+        derivs, vals = {}, {}
+        for (sym, n) in self._ordered_derivs:
+            if sym in self._vals:
+                new_sym = sym
+                val = substitute(self._vals[sym], var_map)
+            else:
+                val = substitute(sym, var_map)
+                new_sym = sym
+                if val != sym and sym not in var_map:
+                    new_sym = val  # e.g. substitution of an index
+            if new_sym in inserted or new_sym in derivs:
+                new_sym = sympy.Symbol(str(sym), **sym.assumptions0)
+                while new_sym in taken:
+                    new_sym = sympy.Symbol(
+                        new_sym.name + "'", **sym.assumptions0)
+            taken = taken | {new_sym}
+            derivs[new_sym] = n
+            if val != new_sym:
+                vals[new_sym] = val
+            if new_sym != sym:
+                op_map[sym] = new_sym
+        op = self.operand.substitute(op_map)
+        if not isinstance(op, QuantumExpression):
+            op = self.__class__._one * op
+        if safe:
+            return self.__class__(op, derivs=derivs, vals=vals or None)
+        else:
+            return self.create(op, derivs=derivs, vals=vals or None)
+
     def _series_expand(self, param, about, order):
         # The expansion of a derivative is not the derivative of the expansion
         # of the operand
@@ -1119,11 +1158,7 @@ def _idx_syms(symbols):
 
 
 def _evaluate_at(expr, sym, val):
-    if isinstance(expr, QuantumDerivative) and sym in expr.derivs:
-        return expr.evaluate_at({sym: val})
-    else:
-        # explicit Expression
-        return expr.substitute({sym: val})
+    return expr.substitute({sym: val})
 
 
 def _expand_product(factors):
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index fd15b4a..e47c38b 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -1049,6 +1049,6 @@ def derivative_via_diff(cls, ops, kwargs):
             return op.evaluate_at(vals)
         except AttributeError:
             # for explicit Expression
-            return op.substitute(vals)
+            return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From c30fc8a5eb312a3db35f5ea6b4648dc24b7c08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 36/68] fix: series expansion of an indexed sum keeps the
 ranges of the sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 9a07514..6efba93 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -902,6 +902,11 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
+    def _series_expand(self, param, about, order):
+        return tuple(
+            self.__class__.create(term, *self.ranges)
+            for term in self.term.series_expand(param, about, order))
+
     def _simplify_scalar(self, func):
         return self.__class__.create(
             self.term.simplify_scalar(func=func), *self.ranges)
-- 
2.43.0


From 9da2019ee8116bd0664eaab7991823ad242f2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:59 +0000
Subject: [PATCH 37/68] fix: substituting in an indexed sum never captures its
 bound indices

---
 src/qnet/algebra/core/indexed_operations.py | 37 ++++++++++++++++++---
 src/qnet/utils/indices.py                   |  9 +++--
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 987d954..81163b6 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -2,6 +2,8 @@
 
 from abc import ABCMeta
 
+import sympy
+
 from .abstract_algebra import Expression, Operation
 from .exceptions import InfiniteSumError
 from ..pattern_matching import wc
@@ -54,18 +56,20 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     @property
     def bound_symbols(self):
-        """Set of bound variables, i.e. the index variable symbols
+        """Set of bound variables, i.e. the index variable symbols, and any
+        bound symbols of the sum's term
 
-        See also :property:`variables` for an ordered list of the same symbols
+        See also :property:`variables` for an ordered list of the index
+        variable symbols of the sum
         """
-        return set(self.variables)
+        return set(self.variables) | self.term.bound_symbols
 
     @property
     def free_symbols(self):
         """Set of all free symbols"""
         return set([
             sym for sym in self.term.free_symbols
-            if sym not in self.bound_symbols])
+            if sym not in self.variables])
 
     @property
     def kwargs(self):
@@ -191,6 +195,31 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             res = res._doit_over_indices(indices=indices)
         return res
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        # The index symbols are bound. They may be renamed, but nothing else
+        # may be substituted for them, and they must not be confused with any
+        # symbol that is free after the substitution
+        variables = self.variables
+        new_map = {k: v for (k, v) in var_map.items() if k not in variables}
+        taken = set(
+            [sym for sym in self.free_symbols if sym not in new_map])
+        for (k, v) in new_map.items():
+            if not isinstance(k, sympy.Symbol) or k in self.free_symbols:
+                taken.update(getattr(v, 'free_symbols', set()))
+        for sym in variables:
+            new_sym = var_map.get(sym, sym)
+            if not isinstance(new_sym, IdxSym):
+                new_sym = sym
+            while new_sym in taken:
+                new_sym = new_sym.incr_primed()
+            taken.add(new_sym)
+            if new_sym != sym:
+                new_map[sym] = new_sym
+        return super()._substitute(new_map, safe=safe)
+
     def make_disjunct_indices(self, *others):
         """Return a copy with modified indices to ensure disjunct indices with
         `others`.
diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..f365f8c 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -219,7 +219,8 @@ class SymbolicLabelBase(metaclass=ABCMeta):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        from qnet.algebra.core.abstract_algebra import substitute
+        new_expr = substitute(self.expr, var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr)
         else:
@@ -312,7 +313,8 @@ class FockLabel(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        from qnet.algebra.core.abstract_algebra import substitute
+        new_expr = substitute(self.expr, var_map)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
@@ -378,7 +380,8 @@ class SpinIndex(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        from qnet.algebra.core.abstract_algebra import substitute
+        new_expr = substitute(self.expr, var_map)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
-- 
2.43.0


From 1d29cd50d9981561c058ce2b1b85a55f6eea3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:59 +0000
Subject: [PATCH 38/68] fix: substitution in scalar products and derivatives is
 simultaneous and honours the whole expression

---
 .../algebra/core/abstract_quantum_algebra.py  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 6efba93..1bd047a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -586,11 +586,14 @@ class ScalarTimesQuantumExpression(
         return self.operands[1]
 
     def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
         st = self.term.substitute(var_map)
         if isinstance(self.coeff, sympy.Basic):
             svar_map = {k: v for k, v in var_map.items()
                         if not isinstance(k, Expression)}
-            sc = self.coeff.subs(svar_map)
+            sc = substitute(self.coeff, svar_map)
         else:
             sc = substitute(self.coeff, var_map)
         if safe:
@@ -841,11 +844,17 @@ class QuantumDerivative(SingleQuantumOperation):
             if not safe or (type(var_map[self]) == type(self)):
                 return var_map[self]
         op_map = {k: v for (k, v) in var_map.items() if k not in self._syms}
-        # symbols that the substitution of the operand would introduce, and
-        # that thus must not be confused with the symbols of the derivative
-        inserted = set().union(
+
+        def inserted_for(sym):
+            # symbols that the substitution of the operand would introduce, and
+            # that must not be confused with the derivative symbol `sym`
+            return set().union(
+                *[getattr(v, 'free_symbols', set())
+                  for (k, v) in op_map.items()
+                  if sym not in getattr(k, 'free_symbols', set())])
+
+        taken = self.operand.free_symbols.union(
             *[getattr(v, 'free_symbols', set()) for v in op_map.values()])
-        taken = inserted | self.operand.free_symbols
         derivs, vals = {}, {}
         for (sym, n) in self._ordered_derivs:
             if sym in self._vals:
@@ -856,7 +865,7 @@ class QuantumDerivative(SingleQuantumOperation):
                 new_sym = sym
                 if val != sym and sym not in var_map:
                     new_sym = val  # e.g. substitution of an index
-            if new_sym in inserted or new_sym in derivs:
+            if new_sym in inserted_for(sym) or new_sym in derivs:
                 new_sym = sympy.Symbol(str(sym), **sym.assumptions0)
                 while new_sym in taken:
                     new_sym = sympy.Symbol(
-- 
2.43.0


From 3db38755c5d91fcfefa2dc32a195f96761bae1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 39/68] fix: a singleton stays a singleton when the instance
 cache is replaced

---
 src/qnet/utils/singleton.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..79ba1af 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,12 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # `cls._instances` might be shadowed by an attribute of the class (e.g.
+        # the instance cache of an Expression)
+        instances = Singleton._instances
+        if cls not in instances:
+            instances[cls] = super().__call__(*args, **kwargs)
+        return instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From abdb62cd1e463dfe99459d144df7d5766ec9dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 40/68] fix: printing of stepped index ranges and of infinite
 numbers

---
 src/qnet/algebra/library/spin_algebra.py | 2 +-
 src/qnet/printing/asciiprinter.py        | 2 +-
 src/qnet/printing/base.py                | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..b43c0ce 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -110,7 +110,7 @@ class SpinSpace(LocalSpace):
         self._minimal_kwargs = self._kwargs.copy()
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if order_index in [None, float('inf')]:
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 36cb7cb..bb5d53c 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -596,7 +596,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d05486d..873fdf4 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -152,8 +152,8 @@ class QnetBasePrinter(SympyPrinter):
                     # have the same hash. We want to normalize this, so that we
                     # get consistent results when printing with a cache
                     expr = int(expr)
-            except TypeError:
-                pass
+            except (TypeError, OverflowError, ValueError):
+                pass  # not a number, or infinite
             if adjoint:
                 kwargs = {
                     key: val for (key, val) in kwargs.items()
-- 
2.43.0


From c705ff9bedd51be61d787a45b16ef8d150b13bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 41/68] fix: product of an indexed sum with a scaled expression
 has the class of the product

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 1bd047a..17f4443 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -932,10 +932,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
         elif is_scalar(other):
-            return self.__class__._scalar_times_expr_cls(other, self)
+            return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self.__class__._scalar_times_expr_cls(
-                other.coeff, self * other.term)
+            # the class of the product depends on both factors
+            return other.coeff * (self * other.term)
         else:
             sum = self.make_disjunct_indices(*_idx_syms(other.all_symbols))
             new_term = sum.term * other
@@ -956,8 +956,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self.__class__._scalar_times_expr_cls(
-                other.coeff, other.term * self)
+            return other.coeff * (other.term * self)
         else:
             sum = self.make_disjunct_indices(*_idx_syms(other.all_symbols))
             new_term = other * sum.term
-- 
2.43.0


From eff68923bda89a4bceb7b8194af825ac7674c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 42/68] fix: do not add indexed sums when resolving Kronecker
 deltas

---
 src/qnet/algebra/core/algebraic_properties.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index e47c38b..68e942f 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -702,6 +702,7 @@ def _ranges_key(r, delta_indices):
 def indexed_sum_over_kronecker(cls, ops, kwargs):
     """Execute sums over KroneckerDelta prefactors"""
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
+    from qnet.algebra.core.indexed_operations import IndexedSum
     term, *ranges = ops
     assert isinstance(term, QuantumExpression)
     deltas = set(Pattern(head=sympy.KroneckerDelta).findall(term))
@@ -746,14 +747,15 @@ def indexed_sum_over_kronecker(cls, ops, kwargs):
         if len(buffer) == 1 and buffer[0] == (term, ranges):
             return ops, kwargs  # couldn't resolve deltas
         else:
-            (t, rs) = buffer[0]
-            res = t
-            if len(rs) > 0:
-                res = cls.create(t, *rs, **kwargs)
-            for (t, rs) in buffer[1:]:
-                if len(rs) > 0:
-                    t = cls.create(t, *rs, **kwargs)
-                res += t
+            summands = [
+                cls.create(t, *rs, **kwargs) if len(rs) > 0 else t
+                for (t, rs) in buffer]
+            if len(summands) > 1 and any(
+                    isinstance(s, IndexedSum) for s in summands):
+                return ops, kwargs  # indexed sums cannot be added
+            res = summands[0]
+            for summand in summands[1:]:
+                res += summand
             return res
 
 
-- 
2.43.0


From 2e6134ee60a80a17bfa731f0e857702833638e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 43/68] fix: writing out an indexed sum over unknown indices or
 no terms

---
 src/qnet/algebra/core/indexed_operations.py | 9 +++++++--
 src/qnet/algebra/core/scalar_algebra.py     | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 81163b6..c5fa71b 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -160,6 +160,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res is None:  # no terms
+            return self.__class__._zero
         return res
 
     def _doit_over_indices(self, indices):
@@ -176,7 +178,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             else:
                 other_ranges.append(index_range)
         if selected_range is None:
-            return self
+            return self._doit_over_indices(indices)
         res_term = None
         for i, mapping in enumerate(selected_range.iter()):
             res_summand = self.term.substitute(mapping)
@@ -192,7 +194,10 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             res = res_term
         else:
             res = self.__class__.create(res_term, *other_ranges)
-            res = res._doit_over_indices(indices=indices)
+            if isinstance(res, IndexedSum):
+                res = res._doit_over_indices(indices=indices)
+            elif len(indices) > 0 and isinstance(res, Expression):
+                res = res.doit(classes=[IndexedSum], indices=indices)
         return res
 
     def _substitute(self, var_map, safe=False):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 040e98f..a8e4314 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -951,7 +951,10 @@ class ScalarIndexedSum(QuantumIndexedSum, Scalar):
         """Instantiate the indexed sum while applying simplification rules"""
         if not isinstance(term, Scalar):
             term = ScalarValue.create(term)
-        return super().create(term, *ranges)
+        res = super().create(term, *ranges)
+        if not isinstance(res, Scalar):
+            res = ScalarValue.create(res)
+        return res
 
     def __init__(self, term, *ranges):
         if not isinstance(term, Scalar):
-- 
2.43.0


From 576f1351610beca0d22cfe4f6d8b34bea44d6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 44/68] fix: feedback of a series product no longer recurses
 forever when double inversion cycles

---
 src/qnet/algebra/_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index b5bc734..01458ce 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1010,8 +1010,13 @@ def _pull_out_unaffected_blocks_rhs(rest, rhs, out_port, in_port):
 def _series_feedback(series, out_port, in_port):
     """Invert a series self-feedback twice to get rid of unnecessary
     permutations."""
-    series_s = series.series_inverse().series_inverse()
+    visited = []
+    series_s = series
+    while isinstance(series_s, SeriesProduct) and series_s not in visited:
+        visited.append(series_s)
+        series_s = series_s.series_inverse().series_inverse()
     if series_s == series:
+        # either nothing changes, or we're going around in circles
         raise CannotSimplify()
     return series_s.feedback(out_port=out_port, in_port=in_port)
 
-- 
2.43.0


From 4abf71c9aee0f0a7d1cf9554acebf5f31dbb50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 45/68] fix: series product with an identity of the wrong
 channel dimension is rejected, not silently dropped

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/circuit_algebra.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 68e942f..3c675b0 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -441,7 +441,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
 
 def check_cdims(cls, ops, kwargs):
     """Check that all operands (`ops`) have equal channel dimension."""
-    if not len({o.cdim for o in ops}) == 1:
+    if len({o.cdim for o in ops}) > 1:
         raise ValueError("Not all operands have the same cdim:" + str(ops))
     return ops, kwargs
 
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..0f1adc4 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1078,7 +1078,7 @@ class SeriesProduct(Circuit, Operation):
     """The series product circuit operation. It can be applied to any sequence
     of circuit objects that have equal channel dimension.
     """
-    simplifications = [assoc, filter_cid, check_cdims,
+    simplifications = [assoc, check_cdims, filter_cid,
                        match_replace_binary]
     _binary_rules = OrderedDict()  # see end of module
 
-- 
2.43.0


From 7f49510023d69ae4184bf68185335778e72d7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 46/68] fix: feedback loops with different ports are no longer
 equal to each other

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 0f1adc4..865ef04 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,7 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(*operands, **self.kwargs)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 8ca97ee553e7d2d24b6cedfce9e736b86e137fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 47/68] fix: splitting a column matrix into blocks returned the
 first block again and again

---
 src/qnet/algebra/core/matrix_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..afc4efd 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -83,11 +83,13 @@ class Matrix(Expression):
             else:
                 raise ValueError()
         elif m == 1:
+            if not sum(block_structure) == n:
+                raise ValueError()
             if not len(block_structure):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From 83f139a45ae35452574c4815e8da4f702d4b938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 48/68] fix: multiplying a matrix by a scalar expression from
 the left

---
 src/qnet/algebra/core/matrix_algebra.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index afc4efd..ae42b2e 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -133,7 +133,11 @@ class Matrix(Expression):
             return Matrix(self.matrix + other)
 
     def __radd__(self, other):
-        return Matrix(other + self.matrix)
+        if isinstance(other, ndarray):
+            return Matrix(other + self.matrix)
+        # numpy must not be involved in `other`'s binary operator
+        return Matrix(self.matrix.astype(object)).element_wise(
+            lambda o: other + o)
 
     def __mul__(self, other):
         if isinstance(other, Matrix):
@@ -142,7 +146,11 @@ class Matrix(Expression):
             return Matrix(self.matrix * other)
 
     def __rmul__(self, other):
-        return Matrix(other * self.matrix)
+        if isinstance(other, ndarray):
+            return Matrix(other * self.matrix)
+        # numpy must not be involved in `other`'s binary operator
+        return Matrix(self.matrix.astype(object)).element_wise(
+            lambda o: other * o)
 
     def __sub__(self, other):
         return self + (-1) * other
-- 
2.43.0


From 37d4c36ba09ec92dcd987def54f8cfce9f8f5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 49/68] fix: series expansion of a matrix with number or symbol
 entries

---
 src/qnet/algebra/core/matrix_algebra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index ae42b2e..7519bde 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -12,7 +12,7 @@ from .abstract_quantum_algebra import QuantumExpression
 from .exceptions import NonSquareMatrix, NoConjugateMatrix
 from .hilbert_space_algebra import ProductSpace, TrivialSpace
 from .operator_algebra import adjoint
-from .scalar_algebra import is_scalar
+from .scalar_algebra import ScalarValue, is_scalar
 from ...utils.permutations import check_permutation
 
 __all__ = [
@@ -323,8 +323,11 @@ class Matrix(Expression):
             coefficients.
         """
         s = self.shape
+        entries = [
+            o if isinstance(o, QuantumExpression) else ScalarValue.create(o)
+            for o in self.matrix.astype(object).ravel()]
         emats = zip(*[o.series_expand(param, about, order)
-                      for o in self.matrix.ravel()])
+                      for o in entries])
         return tuple((Matrix(np_array(em).reshape(s)) for em in emats))
 
     def expand(self):
-- 
2.43.0


From 700dfd6aa23434604bea55cd310b57f3739f7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 50/68] fix: default observable of the symbolic Heisenberg
 equation of motion

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 865ef04..f4d3e23 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -538,7 +538,7 @@ class SLH(Circuit, Expression):
         L, H = self.L, self.H
 
         if X is None:
-            X = OperatorSymbol('X', hs=(L.space | H.space))
+            X = OperatorSymbol('X', hs=self.space)
 
         summands = [I * (H * X - X * H), ]
         for Lk in L.matrix.ravel():
-- 
2.43.0


From 5f1342cddf9569f345853220bea4f2ba1b4d54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 51/68] fix: scattering noise term of the Heisenberg equation
 subtracted X from all entries

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index f4d3e23..e7c8744 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,8 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = (S.adjoint() * X * S -
+                        X * identity_matrix(self.cdim))
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0


From 0ced0de0c62dd10d39286a50db05ffe6d16f2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 52/68] fix: detecting off-diagonal terms in automatic
 adiabatic elimination

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index e7c8744..1575de1 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1751,7 +1751,7 @@ def try_adiabatic_elimination(slh, k=None, fock_trunc=6, sub_P0=True):
         for term in terms - projectors:
             cannot_eliminate = (
                 not isinstance(term, LocalSigma) or
-                not term.operands[1] == term.operands[2])
+                not term.j == term.k)
             if cannot_eliminate:
                 raise CannotEliminateAutomatically(
                     "Proj. Y operator has off-diagonal term: ~{}".format(term))
-- 
2.43.0


From a6288371ad69cfb6c94cd9ab86eadc80eb07ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 53/68] fix: LocalSigma index_j/index_k of a symbolic label
 give its level, not its label

---
 src/qnet/algebra/core/operator_algebra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index fc3ab39..11bdae8 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -377,8 +377,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_j(self):
         """Index `j` or (zero-based) index of the label `j` in the basis"""
-        if isinstance(self.j, (int, SymbolicLabelBase)):
+        if isinstance(self.j, int):
             return self.j
+        elif isinstance(self.j, SymbolicLabelBase):
+            return self.j.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.j)
@@ -390,8 +392,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_k(self):
         """Index `k` or (zero-based) index of the label `k` in the basis"""
-        if isinstance(self.k, (int, SymbolicLabelBase)):
+        if isinstance(self.k, int):
             return self.k
+        elif isinstance(self.k, SymbolicLabelBase):
+            return self.k.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.k)
-- 
2.43.0


From c257f3492a5d004a8670db68f1182f625626d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 54/68] fix: ladder steps on symbolic labels keep the Hilbert
 space of the label

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 5 ++++-
 src/qnet/algebra/library/spin_algebra.py       | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..d1859af 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -13,6 +13,8 @@ from abc import ABCMeta, abstractmethod
 from collections import OrderedDict
 from itertools import product as cartesian_product
 
+import attr
+
 from .abstract_algebra import (
     Expression, Operation, )
 from .algebraic_properties import (
@@ -500,7 +502,8 @@ class LocalSpace(HilbertSpace, Expression):
                                  % (new_index, self._basis))
             return self._basis[new_index]
         elif isinstance(label_or_index, SymbolicLabelBase):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(
+                label_or_index, expr=label_or_index.expr + n)
         else:
             raise TypeError(
                 "Invalid type for label_or_index: %s"
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index b43c0ce..8604589 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -3,6 +3,7 @@ for integer and half-integer spin"""
 from abc import ABCMeta
 from collections.__init__ import OrderedDict
 
+import attr
 import sympy
 from sympy import sympify, sqrt
 
@@ -160,7 +161,8 @@ class SpinSpace(LocalSpace):
                     % (new_index, self._basis))
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(
+                label_or_index, expr=label_or_index.expr + n)
 
     @property
     def spin(self) -> sympy.Rational:
-- 
2.43.0


From dd85e0c0e0e9a4fd06732ffb9865dac4441e0303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 55/68] fix: local spaces are removed by and intersect with any
 space that contains them, full space included

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index d1859af..57465ba 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -66,7 +66,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self == FullSpace or other == FullSpace:
             return False
         else:
             for ls in self.local_factors:
@@ -441,12 +441,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if self <= other:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if self <= other:
             return self
         return TrivialSpace
 
-- 
2.43.0


From 8b10e0754594e3234430a7b21a7e45d94d793ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 56/68] fix: unknown labels of the trivial space raise KeyError

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 57465ba..c5a0ea9 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -564,7 +564,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %s in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
-- 
2.43.0


From ce03eb3806c6274924041bb59b06807933c0f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 57/68] fix: the basis is part of the identity of a SpinSpace

---
 src/qnet/algebra/library/spin_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 8604589..b1fd7db 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -89,6 +89,7 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
+        has_default_basis = basis is None
         if basis is None:
             basis = tuple([
                 SpinIndex._static_render(bottom + n)
@@ -106,9 +107,12 @@ class SpinSpace(LocalSpace):
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
             ('spin', self._spin),
+            ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if has_default_basis:
+            del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
         if order_index in [None, float('inf')]:
-- 
2.43.0


From 9847024f12c733a20b473b6e3ae193aaea3aae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 58/68] fix: angular momentum coefficients of labels and of
 symbolic basis indices

---
 src/qnet/algebra/library/spin_algebra.py | 36 +++++++++++-------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index b1fd7db..9b674ed 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -408,10 +408,10 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
         ls (LocalSpace): The Hilbert space in which the $\Op{J}_{+}$ operator
             acts.
         m (str or int): If str, the label of the basis state of `hs` to which
-            the operator is applied. If integer together with ``shift=True``,
-            the zero-based index of the basis state. Otherwise, directly the
-            quantum number $m$.
-        shift (bool): If True for a integer value of `m`, treat `m` as the
+            the operator is applied. If integer (or a symbolic index) together
+            with ``shift=True``, the zero-based index of the basis state.
+            Otherwise, directly the quantum number $m$.
+        shift (bool): If True for a non-string value of `m`, treat `m` as the
             zero-based index of the basis state (i.e., shift `m` down by $s$ to
             obtain the quantum number $m$)
     '''
@@ -421,10 +421,9 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
     assert n == int(2 * s + 1)
     if isinstance(m, str):
         m = ls.basis_labels.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            m = m - s
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        m = m - s
     return sqrt(s * (s + 1) - m * (m + 1))
 
 
@@ -442,13 +441,11 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        return ls.basis.index(m) - s
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            return m - s
-    else:
-        return sympify(m)
+        m = ls.basis_labels.index(m) - s
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        m = m - s
+    return sympify(m)
 
 
 def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
@@ -465,9 +462,8 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        m = ls.basis.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            m = m - s
+        m = ls.basis_labels.index(m) - s  # m is now Sympy expression
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        m = m - s
     return sqrt(s * (s + 1) - m * (m - 1))
-- 
2.43.0


From 9efb6e61d7d4234c0fa1fc29599c3379e8a35018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 59/68] fix: do not pull an irreducible local product out of an
 operator product forever

---
 src/qnet/algebra/_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 01458ce..6695f5b 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -608,7 +608,11 @@ def _algebraic_rules_state():
     ]))
 
     def local_rule(A, B, Psi):
-        return OperatorTimes.create(*A) * (B * Psi)
+        B_Psi = B * Psi
+        if B_Psi == OperatorTimesKet(B, Psi):
+            # pulling out an irreducible B * Psi would be undone by R014
+            raise CannotSimplify()
+        return OperatorTimes.create(*A) * B_Psi
 
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
-- 
2.43.0


From 9e108ef552382c945431e9e4a223f5de2a47711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 60/68] fix: the phase operator on a basis state uses the index
 of the state

---
 src/qnet/algebra/_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 6695f5b..bd969f2 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -701,8 +701,8 @@ def _algebraic_rules_state():
                  BasisKet(0, hs=ls)))),
         ('R019', (
             pattern_head(
-                pattern(Phase, u, hs=ls), pattern(BasisKet, m, hs=ls)),
-            lambda ls, u, m: exp(I * u * m) * BasisKet(m, hs=ls))),
+                pattern(Phase, u, hs=ls), basisket),
+            lambda ls, u, basisket: exp(I * u * basisket.index) * basisket)),
         ('R020', (
             pattern_head(
                 pattern(Phase, u, hs=ls),
-- 
2.43.0


From 729e57df0fb1082e3773fd9165699e4bd745c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 61/68] fix: indicator of an index range over a finite space
 excludes the dimension itself

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index f365f8c..389a20f 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -545,7 +545,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From eecdc733d3083bcbc95c2812c9cc054058ecf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 62/68] fix: ordering keys form a transitive order for any mix
 of numbers and symbols

---
 src/qnet/utils/ordering.py | 56 ++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 4103626..fbcd3c6 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -25,8 +25,11 @@ A user may implement a custom ordering by subclassing (or replacing)
 their replacements to all the desired algebraic classes.
 """
 
+import numbers
 from collections import OrderedDict
 
+import sympy
+
 __all__ = []
 
 __private__ = [  # anything not in __all__ must be in __private__
@@ -35,27 +38,46 @@ __private__ = [  # anything not in __all__ must be in __private__
 ]
 
 
+def _element_kind(val):
+    """The order of different kinds of elements: negative numbers (-2),
+    symbolic values with a leading minus sign (-1), other real numbers (0),
+    any other objects (1), tuples (2)"""
+    if isinstance(val, tuple):
+        return 2
+    if isinstance(val, sympy.Basic):
+        if not (val.is_number and val.is_real):
+            return -1 if str(val).startswith('-') else 1
+    elif not isinstance(val, numbers.Real):
+        return 1
+    return -2 if val < 0 else 0
+
+
 class KeyTuple(tuple):
     """A tuple that allows for ordering, facilitating the default ordering of
-    Operations. It differs from a normal tuple in that it falls back to string
-    comparison if any elements are not directly comparable"""
+    Operations. It differs from a normal tuple in that elements that are
+    neither real numbers nor tuples are ordered by their string representation,
+    after any real number (any non-negative number, for a leading minus sign)
+    and before any tuple. This guarantees that the ordering is transitive"""
     def __lt__(self, other):
         for (a, b) in zip(self, other):
-            try:
-                if a < b:
-                    return True
-                elif a > b:
-                    return False
-            except (TypeError, ValueError):
-                if str(a) < str(b):
-                    return True
-                elif str(a) > str(b):
-                    return False
-        if len(self) < len(other):
-            return True
-        elif len(self) > len(other):
-            return False
-        return False
+            kind_a, kind_b = _element_kind(a), _element_kind(b)
+            if kind_a != kind_b:
+                return kind_a < kind_b
+            if kind_a in (-1, 1):
+                if a == b:
+                    continue
+                str_a, str_b = str(a), str(b)
+                if str_a == str_b:
+                    # e.g. symbols that differ only in their assumptions
+                    str_a, str_b = sympy.srepr(a), sympy.srepr(b)
+                a, b = str_a, str_b
+            elif kind_a == 2:
+                a, b = KeyTuple(a), KeyTuple(b)
+            if a < b:
+                return True
+            elif a > b:
+                return False
+        return len(self) < len(other)
 
     def __gt__(self, other):
         # tuple.__gt__ is not the reverse of the above ordering
-- 
2.43.0


From aac40d6f49b2a520ba4c0f3a700817f1f30e6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 63/68] fix: convert_to_qutip: only replace the imaginary unit,
 not every letter I, in time-dependent coefficients

---
 src/qnet/convert/to_qutip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 97f55d9..e9e273a 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -451,7 +451,7 @@ def _time_dependent_to_qutip(
                 # TODO: we can probably use one of the sympy code generation
                 # routines, or lambdify with 'numexpr' to implement this in a
                 # more robust way
-                coeff = re.sub("I", "(1.0j)", str(op.coeff.val))
+                coeff = re.sub(r"\bI\b", "(1.0j)", str(op.coeff.val))
             else:
                 raise ValueError(("Invalid value '%s' for `convert_as`, must "
                                   "be one of 'str', 'pyfunc'") % convert_as)
-- 
2.43.0


From ccf42f1e326eb8ae03bfb1f98dc9ffa76c3a0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 64/68] fix: convert_to_qutip: wrong attributes and broken
 embedding for superoperators

---
 src/qnet/convert/to_qutip.py | 50 ++++++++++++------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index e9e273a..62eecff 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -90,7 +90,14 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
-    elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
+    elif isinstance(expr, SuperOperatorTimesOperator):
+        sop, op = expr.operands
+        return qutip.vector_to_operator(
+            convert_to_qutip(sop, full_space, mapping=mapping) *
+            qutip.operator_to_vector(
+                convert_to_qutip(op, full_space, mapping=mapping)))
+    elif (isinstance(expr, Operator) and isinstance(expr, Operation) and
+            not isinstance(expr, KetBra)):
         return _convert_operator_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, OperatorTrace):
         raise NotImplementedError('Cannot convert OperatorTrace to '
@@ -305,24 +312,15 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
 
 
 def _convert_state_operation_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
     if isinstance(expr, BraKet):
-        bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
+        bq = convert_to_qutip(expr.bra.ket, full_space, mapping=mapping).dag()
         kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
         return bq * kq
     elif isinstance(expr, KetBra):
-        bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
-        kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
-        return kq * bq
+        space = expr.space
+        bq = convert_to_qutip(expr.bra.ket, space, mapping=mapping).dag()
+        kq = convert_to_qutip(expr.ket, space, mapping=mapping)
+        return _embed(kq * bq, space, full_space)
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
@@ -360,25 +358,15 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
         return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,
                                                       mapping=mapping)
     elif isinstance(expr, OperatorTimesKet):
-        return convert_to_qutip(expr.coeff, full_space, mapping=mapping) * \
-                convert_to_qutip(expr.term, full_space, mapping=mapping)
+        return convert_to_qutip(expr.operator, full_space, mapping=mapping) * \
+                convert_to_qutip(expr.ket, full_space, mapping=mapping)
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
-    if isinstance(expr, IdentitySuperOperator):
+    if expr is IdentitySuperOperator:
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
     elif isinstance(expr, SuperOperatorPlus):
@@ -397,11 +385,7 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, SPost):
         return qutip.spost(convert_to_qutip(
                                         expr.operands[0], full_space, mapping))
-    elif isinstance(expr, SuperOperatorTimesOperator):
-        sop, op = expr.operands
-        return (convert_to_qutip(sop, full_space, mapping=mapping) *
-                convert_to_qutip(op, full_space, mapping=mapping))
-    elif isinstance(expr, ZeroSuperOperator):
+    elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
     else:
-- 
2.43.0


From 00210c72a96d706cdc3e28ae10f75e8f5f440c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 65/68] fix: convert_to_qutip: the adjoint of an operator could
 not be converted

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 62eecff..0551cca 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -263,8 +263,8 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
         # combine local factors in tensor product
         return qutip.tensor(*by_space)
     elif isinstance(expr, Adjoint):
-        return convert_to_qutip(qutip.dag(expr.operands[0]), full_space,
-                                mapping=mapping)
+        return convert_to_qutip(expr.operand, full_space,
+                                mapping=mapping).dag()
     elif isinstance(expr, ScalarTimesOperator):
         try:
             coeff = complex(expr.coeff)
-- 
2.43.0


From b8b1a54dff6fafc91ff55e3f06e68a8525571a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 66/68] fix: conversion of spin, phase, displacement and
 squeezing operators to matrices

---
 src/qnet/convert/to_qutip.py        | 20 +++++++++++---------
 src/qnet/convert/to_sympy_matrix.py | 26 +++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 0551cca..b85c24f 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -201,23 +201,25 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     if isinstance(expr, Create):
         return qutip.create(n)
     elif isinstance(expr, Jz):
-        return qutip.jmat((expr.space.dimension-1)/2., "z")
+        # the basis of a SpinSpace is in order of increasing m, whereas QuTiP
+        # orders its basis by decreasing m. The reversal of the basis maps
+        # J_z to -J_z, and exchanges J_+ and J_-
+        return -qutip.jmat((expr.space.dimension-1)/2., "z")
     elif isinstance(expr, Jplus):
-        return qutip.jmat((expr.space.dimension-1)/2., "+")
-    elif isinstance(expr, Jminus):
         return qutip.jmat((expr.space.dimension-1)/2., "-")
+    elif isinstance(expr, Jminus):
+        return qutip.jmat((expr.space.dimension-1)/2., "+")
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.operands[1]) * arange(n)
+        arg = complex(expr.phase) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = expr.operands[1]
-        return qutip.displace(n, alpha)
+        return qutip.displace(n, complex(expr.displacement))
     elif isinstance(expr, Squeeze):
-        eta = expr.operands[1]
-        return qutip.displace(n, eta)
+        # QuTiP's squeezing parameter has the opposite sign
+        return qutip.squeeze(n, -complex(expr.squeezing_factor))
     elif isinstance(expr, LocalSigma):
         j = expr.j
         k = expr.k
@@ -340,7 +342,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.operands[1]))
+        return qutip.coherent(n, complex(expr.ampl))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 220b445..ff5b861 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -13,7 +13,7 @@ from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 
 __all__ = ['convert_to_sympy_matrix']
-__private__ = ['SympyCreate', 'basis_state']
+__private__ = ['SympyCreate', 'SympyJplus', 'basis_state']
 
 
 def basis_state(i, n):
@@ -33,6 +33,16 @@ def SympyCreate(n):
     return a
 
 
+def SympyJplus(n):
+    """Raising operator of the spin ``s = (n-1)/2``, as an instance of
+    `sympy.Matrix`, in the basis ordered by increasing ``m``"""
+    jp = sympy.zeros(n)
+    for i in range(n-1):
+        # s(s+1) - m(m+1) for m = i - s
+        jp[i+1, i] = sympy.sqrt((i + 1) * (n - 1 - i))
+    return jp
+
+
 def convert_to_sympy_matrix(expr, full_space=None):
     """Convert a QNET expression to an explicit ``n x n`` instance of
     `sympy.Matrix`, where ``n`` is the dimension of `full_space`. The entries
@@ -70,10 +80,16 @@ def convert_to_sympy_matrix(expr, full_space=None):
             factors.extend([sympy.eye(s.dimension)
                             for s in all_spaces[own_space_index + 1:]])
             return tensor(*factors)
-        if isinstance(expr, (Create, Jz, Jplus)):
+        if isinstance(expr, Create):
             return SympyCreate(n)
-        elif isinstance(expr, (Destroy, Jminus)):
+        elif isinstance(expr, Destroy):
             return SympyCreate(n).H
+        elif isinstance(expr, Jz):
+            return sympy.diag(*[i - sympy.Rational(n-1, 2) for i in range(n)])
+        elif isinstance(expr, Jplus):
+            return SympyJplus(n)
+        elif isinstance(expr, Jminus):
+            return SympyJplus(n).H
         elif isinstance(expr, Phase):
             phi = expr.phase
             result = sympy.zeros(n)
@@ -81,11 +97,11 @@ def convert_to_sympy_matrix(expr, full_space=None):
                 result[i, i] = sympy.exp(sympy.I * i * phi)
             return result
         elif isinstance(expr, Displace):
-            alpha = expr.operands[1]
+            alpha = expr.displacement
             a = SympyCreate(n)
             return (alpha * a - alpha.conjugate() * a.H).exp()
         elif isinstance(expr, Squeeze):
-            eta = expr.operands[1]
+            eta = expr.squeezing_factor
             a = SympyCreate(n)
             return ((eta/2) * a**2 - (eta.conjugate()/2) * (a.H)**2).exp()
         elif isinstance(expr, LocalSigma):
-- 
2.43.0


From 465eabb88b31c4ad813de74473ab4d7c3d06d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 67/68] fix: convert_to_qutip: extend operators given by
 mapping to the full space

---
 src/qnet/convert/to_qutip.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index b85c24f..f5e36fc 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -70,11 +70,14 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
     if mapping is not None:
         if expr in mapping:
             ret = mapping[expr]
-            if isinstance(ret, qutip.Qobj):
-                return ret
-            else:
+            if not isinstance(ret, qutip.Qobj):
                 assert callable(ret)
-                return ret(expr)
+                ret = ret(expr)
+            if ret.type == 'oper' and expr.space != full_space:
+                dims = [s.dimension for s in full_space.local_factors]
+                if ret.dims[0] != dims:
+                    ret = _embed(ret, expr.space, full_space)
+            return ret
     if expr is IdentityOperator:
         local_spaces = full_space.local_factors
         if len(local_spaces) == 0:
@@ -125,6 +128,17 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
                          % (str(expr), type(expr)))
 
 
+def _embed(obj, space, full_space):
+    """Extend the operator `obj` in `space` to the larger `full_space`"""
+    own_spaces = list(space.local_factors)
+    extra = [ls for ls in full_space.local_factors if ls not in own_spaces]
+    if len(extra) == 0:
+        return obj
+    obj = qutip.tensor(*([obj] + [qutip.qeye(ls.dimension) for ls in extra]))
+    order = own_spaces + extra
+    return obj.permute([order.index(ls) for ls in full_space.local_factors])
+
+
 def SLH_to_qutip(slh, full_space=None, time_symbol=None,
                  convert_as='pyfunc'):
     """Generate and return QuTiP representation matrices for the Hamiltonian
-- 
2.43.0


From b8dfcf370d84e2d78e5c99280b958d00ee8d1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 68/68] fix: the order of a sum does not depend on where in the
 input its coefficients are

---
 src/qnet/algebra/core/operator_algebra.py       | 3 ++-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 3 ++-
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 11bdae8..98f99d0 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -465,7 +465,8 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index a8e4314..701a916 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -852,7 +852,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _binary_rules = OrderedDict()
     simplifications = [
         assoc, convert_to_scalars, orderby, collect_scalar_summands,
-        match_replace_binary]
+        orderby, match_replace_binary]
 
     def conjugate(self):
         """Complex conjugate of of the sum"""
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 41793f8..c179dd4 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -435,7 +435,8 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 0b8a946..15d68a8 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -125,7 +125,8 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [
+        assoc, orderby, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0

