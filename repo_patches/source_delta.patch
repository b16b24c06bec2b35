From dde0c605cbe7607990e049538f7497bf016fe8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 01/16] fix: pairwise_distances(x, y) returned the transposed
 matrix

The (i, j) entry is documented as the distance between x[i] and y[j].
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From 69aed01a2a4012aaf720cfe704c44eabdde6743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 02/16] fix: U-statistic energy distance failed with Array API
 arrays

The standard requires the shape passed to reshape to be a tuple.
---
 dcor/_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
-- 
2.43.0


From 1342441056411a5a0481d7bd791764681b0e52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:01 +0000
Subject: [PATCH 03/16] fix: integer overflow in the pairwise distances

The check for NumPy arrays compared with a namespace that is never
returned, so integer (and low precision) arrays were never converted to
double and the squared differences overflowed silently.
---
 dcor/_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..7602503 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -149,11 +149,11 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     Return if the array can be safely converted to double.
 
     That happens when the dtype is a float with the same size of
-    a double or narrower, or when is an integer that can be safely
-    converted to double (if the roundtrip conversion works).
+    a double or narrower, or when is an integer (or a boolean) that can
+    be safely converted to double (if the roundtrip conversion works).
 
     """
-    if array_namespace(x) != np:
+    if array_namespace(x) not in {np, numpy_namespace}:
         return False
 
     return (
@@ -161,7 +161,10 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
             np.issubdtype(x.dtype, np.floating)
             and x.dtype.itemsize <= np.dtype(float).itemsize
         ) or (
-            np.issubdtype(x.dtype, np.signedinteger)
+            (
+                np.issubdtype(x.dtype, np.integer)
+                or np.issubdtype(x.dtype, np.bool_)
+            )
             and np.can_cast(x, float)
         )
     )
-- 
2.43.0


From 327683123777731125e79d5383a0932f727e6c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:01 +0000
Subject: [PATCH 04/16] fix: integer overflow in the fast distance covariance
 algorithms

Narrow (integer, boolean, float32...) NumPy arrays are converted to
double when that is safe, as done for the pairwise distances. Mixing
integers and floats in the mergesort method also raised an error.
---
 dcor/_fast_dcov_avl.py       | 7 ++++++-
 dcor/_fast_dcov_mergesort.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..febf4e9 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _can_be_numpy_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -535,6 +535,11 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    # Avoid overflow and loss of precision in narrower types.
+    if _can_be_numpy_double(x) and _can_be_numpy_double(y):
+        x = x.astype(np.float64, copy=False)
+        y = y.astype(np.float64, copy=False)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..3788312 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -27,7 +27,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _can_be_numpy_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -394,6 +394,11 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    # Avoid overflow and loss of precision in narrower types.
+    if _can_be_numpy_double(x) and _can_be_numpy_double(y):
+        x = x.astype(np.float64, copy=False)
+        y = y.astype(np.float64, copy=False)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
-- 
2.43.0


From 10b21ad307d7799924444fc173acccb9af3f4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 05/16] fix: catastrophic cancellation in the fast distance
 covariance algorithms

The distance correlation with a constant variable (such as one filled
with 0.1) could be greater than 1 instead of 0, and the results for data
far from the origin were dominated by rounding errors.
---
 dcor/_fast_dcov_avl.py       | 6 ++++++
 dcor/_fast_dcov_mergesort.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index febf4e9..8aabd2d 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -210,6 +210,12 @@ def _get_impl_args(
     n = x.shape[0]
     assert n > 3
     assert n == y.shape[0]
+
+    # Distances are invariant to translations, but the cancellation errors
+    # of the algorithm are not.
+    x = x - np.min(x)
+    y = y - np.min(y)
+
     temp = np.arange(n)
 
     argsort_x = np.argsort(x)
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 3788312..5c5655b 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -234,6 +234,11 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
 
         n = x.shape[0]
 
+        # Distances are invariant to translations, but the cancellation errors
+        # of the algorithm are not.
+        x = x - np.min(x)
+        y = y - np.min(y)
+
         # Sort x in ascending order
         ordered_indexes = np.argsort(x)
         x = x[ordered_indexes]
-- 
2.43.0


From b9d0696d278a987f1614dff369100ede3dadb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 06/16] fix: mergesort distance covariance read out of bounds

Samples of different sizes were accepted, indexing out of the bounds of
the second one in compiled code.
---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 5c5655b..08f275f 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -399,6 +400,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    _check_same_n_elements(x, y)
+
     # Avoid overflow and loss of precision in narrower types.
     if _can_be_numpy_double(x) and _can_be_numpy_double(y):
         x = x.astype(np.float64, copy=False)
-- 
2.43.0


From 1badfa6519d0f10ccb7988c45d880bfeeb68c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 07/16] fix: integer overflow in the compiled distance
 covariance for large samples

The cube of the number of samples overflowed in compiled code for more
than 2097151 samples (used in rowwise), giving wrong results.
---
 dcor/_dcor_internals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index d8f5fd7..457e16a 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -190,11 +190,15 @@ def _dcov_from_terms(
     if bias_corrected:
         first_term /= (n_samples - 3)
         second_term /= (n_samples - 2) * (n_samples - 3)
-        third_term /= (n_samples - 1) * (n_samples - 2) * (n_samples - 3)
+        # Avoid integer overflow in the product when this is compiled
+        third_term /= (n_samples - 1)
+        third_term /= (n_samples - 2) * (n_samples - 3)
     else:
         first_term /= n_samples
         second_term /= n_samples**2
-        third_term /= n_samples**3
+        # Avoid integer overflow in the power when this is compiled
+        third_term /= n_samples
+        third_term /= n_samples**2
 
     return first_term - 2 * second_term + third_term
 
-- 
2.43.0


From 4334e455abd9c3c8a294fff51fc4c43b206f9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 08/16] fix: optimized rowwise computation failed with integer
 arrays

The result, which is always a double, was stored in an array with the
type of the input.
---
 dcor/_fast_dcov_avl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 8aabd2d..12f05c5 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -639,7 +639,7 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    res = np.zeros(x.shape[0], dtype=np.float64)
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
-- 
2.43.0


From 25e838cb6cd339ac7aee62d785ef581e7d05506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 09/16] fix: infinite rowwise distance correlations when a
 variance is zero

Compute the denominator as in the non rowwise functions, which return 0
in that case.
---
 dcor/_rowwise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..401573f 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -69,13 +69,14 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
             return NotImplemented
 
         cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_var = res_covs[n_comps:2 * n_comps]
+        y_var = res_covs[2 * n_comps:]
+        denominator = _sqrt(np.abs(x_var * y_var))
 
         with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
+            corr_sqr = cov / denominator
 
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        corr_sqr[denominator == 0] = 0
 
         return corr_sqr
 
-- 
2.43.0


From 10d9059e8fa0b320a43251b84bd7a2972027d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:38 +0000
Subject: [PATCH 10/16] fix: rowwise failed for random vectors of different
 shapes

The optimized implementation requires equal shapes, so use the naive one
otherwise.
---
 dcor/_rowwise.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 401573f..ef351a8 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -14,6 +14,11 @@ from ._utils import ArrayType, RowwiseMode as RowwiseMode, _sqrt, array_namespac
 Array = TypeVar("Array", bound=ArrayType)
 
 
+def _have_same_shape(vectors):
+    """Return if all random vectors of a sequence have the same shape."""
+    return len({np.shape(vector) for vector in vectors}) <= 1
+
+
 def _generate_rowwise_distance_covariance_sqr(unbiased):
     def rowwise_distance_covariance_sqr(
             x, y, exponent=1, *,
@@ -24,6 +29,9 @@ def _generate_rowwise_distance_covariance_sqr(unbiased):
                                              exponent=exponent):
             return NotImplemented
 
+        if not (_have_same_shape(x) and _have_same_shape(y)):
+            return NotImplemented
+
         if (method in (_dcor.DistanceCovarianceMethod.AUTO,
                        _dcor.DistanceCovarianceMethod.AVL)):
             return _rowwise_distance_covariance_sqr_avl_generic(
@@ -61,6 +69,9 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
 
         n_comps = len(x)
 
+        if not _have_same_shape([*x, *y]):
+            return NotImplemented
+
         concat_x = np.concatenate((x, x, y))
         concat_y = np.concatenate((y, x, y))
 
-- 
2.43.0


From a9f61c2ad0a707b6b92310c5981f71a68c3dc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:36 +0000
Subject: [PATCH 11/16] fix: rowwise failed with arrays that do not fit in
 doubles

---
 dcor/_fast_dcov_avl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 12f05c5..83db98f 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -629,6 +629,10 @@ def _rowwise_distance_covariance_sqr_avl_generic(
     x = np.asarray(x)
     y = np.asarray(y)
 
+    # The compiled implementation only supports double precision.
+    if not (_can_be_numpy_double(x) and _can_be_numpy_double(y)):
+        return NotImplemented
+
     assert 2 <= x.ndim <= 3
     if x.ndim == 3:
         assert x.shape[2] == 1
-- 
2.43.0


From d1d59698b3fa411f6d28c241b6501af193f26b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 12/16] fix: fast algorithms failed or overflowed when mixing
 wide and narrow types

---
 dcor/_fast_dcov_avl.py       | 10 +++++++---
 dcor/_fast_dcov_mergesort.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 83db98f..ff199ab 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -542,9 +542,13 @@ def _distance_covariance_sqr_terms_avl(
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
     # Avoid overflow and loss of precision in narrower types.
-    if _can_be_numpy_double(x) and _can_be_numpy_double(y):
-        x = x.astype(np.float64, copy=False)
-        y = y.astype(np.float64, copy=False)
+    dtype = (
+        np.float64
+        if _can_be_numpy_double(x) and _can_be_numpy_double(y)
+        else np.result_type(x, y)
+    )
+    x = x.astype(dtype, copy=False)
+    y = y.astype(dtype, copy=False)
 
     if compile_mode not in impls_dict:
         raise NotImplementedError(
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 08f275f..4892642 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -403,9 +403,13 @@ def _distance_covariance_sqr_terms_mergesort(
     _check_same_n_elements(x, y)
 
     # Avoid overflow and loss of precision in narrower types.
-    if _can_be_numpy_double(x) and _can_be_numpy_double(y):
-        x = x.astype(np.float64, copy=False)
-        y = y.astype(np.float64, copy=False)
+    dtype = (
+        np.float64
+        if _can_be_numpy_double(x) and _can_be_numpy_double(y)
+        else np.result_type(x, y)
+    )
+    x = x.astype(dtype, copy=False)
+    y = y.astype(dtype, copy=False)
 
     if compile_mode not in impls_dict:
         raise NotImplementedError(
-- 
2.43.0


From 1de2a5c75d4e947f1bab06c4bdcc6b1d9fc90a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 13/16] fix: partial distance covariance accepted samples of
 different sizes

---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..57731ad 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -6,6 +6,7 @@ from typing import TypeVar
 import numpy as np
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -82,6 +83,9 @@ def partial_distance_covariance(
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
 
+    _check_same_n_elements(a, b)
+    _check_same_n_elements(a, c)
+
     proj = u_complementary_projection(c)
 
     return u_product(proj(a), proj(b))
@@ -150,6 +154,9 @@ def partial_distance_correlation(
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
 
+    _check_same_n_elements(a, b)
+    _check_same_n_elements(a, c)
+
     aa = u_product(a, a)
     bb = u_product(b, b)
     cc = u_product(c, c)
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..1f10578 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -216,6 +216,9 @@ def partial_distance_covariance_test(
     u_y = _u_distance_matrix(y, exponent=exponent)
     u_z = _u_distance_matrix(z, exponent=exponent)
 
+    _check_same_n_elements(u_x, u_y)
+    _check_same_n_elements(u_x, u_z)
+
     # Compute projections
     proj = u_complementary_projection(u_z)
 
-- 
2.43.0


From 99a79382a1d5bef62e6b1a3fa87bfffc753f8342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:34 +0000
Subject: [PATCH 14/16] fix: center matrices correctly when the output overlaps
 the input

---
 dcor/_dcor_internals.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index 457e16a..a184e98 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -255,11 +255,13 @@ def double_centered(a: Array, *, out: Array | None = None) -> Array:
                [-0.22222222,  0.11111111,  0.11111111]])
 
     """
-    out = _float_copy_to_out(out, a)
-
     dim = a.shape[0]
+
+    # The output can share memory with the input, so compute the sums first
     axis_sum, total_sum = _symmetric_matrix_sums(a)
 
+    out = _float_copy_to_out(out, a)
+
     total_mean = total_sum / dim**2
     axis_mean = axis_sum / dim
 
@@ -331,12 +333,13 @@ def u_centered(a: Array, *, out: Array | None = None) -> Array:
                [nan,  0.]])
 
     """
-    out = _float_copy_to_out(out, a)
-
     dim = a.shape[0]
 
+    # The output can share memory with the input, so compute the sums first
     axis_sum, total_sum = _symmetric_matrix_sums(a)
 
+    out = _float_copy_to_out(out, a)
+
     total_u_mean = total_sum / ((dim - 1) * (dim - 2))
     axis_u_mean = axis_sum / (dim - 2)
 
-- 
2.43.0


From 41564a840ae11c912181098ee8bcc19663ecfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:53 +0000
Subject: [PATCH 15/16] fix: permutation tests gave the smallest p-value when
 the statistic is NaN

---
 dcor/_hypothesis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcor/_hypothesis.py b/dcor/_hypothesis.py
index 9f71028..d1cae23 100644
--- a/dcor/_hypothesis.py
+++ b/dcor/_hypothesis.py
@@ -126,6 +126,10 @@ def _permutation_test_with_sym_matrix(
     )
     pvalue = float(xp.sum(extreme_results) + 1.0) / (num_resamples + 1)
 
+    # No comparison is meaningful if the statistic is not a number
+    if statistic != statistic:
+        pvalue = np.nan
+
     return HypothesisTest(
         pvalue=pvalue,
         statistic=statistic,
-- 
2.43.0


From 46c91d0ef3d45e1dad5942de59b68226f1a82f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 16/16] fix: rowwise with different numbers of x and y
 truncated or broadcast them

---
 dcor/_rowwise.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ef351a8..ddeb524 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -32,6 +32,9 @@ def _generate_rowwise_distance_covariance_sqr(unbiased):
         if not (_have_same_shape(x) and _have_same_shape(y)):
             return NotImplemented
 
+        if len(x) != len(y):
+            raise ValueError("There must be the same number of x and y")
+
         if (method in (_dcor.DistanceCovarianceMethod.AUTO,
                        _dcor.DistanceCovarianceMethod.AVL)):
             return _rowwise_distance_covariance_sqr_avl_generic(
@@ -201,5 +204,8 @@ def rowwise(
     xp = array_namespace(x, y)
 
     return xp.asarray(
-        [function(x_elem, y_elem, **kwargs) for x_elem, y_elem in zip(x, y)],
+        [
+            function(x_elem, y_elem, **kwargs)
+            for x_elem, y_elem in zip(x, y, strict=True)
+        ],
     )
-- 
2.43.0

