From b019c5d55f0307a7301e4027b0dac7b9cc8cc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 01/19] fix: keep two-sided bounded values finite and within
 bounds for free values of large magnitude

---
 paragami/numeric_array_patterns.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..a317fcc 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -54,8 +54,10 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # Neither the exponential nor the rounding of the result may
+            # leave the bounds for free values of large magnitude.
+            ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
+            return np.clip((ub - lb) * ratio + lb, lb, ub)
 
 
 def _constrain_array_jacobian(free_array, lb, ub):
@@ -72,8 +74,7 @@ def _constrain_array_jacobian(free_array, lb, ub):
         else:
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
+            ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
             return (ub - lb) * ratio * (1 - ratio)
 
 
@@ -107,8 +108,10 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # Neither the exponential nor the rounding of the result may
+            # leave the bounds for free values of large magnitude.
+            ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
+            return np.clip((ub - lb) * ratio + lb, lb, ub)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From d87f35ce5e866af37f0ed6ec67f57596dc503e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 02/19] fix: keep free_default in the JSON form and equality of
 every pattern

---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..8954a25 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..e38f6f2 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..e05356a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -130,7 +130,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -219,7 +220,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From d8ac52bccb8bf2f88c153201d2b283866753c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 03/19] fix: log a copy of the argument in
 OptimizationObjective

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..0abfbdf 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,8 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # Optimizers may modify ``x`` in place after this call.
+        self.optimization_log.append((num_f_evals, copy.deepcopy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From e88b1ee5d5ff4c33d244e0e081f39291c4190730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/19] fix: store numeric bounds as floats and shapes as ints
 so that equal patterns have equal JSON

---
 paragami/numeric_array_patterns.py | 6 +++---
 paragami/psdmatrix_patterns.py     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index a317fcc..40a3f57 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -143,9 +143,9 @@ class NumericArrayPattern(Pattern):
             Whether the pattern is free by default.
         """
         self.default_validate = default_validate
-        self._shape = tuple(shape)
-        self._lb = lb
-        self._ub = ub
+        self._shape = tuple(int(n) for n in shape)
+        self._lb = float(lb)
+        self._ub = float(ub)
         assert lb >= -float('inf')
         assert ub <= float('inf')
         if lb >= ub:
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index e38f6f2..896ba9f 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -194,7 +194,7 @@ class PSDSymmetricMatrixPattern(Pattern):
             Default setting for free.
         """
         self.__size = int(size)
-        self.__diag_lb = diag_lb
+        self.__diag_lb = float(diag_lb)
         self.default_validate = default_validate
         if diag_lb < 0:
             raise ValueError(
-- 
2.43.0


From 68d61c277becc1b6b83986aa6fba8530343a5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 05/19] fix: store array shapes as ints so that they can be
 saved as JSON

---
 paragami/pattern_containers.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 8954a25..8893e8e 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -446,7 +446,7 @@ class PatternArray(Pattern):
         """
         # TODO: change the name shape -> array_shape
         # and have shape be the whole array, including the pattern.
-        self.__array_shape = tuple(array_shape)
+        self.__array_shape = tuple(int(n) for n in array_shape)
         self.__array_ranges = [range(0, t) for t in self.__array_shape]
 
         num_elements = np.prod(self.__array_shape)
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index e05356a..4ef303a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -104,7 +104,7 @@ class SimplexArrayPattern(Pattern):
         self.__simplex_size = int(simplex_size)
         if self.__simplex_size <= 1:
             raise ValueError('simplex_size must be >= 2.')
-        self.__array_shape = array_shape
+        self.__array_shape = tuple(int(n) for n in array_shape)
         self.__shape = self.__array_shape + (self.__simplex_size, )
         self.__free_shape = self.__array_shape + (self.__simplex_size - 1, )
         self.default_validate = default_validate
-- 
2.43.0


From d56ce6fcaaf81339795678da4eccd717f2857fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/19] fix: lock members that are instances of PatternDict
 subclasses

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 8893e8e..4ba91c8 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -226,7 +226,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 99d115961af67d1df799ecc3c184b49b2cbd4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 07/19] fix: truncate integer eigenvalues at non-integer limits

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 0abfbdf..4999257 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -31,7 +31,8 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     eig_val_trunc
         A truncated version of ``evals``.
     """
-    eig_val_trunc = copy.deepcopy(evals)
+    # A copy of ``evals`` that can hold non-integer limits.
+    eig_val_trunc = 1.0 * evals
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From c8e738225c3a0b906d629405c53eb6947ad9cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/19] fix: make empty pattern dictionaries flatten, fold and
 nest

---
 paragami/pattern_containers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 4ba91c8..dcec549 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -318,13 +318,15 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return int(np.sum([pattern.flat_length(free) for pattern_name, pattern
+                           in self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
@@ -333,6 +335,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
+        if len(jacobians) == 0:
+            jacobians.append(coo_matrix((0, 0)))
         sp_jac = block_diag(jacobians, format='coo')
 
         if sparse:
@@ -347,6 +351,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
+        if len(jacobians) == 0:
+            jacobians.append(coo_matrix((0, 0)))
         sp_jac = block_diag(jacobians, format='coo')
         if sparse:
             return sp_jac
@@ -414,6 +420,8 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From 19e9008d976ee69ca79d5d34d4f34d9171a35c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 09/19] fix: validate_folded returns False for wrongly shaped
 matrices and simplexes

---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 896ba9f..75b4f77 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -273,7 +273,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 4ef303a..d5550f9 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -148,7 +148,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From 8d8aab98168e167b11d6efc825733bab1c1e3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 10/19] fix: SimplexArrayPattern.fold accepts one-dimensional
 vectors only, like the other patterns

---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index d5550f9..b3e50af 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -162,6 +162,9 @@ class SimplexArrayPattern(Pattern):
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
         flat_size = self.flat_length(free)
+        flat_val = np.atleast_1d(flat_val)
+        if len(flat_val.shape) != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
         if free:
-- 
2.43.0


From 4fb86a9b393af9c22795b7fca0d574f1015ccba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 11/19] fix: output wrappers of callables without a name raise
 ValueError for missing return values

---
 paragami/function_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..452fa8e 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -222,7 +222,7 @@ class TransformFunctionOutput:
             if not self._retnums == [0]:
                 err_msg = ('{} returned only one value, but multiple' +
                            'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+                            self._fun, self._retnums))
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -237,7 +237,7 @@ class TransformFunctionOutput:
             if len(rets) <= retnum:
                 err_msg = ('Not enough return values in {} ({}) for' +
                            'specified retnums {}.'.format(
-                            self._fun.__name__,
+                            self._fun,
                             len(rets),
                             self._retnums))
                 raise ValueError(err_msg)
-- 
2.43.0


From 9d10f52f779d305af7c6e09f57535b0977407420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 12/19] fix: simplexes folded from free values of large
 magnitude sum to one

---
 paragami/simplex_patterns.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index b3e50af..06ef3d6 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -29,6 +29,11 @@ def _constrain_simplex_matrix(free_mat):
     reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
     free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)
 
+    # Subtract the largest entry first, so that the simplex sums to one
+    # whatever the magnitude of the free values.
+    free_mat_aug = \
+        free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)
+
     # Note that autograd needs to update their logsumexp to be in special
     # not misc before this can be changed.  Furthermore, logsumexp is
     # not even available in the pypi version of autograd.
-- 
2.43.0


From 9ae70f9bc71480e83b6aff1b4d9f1ef92d464027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 13/19] fix: get_preconditioner copies the columns of operators
 that re-use their output array

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 4999257..6c4bb7c 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -139,7 +139,8 @@ def _get_matrix_from_operator(mult_fun, dim):
         # Re-instantiate to make sure that mult_fun is not returning a reference.
         vec = np.zeros(dim)
         vec[i] = 1.0
-        mat.append(mult_fun(vec))
+        # Copy, in case mult_fun re-uses the array it returns.
+        mat.append(np.array(mult_fun(vec)))
     return np.vstack(mat).T
 
 
-- 
2.43.0


From f871f83f4d52a247a6623e333c405cee04662946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 14/19] fix: one-by-one sparse preconditioners can be inverted

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 6c4bb7c..be03bef 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -201,7 +201,8 @@ class PreconditionedFunction():
         """
         if osp.sparse.issparse(a):
             if a_inv is None:
-                a_inv = osp.sparse.linalg.inv(a)
+                # ``inv`` returns a dense array for one-by-one matrices.
+                a_inv = osp.sparse.csc_matrix(osp.sparse.linalg.inv(a))
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From 85732f3091825a3c22324456bf63a51288a253fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 15/19] fix: do not lose the Cholesky diagonal of small or
 large matrices by cancellation

---
 paragami/psdmatrix_patterns.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 75b4f77..447aafd 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -125,8 +125,8 @@ def _exp_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    # Subtracting the original diagonal would lose precision by cancellation.
+    return mat_exp_diag + mat * (1.0 - np.eye(mat.shape[0]))
 
 
 def _log_matrix_diagonal(mat):
@@ -134,8 +134,8 @@ def _log_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    # Subtracting the original diagonal would lose precision by cancellation.
+    return mat_log_diag + mat * (1.0 - np.eye(mat.shape[0]))
 
 
 def _pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From 5f1895febedccf1eb7afc61e72a3df38998dfe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:21 +0000
Subject: [PATCH 16/19] fix: keep the precision of the two-sided Jacobian near
 the upper bound

---
 paragami/numeric_array_patterns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 40a3f57..56c3c95 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -75,7 +75,9 @@ def _constrain_array_jacobian(free_array, lb, ub):
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
             ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
-            return (ub - lb) * ratio * (1 - ratio)
+            # ``1 - ratio`` would lose precision near the upper bound.
+            ratio_complement = np.exp(-1 * np.logaddexp(0.0, free_array))
+            return (ub - lb) * ratio * ratio_complement
 
 
 def _get_inbounds_value(lb, ub):
-- 
2.43.0


From 6a7b8d1dbbaeaeffa189bc3cc2397a0b694399dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 17/19] fix: keep small eigenvalues of complete eigenspaces by
 avoiding cancellation

---
 paragami/optimization_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index be03bef..3a93f5e 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -91,6 +91,10 @@ def transform_eigenspace(eigvecs, eigvals, transform_function):
         # Equivalent to the more transparent:
         # vec_perp = vec - eigvecs @ vec_loadings
         # return vec_perp + eigvecs @ (new_eigvals * vec_loadings)
+        if eigvecs.shape[0] == eigvecs.shape[1]:
+            # Nothing is orthogonal to the eigenvectors.  Adding and
+            # subtracting vec would lose small eigenvalues by cancellation.
+            return eigvecs @ (new_eigvals * vec_loadings)
         return vec + eigvecs @ ((new_eigvals - 1) * vec_loadings)
 
     return a_mult
-- 
2.43.0


From 2ee6e3d4b306d1b58074936e973020c504b70138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 18/19] fix: two-sided numbers keep their derivatives where
 they round to a bound

---
 paragami/numeric_array_patterns.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 56c3c95..fcbf091 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -55,9 +55,14 @@ def _constrain_array(free_array, lb, ub):
             return ub - np.exp(-1 * free_array)
         else:
             # Neither the exponential nor the rounding of the result may
-            # leave the bounds for free values of large magnitude.
+            # leave the bounds for free values of large magnitude, so start
+            # from the nearer bound.  Clipping would make the derivatives
+            # zero where the result rounds to a bound.
             ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
-            return np.clip((ub - lb) * ratio + lb, lb, ub)
+            ratio_complement = np.exp(-1 * np.logaddexp(0.0, free_array))
+            return np.where(free_array < 0,
+                            lb + (ub - lb) * ratio,
+                            ub - (ub - lb) * ratio_complement)
 
 
 def _constrain_array_jacobian(free_array, lb, ub):
@@ -111,9 +116,14 @@ def _constrain_array(free_array, lb, ub):
             return ub - np.exp(-1 * free_array)
         else:
             # Neither the exponential nor the rounding of the result may
-            # leave the bounds for free values of large magnitude.
+            # leave the bounds for free values of large magnitude, so start
+            # from the nearer bound.  Clipping would make the derivatives
+            # zero where the result rounds to a bound.
             ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
-            return np.clip((ub - lb) * ratio + lb, lb, ub)
+            ratio_complement = np.exp(-1 * np.logaddexp(0.0, free_array))
+            return np.where(free_array < 0,
+                            lb + (ub - lb) * ratio,
+                            ub - (ub - lb) * ratio_complement)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From 3769685cf85f36822e8be3ed96aebea39aa9107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:15 +0000
Subject: [PATCH 19/19] fix: grouped_sum reads groups in reverse mode as it
 does forwards

---
 paragami/autograd_supplement_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..63f445d 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -231,6 +231,8 @@ def _ungroup(v, groups):
         return v[groups]
 
 def grouped_sum_vjp(ans, x, groups, num_groups=None):
+    # Read ``groups`` as ``grouped_sum`` does, so that it can be any vector.
+    groups = np.atleast_1d(groups).astype('int64')
     def vjp(v):
         return _ungroup(v, groups)
     return vjp
-- 
2.43.0

