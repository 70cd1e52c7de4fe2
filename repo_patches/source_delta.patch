From 59488fd5cdb4e4856680f939087764b707639d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 01/21] fix: default value of a two-sided bounded parameter
 must lie inside its bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..4fe3aa5 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 4416282f77ce48ee6eb300870c737cf7984565fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 02/21] fix: PosDefMatrixParamVector/Array.set must refuse
 every wrong shape

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..0e08369 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,7 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             print(val.shape)
             print(self.__shape)
             raise ValueError('Array is the wrong size')
-- 
2.43.0


From 88ee5f8fe880ed7e65fc3cb4f37b7da64cf7e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 03/21] fix: PosDefMatrixParamArray default construction and
 length()

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 0e08369..66da4b6 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -470,7 +470,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From 7b3a05ffb2ac3cab8829cb05878ec8da1b522cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 04/21] fix: WishartParam must give its scale matrix the
 declared size

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..580306d 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From ca6dffe83f91d68d4d9e12f150dab39498117242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 05/21] fix: WishartParam.e_inv is the expectation of the
 inverse, and differentiable

---
 LinearResponseVariationalBayes/WishartParams.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 580306d..cc1617e 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -1,7 +1,7 @@
 import LinearResponseVariationalBayes as vb
 import LinearResponseVariationalBayes.ExponentialFamilies as ef
 
-import numpy as np
+import autograd.numpy as np
 
 class WishartParam(vb.ModelParamsDict):
     def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
@@ -20,7 +20,8 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From 5f9c1a6327a5fbadd29c04209c3f9fb37c9dad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 06/21] fix: UVNMomentParamArray.var_exp must be the lognormal
 variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 6bad4329c0ea9652239be33160e207997b9e098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 07/21] fix: univariate_normal_log_prob normalizer uses the log
 of the information

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 57fd8412eafbfe19a310596cf039c7af5a944af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 08/21] fix: parameter transform derivatives must not write to
 any parameter object

---
 LinearResponseVariationalBayes/MatrixParameters.py | 12 ++++++++++--
 LinearResponseVariationalBayes/Parameters.py       |  9 +++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 66da4b6..f33c307 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -147,8 +147,16 @@ class PosDefMatrixParam(object):
             self.set(val)
 
         # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # Differentiate the transform and not this object's own setter, which
+        # would leave autograd types in the value (of the original object,
+        # when called on a deep copy).
+        vec_size = self.__vec_size
+        def free_to_vector(free_val):
+            if free_val.size != vec_size:
+                raise ValueError('Free value is the wrong length')
+            return pos_def_matrix_free_to_vector(free_val, diag_lb=diag_lb)
+        self.free_to_vector_jac_dense = autograd.jacobian(free_to_vector)
+        self.free_to_vector_hess_dense = autograd.hessian(free_to_vector)
 
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4fe3aa5..f11742a 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,8 +93,13 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # Differentiate the transform and not this object's own setter, which
+        # would leave autograd types in the value (of the original object,
+        # when called on a deep copy).
+        def free_to_vector(free_val):
+            return constrain(free_val, lb, ub)
+        self.free_to_vector_jac_dense = autograd.jacobian(free_to_vector)
+        self.free_to_vector_hess_dense = autograd.hessian(free_to_vector)
 
     def __str__(self):
         return self.name + ': ' + str(self.__val)
-- 
2.43.0


From b58433a109a73d572277305ec96580b1b5827548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 09/21] fix: sensitivity classes must use the hess0 they are
 given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..59d11fe 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -576,7 +576,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
-- 
2.43.0


From 0990f6455a84e5220fce211946be50e4af227a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 10/21] fix: sensitivity classes must honour input_is_free and
 hyper_is_free

---
 .../ModelSensitivity.py                       | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 59d11fe..6a5ea5b 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -588,14 +591,28 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        if self.input_is_free:
+            if self.hyper_is_free:
+                get_cross_hessian = self.joint_objective.fun_free_hessian12
+            else:
+                get_cross_hessian = \
+                    self.joint_objective.fun_hessian_free1_vector2
+        else:
+            if self.hyper_is_free:
+                get_cross_hessian = \
+                    self.joint_objective.fun_hessian_vector1_free2
+            else:
+                get_cross_hessian = self.joint_objective.fun_vector_hessian12
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            get_cross_hessian(self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From 3c2fe20ff3a79c04a0c7494df0c887b19328bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 11/21] fix: consolidate_terms must combine every matching term

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 6a5ea5b..50aa455 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,8 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        # Iterate over a copy, since matches are removed along the way.
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From b03617a1736ae604c654abd7656b7b668593041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 12/21] fix: Taylor expansion must take input-only derivatives
 from the whole objective

---
 .../ModelSensitivity.py                       | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 50aa455..96dd202 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -403,6 +403,14 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
+        # hyper_par_objective_functor only determines the derivatives with
+        # respect to hyper_par.
+        if hyper_par_objective_functor is None:
+            self.full_joint_objective = self.joint_objective
+        else:
+            self.full_joint_objective = obj_lib.TwoParameterObjective(
+                self.input_par, self.hyper_par, self.objective_functor)
+
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
@@ -436,6 +444,11 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_joint_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -461,6 +474,14 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        # Derivatives with respect to input_par alone must come from the whole
+        # objective.
+        if self.full_joint_objective is not self.joint_objective:
+            full_eval_g_derivs = generate_two_term_derivative_array(
+                self.full_objective_gradient, order=self.order + 1)
+            for i in range(len(self.eval_g_derivs)):
+                self.eval_g_derivs[i][0] = full_eval_g_derivs[i][0]
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From cafa5a5635a4b10f60da82f1a653dec38c8c00d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 13/21] fix: ParametricSensitivity output value must be that of
 the given optimum

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..0f974a1 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = \
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From c33c07e4b64a39c248d4304f6da747934ad35273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 14/21] fix: get_vector of vector parameters must not alias the
 parameter's value

---
 LinearResponseVariationalBayes/Parameters.py       | 2 +-
 LinearResponseVariationalBayes/ProjectionParams.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index f11742a..a786a53 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -226,7 +226,7 @@ class VectorParam(object):
     def set_vector(self, val):
         self.set(val)
     def get_vector(self):
-        return self.__val
+        return self.__val.flatten()
 
     def size(self):
         return self.__size
diff --git a/LinearResponseVariationalBayes/ProjectionParams.py b/LinearResponseVariationalBayes/ProjectionParams.py
index ff7040e..fb1ad9f 100644
--- a/LinearResponseVariationalBayes/ProjectionParams.py
+++ b/LinearResponseVariationalBayes/ProjectionParams.py
@@ -90,7 +90,7 @@ class SubspaceVectorParam(object):
     def set_vector(self, val):
         self.set(val)
     def get_vector(self):
-        return self.__val
+        return self.__val.flatten()
 
     def dim(self):
         return self.__dim
-- 
2.43.0


From 56e37a2a13dec17ce0a992fee3e1ab75c218ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 15/21] fix: Logger must record copies of x

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 0f974a1..83f281d 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -11,7 +11,7 @@ import json_tricks
 import scipy as sp
 from scipy import sparse
 
-from copy import deepcopy
+from copy import copy, deepcopy
 
 import time
 
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # The caller may reuse x's memory.
+        x = copy(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0


From be38fe3432c4f96ed2cf9b431942ca794900b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 16/21] fix: ModelParamsDict.push_param must refuse a duplicate
 name

---
 LinearResponseVariationalBayes/ParameterDictionary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 46ff59b..1c1780e 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -37,6 +37,9 @@ class ModelParamsDict(object):
         return self.param_dict[key]
 
     def push_param(self, param):
+        if param.name in self.param_dict:
+            raise ValueError(
+                'There is already a parameter named ' + str(param.name))
         self.param_dict[param.name] = param
         self.free_indices_dict[param.name] = \
             range(self.__free_size, self.__free_size + param.free_size())
-- 
2.43.0


From b43f5fef2c2a9e8ad8f25f7c2afc0921f8091f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 17/21] fix: ScalarParam.get_vector and free_to_vector must not
 alias the parameter's value

---
 LinearResponseVariationalBayes/Parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index a786a53..a3c23d6 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -131,7 +131,7 @@ class ScalarParam(object):
 
     def free_to_vector(self, free_val):
         self.set_free(free_val)
-        return self.get()
+        return self.get_vector()
     def free_to_vector_jac(self, free_val):
         return coo_matrix(self.free_to_vector_jac_dense(free_val))
     def free_to_vector_hess(self, free_val):
@@ -145,7 +145,7 @@ class ScalarParam(object):
     def set_vector(self, val):
         self.set(val)
     def get_vector(self):
-        return np.reshape(self.__val, 1)
+        return np.reshape(self.__val, 1).flatten()
 
     def size(self):
         return 1
-- 
2.43.0


From cc745cd668ce88abb105ec40b2472ded0564f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 18/21] fix: ScalarParam.dictval must be json-serializable for
 every numeric type

---
 LinearResponseVariationalBayes/Parameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index a3c23d6..e14ae4d 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -107,10 +107,11 @@ class ScalarParam(object):
         return [ self.name ]
     def dictval(self):
         # Assume it's either a numpy array or a float. :(
-        if isinstance(self.__val, numbers.Number):
-            return self.__val
-        else:
+        if hasattr(self.__val, 'tolist'):
+            # Numpy numbers are not in general json-serializable.
             return self.__val.tolist()
+        else:
+            return self.__val
 
     def set(self, val):
         # TODO: Make checking an option.
-- 
2.43.0


From 845d99b09b2d85e00bbcd4840e690bfc9204b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 19/21] fix: a two-sided bounded parameter could exceed its
 upper bound by a rounding error, and then refuse its own value

---
 LinearResponseVariationalBayes/Parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index e14ae4d..9231670 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -58,7 +58,10 @@ def constrain(free_vec, lb, ub):
             return ub - np.exp(-1 * free_vec)
         else:
             exp_vec = np.exp(free_vec)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            val = (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # Rounding can take val just past the upper bound, where
+            # unconstrain would refuse it.
+            return val - (val > ub) * (val - ub)
 
 constrain_scalar_jac = autograd.jacobian(constrain)
 constrain_scalar_hess = autograd.hessian(constrain)
-- 
2.43.0


From 2477deded3ec3fdaa35af8dd80db25ad189dbef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 20/21] fix: the moment form shared the arrays of the object it
 was set from

---
 LinearResponseVariationalBayes/NormalParams.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 39691a3..01bbd48 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -133,13 +133,15 @@ class UVNMomentParamArray(vb.ModelParamsDict):
 
     def set_from_uvn_param_array(self, uvn_par):
         assert(uvn_par.shape() == self.shape())
-        self['e'].set(uvn_par.e())
-        self['e2'].set(uvn_par.e_outer())
+        # Copy the values rather than sharing the other object's arrays.
+        self['e'].set_vector(uvn_par.e().flatten())
+        self['e2'].set_vector(uvn_par.e_outer().flatten())
 
     # Set from a scalar array assuming zero variance.
     def set_from_constant(self, scalar_array_par):
         assert(scalar_array_par.shape() == self.shape())
-        self['e'].set(scalar_array_par.get())
+        # Copy the value rather than sharing the other object's array.
+        self['e'].set_vector(scalar_array_par.get_vector())
         self['e2'].set(scalar_array_par.get() ** 2)
 
 
-- 
2.43.0


From d8c690688c486955f08b50a450ba7d5ff154f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 21/21] fix: editing a parameter's value in place changed the
 base values of sensitivity objects

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 14 ++++++++++----
 LinearResponseVariationalBayes/SparseObjectives.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 96dd202..176690a 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -415,8 +415,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_order(order)
 
     def set_par_to_base_values(self):
-        set_par(self.input_par, self.input_val0, self.input_is_free)
-        set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
+        # Use copies, since a parameter set from a vector refers to it, and
+        # editing the parameter's value must not change the base values.
+        set_par(self.input_par, deepcopy(self.input_val0), self.input_is_free)
+        set_par(self.hyper_par, deepcopy(self.hyper_val0), self.hyper_is_free)
 
     def cache_and_eval(self, diff_fun, *argv, **argk):
         result = diff_fun(*argv, **argk)
@@ -436,6 +438,7 @@ class ParametricSensitivityTaylorExpansion(object):
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
+        self.set_par_to_base_values()
 
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
     # expanding the gradient of the objective.
@@ -604,8 +607,10 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
-        set_par(self.input_par, self.input_val0, self.input_is_free)
-        set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
+        # Use copies, since a parameter set from a vector refers to it, and
+        # editing the parameter's value must not change the base values.
+        set_par(self.input_par, deepcopy(self.input_val0), self.input_is_free)
+        set_par(self.hyper_par, deepcopy(self.hyper_val0), self.hyper_is_free)
 
     def set_base_values(self, input_val0, hyper_val0, hess0=None):
         self.input_val0 = deepcopy(input_val0)
@@ -639,6 +644,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hess0_chol, self.hyper_par_cross_hessian0)
+        self.set_par_to_base_values()
 
     # Methods:
     def get_dinput_dhyper(self):
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 83f281d..ffb7c98 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,7 @@ class ParametricSensitivity(object):
         self.optimal_hyper_par = self.hyper_par.get_vector()
         self.hyper_par_cross_hessian = \
             self.sensitivity_objective.fun_hessian_free1_vector2(
-                self.optimal_input_par, self.optimal_hyper_par)
+                self.optimal_input_par, deepcopy(self.optimal_hyper_par))
 
         self.optimal_output_par = \
             self.parameter_converter.converter_free_to_vec(
-- 
2.43.0

