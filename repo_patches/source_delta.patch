From f8234feaef97f68a2f5755f1456410d1938288ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 01/52] fix: reject odd number of real features in
 arraytocomplex

The two halves were silently broadcast together (e.g. 3 columns gave 2).
---
 robuststats/models/mappings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..e6e24ae 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -61,9 +61,12 @@ def arraytocomplex(a):
     Raises
     ------
     AttributeError
-        when input array format is not of dimension 1 or 2.
+        when input array format is not of dimension 1 or 2 or when the number
+        of features is not even.
     """
     if not np.iscomplexobj(a):
+        if a.ndim in (1, 2) and a.shape[-1] % 2 != 0:
+            raise AttributeError("Input array format not supported")
         if a.ndim == 1:
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
-- 
2.43.0


From b13cd5b26fa197b92492e5b0cd420b18448bf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 02/52] fix: complex mean with a real covariance is a complex
 model

Data was reduced to its real part while the model parameters were mapped to
their real equivalents: wrong density, or a broadcasting error when frozen.
---
 robuststats/models/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..edc3ea7 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -71,7 +71,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(cov) or np.iscomplexobj(mean):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
-- 
2.43.0


From 5382f50ceeb4aea92cf83a389fc635e10eea8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/52] fix: accept the default scalar covariance when no mean
 is given

---
 robuststats/models/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index edc3ea7..70a9627 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,7 +38,8 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
-        mean = np.zeros((len(cov),), dtype=cov.dtype)
+        mean = np.zeros((len(np.atleast_1d(cov)),),
+                        dtype=np.asarray(cov).dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
-- 
2.43.0


From 502c690f7ffea8a48bf031859bd739d1638a42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/52] fix: frozen complex normal logcdf with recent scipy

scipy's frozen logcdf calls self.cdf with a lower_limit keyword.
---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 70a9627..5d31b3e 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -105,11 +105,11 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, **kwargs):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, **kwargs))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
-- 
2.43.0


From 6133743136ea32b49bb4a2ba6981449144ff85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 05/52] fix: complex Student-t densities, cdf and entropy use
 the complex model

Unfrozen logpdf/pdf/cdf/entropy passed complex parameters to the real law,
which drops imaginary parts, and the frozen cdf did not map its argument.
---
 robuststats/models/probability.py | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 5d31b3e..c5619bb 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -323,6 +323,11 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
         return np.real(super(complex_multivariate_t_frozen,
                              self).logpdf(x))
 
+    def cdf(self, x, **kwargs):
+        x, _, _ = _check_parameters_array_complex_normal(
+            x, self._loc_orig, self._shape_orig)
+        return super(complex_multivariate_t_frozen, self).cdf(x, **kwargs)
+
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._loc_orig) or\
                      np.iscomplexobj(self._shape_orig)
@@ -374,6 +379,37 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        """Log of the multivariate t-distribution density function.
+        See `scipy.stats.multivariate_t` for more information.
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(x, loc, shape)
+        return super(complex_multivariate_t_gen,
+                     self).logpdf(x, loc, shape, df)
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        """Multivariate t-distribution density function.
+        See `scipy.stats.multivariate_t` for more information.
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(x, loc, shape)
+        return super(complex_multivariate_t_gen,
+                     self).pdf(x, loc, shape, df, allow_singular)
+
+    def cdf(self, x, loc=None, shape=1, df=1, allow_singular=False, **kwargs):
+        """Multivariate t-distribution cumulative distribution function.
+        See `scipy.stats.multivariate_t` for more information.
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(x, loc, shape)
+        return super(complex_multivariate_t_gen,
+                     self).cdf(x, loc, shape, df, allow_singular, **kwargs)
+
+    def entropy(self, loc=None, shape=1, df=1):
+        """Differential entropy of the multivariate t-distribution.
+        See `scipy.stats.multivariate_t` for more information.
+        """
+        loc, shape = _check_parameters_complex_normal(loc, shape)
+        return super(complex_multivariate_t_gen, self).entropy(loc, shape, df)
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From f68c9e65790b00b4af73ff48c5f65b1b79183837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 06/52] fix: unvech of a complex vector inverts vech instead of
 conjugating

vech keeps the lower triangle, unvech wrote it in the upper one.
---
 robuststats/utils/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..635812e 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -179,7 +179,7 @@ def unvech(v):
     rows = int(np.round(rows))
 
     result = np.zeros((rows, rows), dtype=v.dtype)
-    result[np.triu_indices(rows)] = v
+    result.T[np.triu_indices(rows)] = v
     result = result + result.conj().T
 
     # divide diagonal elements by 2
-- 
2.43.0


From e9a24d2b809eb14153b5e137024ed07913a4f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 07/52] fix: Tyler cost uses the log-determinant, no overflow
 in large dimension

---
 robuststats/models/cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..57b84a9 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -50,7 +50,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     temp = invsqrtm(Q, autograd)@X.T
     
     q = be.einsum('ij,ji->i', temp.T, temp)
-    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
+    return p*be.sum(be.log(q)) + n*be_la.slogdet(Q)[1]
 
 
 def Tyler_cost_complex(X, Q, autograd=False):
@@ -88,4 +88,4 @@ def Tyler_cost_complex(X, Q, autograd=False):
     n, p = X.shape
     temp = invsqrtm(Q, autograd)@X.T
     q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
-    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
+    return p*be.sum(be.log(be.real(q))) + n*be_la.slogdet(Q)[1]
\ No newline at end of file
-- 
2.43.0


From a0adf31fafa059f6d3aad38a4324f12b275679f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 08/52] fix: dimension of the Hermitian positive definite
 manifolds

n^2 real degrees of freedom per matrix, one less with unit determinant.
---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..88f1646 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From 386a85b61a675cf70908a74105ca79110e89993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 09/52] fix: random tangent vectors of weighted products have
 unit norm

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 88f1646..7c455ce 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From 9e77bf37ebcde8ed842b52e931c2a547a78bf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 10/52] fix: Kronecker manifold gradient, distance and random
 vectors use its metric

The additional trace term of the Fisher metric was only in the inner product,
so converted gradients were not gradients for it. Stacks: trace per matrix.
---
 robuststats/models/manifolds.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 7c455ce..c58fc03 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,5 +475,27 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                           np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
+
+    def dist(self, theta1, theta2):
+        # The metric on B has an additional term in the traces compared to
+        # the weighted product.
+        logdet = la.slogdet(theta2[1])[1] - la.slogdet(theta1[1])[1]
+        return np.sqrt(super().dist(theta1, theta2)**2 +
+                       (self._alpha - 1) * (self._a**2) * np.sum(logdet**2))
+
+    def egrad2rgrad(self, theta, egrad):
+        rgrad_A, rgrad_B = super().egrad2rgrad(theta, egrad)
+        # Sherman-Morrison inverse of the metric on B
+        trace = np.real(np.trace(la.solve(theta[1], rgrad_B),
+                                 axis1=-2, axis2=-1))
+        coef = (self._alpha - 1) * self._a /\
+            (self._alpha + (self._alpha - 1) * self._n)
+        rgrad_B = rgrad_B - (coef*trace)[..., np.newaxis, np.newaxis]*theta[1]
+        return _ProductTangentVector([rgrad_A, rgrad_B])
+
+    def randvec(self, theta):
+        xi = super().randvec(theta)
+        return xi * (1/self.norm(theta, xi))
-- 
2.43.0


From db204ee82cb7ec71d1a566750208790889d29dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 11/52] fix: Mahalanobis, score and error norms of complex
 covariances

---
 robuststats/estimation/base.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..f05b6f7 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -364,10 +364,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, reset=True, **check_params):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
-        )
+            check_array(arraytoreal(X), **check_params))
+        self._check_n_features(X_verified, reset=reset)
         return X_verified
 
     def fit(self, X, y=None):
@@ -397,13 +397,35 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         return self
 
+    def mahalanobis(self, X):
+        """Overidden mahalanobis of EmpiricalCovariance
+        to handle complex data."""
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.einsum('ij,jk,ik->i', X.conj(),
+                                 self.get_precision(), X))
+
+    def score(self, X_test, y=None):
+        """Overidden score of EmpiricalCovariance: mean circular complex
+        Gaussian log-likelihood of X_test."""
+        p = self.covariance_.shape[0]
+        _, logdet = np.linalg.slogdet(self.get_precision())
+        return logdet - p*np.log(np.pi) - np.mean(self.mahalanobis(X_test))
+
     def error_norm(self, comp_cov, norm='frobenius', scaling=True,
                    squared=True):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
-
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == 'frobenius':
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == 'spectral':
+            squared_norm = np.max(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 05b7fb454a2dd06021d96272ad7ecebef02c09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 12/52] fix: centred estimators set the location that their
 services use

---
 robuststats/estimation/covariance.py | 6 ++++++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..48565fc 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -519,6 +519,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -592,6 +593,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -693,6 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1093,6 +1096,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1170,6 +1174,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1272,6 +1277,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..2abb27f 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -176,6 +176,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         self.A_ = A
         self.B_ = B
         self._set_covariance(np.kron(A, B))
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
 
         return self
 
-- 
2.43.0


From 567ad752d42b6fb9385e6ef13e0c4f2dd4d1a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/52] fix: Tyler cost gradient at shape matrices with
 repeated eigenvalues

---
 robuststats/models/cost.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 57b84a9..1e45e06 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,9 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    # no eigen-decomposition here: its automatic derivative is undefined at
+    # repeated eigenvalues, such as those of the identity
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be_la.slogdet(Q)[1]
 
 
@@ -86,6 +85,5 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
     return p*be.sum(be.log(be.real(q))) + n*be_la.slogdet(Q)[1]
\ No newline at end of file
-- 
2.43.0


From bee76c7081f958c946b083accc672b7699c2db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 14/52] fix: determinant normalisation does not overflow or
 underflow

---
 robuststats/estimation/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 48565fc..244694e 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -61,7 +61,7 @@ def get_normalisation_function(normalisation=None):
         return np.real(np.trace(covariance)) / covariance.shape[0]
 
     def determinant(covariance):
-        return np.real(la.det(covariance))**(1/covariance.shape[0])
+        return np.exp(la.slogdet(covariance)[1]/covariance.shape[0])
 
     def element(covariance):
         return covariance[0, 0]
-- 
2.43.0


From 309d9cf531f2375c158ee25b4c8e027e7af59d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 15/52] fix: Student-t weights of the real and complex
 estimators were swapped

---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 244694e..235371c 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -853,9 +853,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From ad5e046bf26ded9c8c87b7c29d9a39a6d6475ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 16/52] fix: Huber estimator uses its weights and the Gaussian
 constants

---
 robuststats/estimation/covariance.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 235371c..4f46ce0 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + (lbda*(1-q)/p if q < 1 else 0)
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -754,7 +754,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, 2*p)/2    
-    beta = chi2.cdf(2*lbda, 2*p+2) + lbda*(1-q)/p    
+    beta = chi2.cdf(2*lbda, 2*p+2) + (lbda*(1-q)/p if q < 1 else 0)
     
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -767,7 +767,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From da779760b8b27def48c852095c008f6e91ab15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 17/52] fix: complex natural gradient Tyler estimator minimises
 the complex cost

---
 robuststats/estimation/covariance.py | 49 ++++++++++++----------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4f46ce0..16ea9a1 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -316,7 +316,8 @@ def _generate_Tyler_egrad(X, cost):
     @Callable
     def egrad(Q):
         res = autograd.grad(cost, argnum=[0])(Q)
-        return res[0]
+        # the gradient of autograd for complex matrices is the conjugate one
+        return np.conj(res[0])
 
     return egrad
 
@@ -915,34 +916,26 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
-    Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
-        X_real, init=init, normalisation='None',
-        verbosity=verbosity, **kwargs
-    )
+    n_samples, n_features = X.shape
     S = get_normalisation_function(normalisation)
-    Sigma = covariancetocomplex(Sigma)
-    Sigma = (Sigma + np.conj(Sigma).T)/2
-    return Sigma/S(Sigma), cost_value, None
-    # TODO :Debug why this doesn't work
-    # n_samples, n_features = X.shape
-    # S = get_normalisation_function(normalisation)
-
-    # # Normalisation to go to CAE model
-    # norm_X = la.norm(X, axis=1)
-    # Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])
-
-    # # Pymanopt setting
-    # logging.info("Seeting up pymanopt for natural gradient descent")
-    # manifold = HermitianPositiveDefinite(n_features)
-    # cost = _generate_complexTyler_cost_function(Y)
-    # egrad = _generate_Tyler_egrad(Y, cost)
-    # verbose = verbosity*(verbosity+1)
-    # problem = Problem(manifold=manifold, cost=cost,
-    #                   egrad=egrad, verbosity=verbose)
-    # solver = SteepestDescent()
-    # sigma = solver.solve(problem, x=init)
-    # return sigma/S(sigma), -cost(sigma), None
+
+    # Normalisation to go to CAE model
+    norm_X = la.norm(X, axis=1)
+    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])
+
+    # Pymanopt setting
+    logging.info("Seeting up pymanopt for natural gradient descent")
+    manifold = HermitianPositiveDefinite(n_features)
+    cost = _generate_complexTyler_cost_function(Y)
+    egrad = _generate_Tyler_egrad(Y, cost)
+    verbose = verbosity*(verbosity+1)
+    problem = Problem(manifold=manifold, cost=cost,
+                      egrad=egrad, verbosity=verbose)
+    solver = SteepestDescent()
+    if init is not None:
+        init = np.asarray(init, dtype=complex)
+    sigma = solver.solve(problem, x=init)
+    return sigma/S(sigma), -cost(sigma), None
 
 
 @_deprecate_positional_args
-- 
2.43.0


From b37915408eb2d54a4d406adc4b0aea6d70b273fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 18/52] fix: natural gradient Tyler estimation started at a
 stationary point

---
 robuststats/estimation/covariance.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 16ea9a1..f423282 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -322,6 +322,16 @@ def _generate_Tyler_egrad(X, cost):
     return egrad
 
 
+def _solve_from(problem, solver, init):
+    """Solve a pymanopt problem from an initial point (random when None),
+    which is returned when it is already a stationary point, since the
+    line-search cannot do anything with a null direction."""
+    x = problem.manifold.rand() if init is None else init
+    if problem.manifold.norm(x, problem.grad(x)) < solver._mingradnorm:
+        return x
+    return solver.solve(problem, x=x)
+
+
 @_deprecate_positional_args
 def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
                                   verbosity=False, **kwargs):
@@ -367,7 +377,7 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
     solver = SteepestDescent()
-    sigma = solver.solve(problem, x=init)
+    sigma = _solve_from(problem, solver, init)
     return sigma/S(sigma), -cost(sigma), None
 
 
@@ -934,7 +944,7 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     solver = SteepestDescent()
     if init is not None:
         init = np.asarray(init, dtype=complex)
-    sigma = solver.solve(problem, x=init)
+    sigma = _solve_from(problem, solver, init)
     return sigma/S(sigma), -cost(sigma), None
 
 
-- 
2.43.0


From b096545d0fd70d24b2f5076095b6a54d610c017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 19/52] fix: refit after a natural gradient fit, which reports
 no iteration

---
 robuststats/estimation/covariance.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index f423282..33cd559 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -522,7 +522,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = huber_m_estimator_fixed_point(
@@ -597,7 +597,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = student_t_mle_fixed_point(
@@ -700,7 +700,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
@@ -1091,7 +1091,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_huber_m_estimator_fixed_point(
@@ -1170,7 +1170,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_student_t_mle_fixed_point(
@@ -1274,7 +1274,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
-- 
2.43.0


From 0eb64c9deb3605dcfd461272a00f3fa2c5298281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 20/52] fix: Tyler estimators use the method and options they
 currently hold

---
 robuststats/estimation/covariance.py | 53 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 33cd559..648f7f9 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -666,23 +666,23 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
 
     def set_method(self):
         # TODO: Add BCD
-        if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        else:
+        if self.method not in ('fixed-point', 'natural gradient'):
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _estimation_function(self, X, init, **kwargs):
+        # no function stored in the object, so that it follows set_params and
+        # copies, and can be pickled
+        self.set_method()
+        if self.method == 'fixed-point':
+            return tyler_shape_matrix_fixedpoint(
+                X, init=init, tol=self.tol, iter_max=self.iter_max,
+                normalisation=self.normalisation,
+                verbosity=self.verbosity, **kwargs)
+        return tyler_shape_matrix_naturalgradient(
+            X, init=init, normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
@@ -1239,24 +1239,23 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
 
     def set_method(self):
         # TODO: Add BCD
-        if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-
-        elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        else:
+        if self.method not in ('fixed-point', 'natural gradient'):
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _estimation_function(self, X, init, **kwargs):
+        # no function stored in the object, so that it follows set_params and
+        # copies, and can be pickled
+        self.set_method()
+        if self.method == 'fixed-point':
+            return complex_tyler_shape_matrix_fixedpoint(
+                X, init=init, tol=self.tol, iter_max=self.iter_max,
+                normalisation=self.normalisation,
+                verbosity=self.verbosity, **kwargs)
+        return complex_tyler_shape_matrix_naturalgradient(
+            X, init=init, normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
-- 
2.43.0


From 113d58aed01364f1e001f82b7a6754f9bb1e8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:02 +0000
Subject: [PATCH 21/52] fix: determinant normalisation unchanged where the
 determinant is representable

---
 robuststats/estimation/covariance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 648f7f9..26ca421 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -61,7 +61,11 @@ def get_normalisation_function(normalisation=None):
         return np.real(np.trace(covariance)) / covariance.shape[0]
 
     def determinant(covariance):
-        return np.exp(la.slogdet(covariance)[1]/covariance.shape[0])
+        det = np.real(la.det(covariance))
+        if 0 <= det < np.finfo(float).tiny or np.isinf(det):
+            # beyond the range of floating point numbers
+            return np.exp(la.slogdet(covariance)[1]/covariance.shape[0])
+        return det**(1/covariance.shape[0])
 
     def element(covariance):
         return covariance[0, 0]
-- 
2.43.0


From 2d978deacbade7ba14f1b591e251a9dcde3d3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 22/52] fix: line-search of natural gradient Tyler estimation
 does not overflow

The first trial step of the default line-search, extrapolated from the last
decrease, can be so long that the exponential is numerically singular.
---
 robuststats/estimation/covariance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 26ca421..87956a8 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -33,6 +33,7 @@ from pymanopt.function import Callable
 from pymanopt import Problem
 from pymanopt.manifolds.psd import SymmetricPositiveDefinite
 from pymanopt.solvers import SteepestDescent
+from pymanopt.solvers.linesearch import LineSearchAdaptive
 import autograd
 import autograd.numpy as np_a
 import autograd.numpy.linalg as a_la
@@ -380,7 +381,7 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     verbose = verbosity*(verbosity+1)
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
-    solver = SteepestDescent()
+    solver = SteepestDescent(linesearch=LineSearchAdaptive())
     sigma = _solve_from(problem, solver, init)
     return sigma/S(sigma), -cost(sigma), None
 
@@ -945,7 +946,7 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     verbose = verbosity*(verbosity+1)
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
-    solver = SteepestDescent()
+    solver = SteepestDescent(linesearch=LineSearchAdaptive())
     if init is not None:
         init = np.asarray(init, dtype=complex)
     sigma = _solve_from(problem, solver, init)
-- 
2.43.0


From dac0906df87524e2d82b29e0e593e328752b8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 23/52] fix: left factor of the Kronecker MM estimate was
 transposed

---
 robuststats/estimation/structured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 2abb27f..ca590c8 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,9 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    # x = vec(M) with covariance A \kron B means that the iterations, written
+    # with M^H i_B M, are those of the transpose of A
+    return A.T, B, tol, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 0966cf4a6ed4d5a39959d03a54ff8161021dc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 24/52] fix: Kronecker MM reports its last change instead of
 the tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index ca590c8..2b91206 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -131,7 +131,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
 
     # x = vec(M) with covariance A \kron B means that the iterations, written
     # with M^H i_B M, are those of the transpose of A
-    return A.T, B, tol, iteration
+    return A.T, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 1e5c3ca5ad762f975c4d2a95464be68e9e73b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 25/52] fix: Kronecker MM refuses incompatible factor sizes

---
 robuststats/estimation/structured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 2b91206..b108922 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -70,7 +70,9 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         logging.error(
          f"Matrice size incompatible ({a}*{b} != {n_features})"
         )
-        return None
+        raise AttributeError(
+         f"Matrice size incompatible ({a}*{b} != {n_features})"
+        )
     M_i = Y.reshape((b, a, n_samples), order='F')
     delta = np.inf  # Distance between two iterations
     # Initialise estimate to identity
-- 
2.43.0


From 5e88568b3b0fe972fcca82fc90fc2e0edbc12e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 26/52] fix: gradient of the Kronecker Student-t cost is its
 derivative

---
 robuststats/estimation/structured.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index b108922..ffc7061 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -277,18 +277,20 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         # Pre-calculations
         i_A = la.inv(A)
         i_B = la.inv(B)
-        grad_A = np.zeros_like(A)
-        grad_B = np.zeros_like(B)
+        grad_A = n_samples*b*i_A
+        grad_B = n_samples*a*i_B
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
+            M_i = Y[i, :].reshape((b, a), order='F')
+            # x = vec(M) with covariance A \kron B involves the transpose of A
+            S_A = (M_i.T.conj()@i_B@M_i).T
+            S_B = M_i@i_A.T@M_i.T.conj()
+            Q_i = np.real(np.trace(i_A@S_A))
 
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
-        grad_A = grad_A/n_samples + b*i_A
-        grad_B = grad_B/n_samples + a*i_B
+            weight = (df+2*a*b)/(df+2*Q_i)
+            grad_A = grad_A - weight * i_A@S_A@i_A
+            grad_B = grad_B - weight * i_B@S_B@i_B
 
-        return (grad_A.T.conj(), grad_B.T.conj())
+        return (grad_A, grad_B)
 
     return egrad
 
-- 
2.43.0


From 27775dc18c8aa0e74d27485c6d53580a1ec42732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 27/52] fix: Kronecker Student-t score is the log-likelihood of
 the fitted model

---
 robuststats/estimation/structured.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index ffc7061..21dd8de 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -410,15 +410,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From 09d3d56eb3ccf5bd0cefd90b7cd90844f015e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 28/52] fix: KroneckerStudent takes parameters changed after
 construction into account

---
 robuststats/estimation/structured.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 21dd8de..52d8906 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -355,8 +355,12 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self.a = a
         self.b = b
         self.df = df
-        self.alpha = (df+a*b)/(df+a*b+1)
         self.verbosity = verbosity
+        self._set_manifold()
+
+    def _set_manifold(self):
+        a, b, df = self.a, self.b, self.df
+        self.alpha = (df+a*b)/(df+a*b+1)
         self.manifold = KroneckerHermitianPositiveElliptical(a, b, self.alpha)
 
     def fit(self, X, y=None, init=None):
@@ -375,6 +379,7 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         -------
         self : object
         """
+        self._set_manifold()
         X = self._validate_data(X)
         if self.assume_centered:
             self.location_ = np.zeros(X.shape[1])
-- 
2.43.0


From 62f0ca1b39c0a87677621a818869ee1a28cb407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 29/52] fix: a refused Kronecker fit leaves the results of the
 earlier one in place

---
 robuststats/estimation/structured.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 52d8906..34adea7 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -26,6 +26,14 @@ from ..models.probability import complex_multivariate_t
 from ..models.manifolds import KroneckerHermitianPositiveElliptical
 
 
+def _check_kronecker_size(X, a, b):
+    n_features = np.shape(X)[-1]
+    if a*b != n_features:
+        message = f"Matrice size incompatible ({a}*{b} != {n_features})"
+        logging.error(message)
+        raise AttributeError(message)
+
+
 def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
                                        verbosity=False):
     """A function that computes the MM algorithm for Kronecker structured
@@ -66,13 +74,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     n_samples, n_features = X.shape
     Y = X.T
 
-    if a*b != n_features:
-        logging.error(
-         f"Matrice size incompatible ({a}*{b} != {n_features})"
-        )
-        raise AttributeError(
-         f"Matrice size incompatible ({a}*{b} != {n_features})"
-        )
+    _check_kronecker_size(X, a, b)
     M_i = Y.reshape((b, a, n_samples), order='F')
     delta = np.inf  # Distance between two iterations
     # Initialise estimate to identity
@@ -170,6 +172,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         -------
         self : object
         """
+        _check_kronecker_size(X, self.a, self.b)
         X = self._validate_data(X)
 
         # Using pymanopt solver to obtain estimate
@@ -379,18 +382,20 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         -------
         self : object
         """
+        _check_kronecker_size(X, self.a, self.b)
         self._set_manifold()
         X = self._validate_data(X)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1])
+            location = np.zeros(X.shape[1])
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
 
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
-            X, self.df, self.a, self.b, self.manifold, self.location_,
+            X, self.df, self.a, self.b, self.manifold, location,
             self.verbosity, init
         )
+        self.location_ = location
         self.A_ = A
         self.B_ = B
         self._set_covariance(np.kron(A, B))
-- 
2.43.0


From cadef8345116b8d4de2fde1d49cd10133b0fa8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 30/52] fix: parameters of the online estimator can be read,
 set and cloned

---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..5370577 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         return self
 
@@ -78,16 +78,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
             self._iteration += 1
-- 
2.43.0


From c0dcd0419d84e43f8abd5b768b19f4e52fde99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 31/52] fix: online estimation descends along the gradient
 instead of climbing

---
 robuststats/online/estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 5370577..722383c 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -57,12 +57,13 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         # TODO: constant step + geodesic between past two iterations
         nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
+        # descent along the opposite of the gradient
         if isinstance(nabla, list):
-            t_nabla = [t*x for x in nabla]
+            t_nabla = [-t*x for x in nabla]
         elif isinstance(nabla, tuple):
-            t_nabla = tuple([t*x for x in nabla])
+            t_nabla = tuple([-t*x for x in nabla])
         else:
-            t_nabla = t*nabla
+            t_nabla = -t*nabla
 
         estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
-- 
2.43.0


From 0364b256e8ed2f21cb5c89fd26478a7554a089be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 32/52] fix: online estimation counts its steps from the start
 of the fit, also through update

---
 robuststats/online/estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 722383c..ffad099 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -67,11 +67,14 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
+        if init is not None:
+            self.set_estimate(init)
+        self._iteration = 0
         if self.estimate_ is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
@@ -91,6 +94,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From d81716a213e807a8166db2b34c73d51253851944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 33/52] fix: online estimation refuses invalid data and keeps
 covariance and estimate together

---
 robuststats/online/estimation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index ffad099..593fe46 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -10,6 +10,8 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
+from robuststats.models.mappings import arraytoreal
+from sklearn.utils.validation import check_array
 import logging
 from tqdm import tqdm
 
@@ -36,9 +38,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
-        self.estimate_ = estimate
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
@@ -72,6 +74,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
+        check_array(arraytoreal(X))
         if init is not None:
             self.set_estimate(init)
         self._iteration = 0
-- 
2.43.0


From 32b894a2e8dd01ae6de0c61a9f4a4c10102900d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 34/52] fix: covariances of trials are the estimator's, not
 truncated to the type of the data nor dependent on earlier trials

---
 robuststats/estimation/base.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index f05b6f7..4d1e512 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -258,18 +258,13 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
-        if self.n_jobs == 1:
-            for i in range(n_trials):
-                self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
-        else:
-            cov_list = Parallel(n_jobs=self.n_jobs)(
-                    delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
-                    for x in X
-                )
-            for i, cov in enumerate(cov_list):
-                covmats[i, :, :] = cov
+        cov_list = Parallel(n_jobs=self.n_jobs)(
+                delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs)
+                for x in X
+            )
+        # type and size of the estimates are those of the estimator
+        covmats = np.array(cov_list) if n_trials > 0 else \
+            np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
         return covmats
 
 
-- 
2.43.0


From 13d1b93cdade31ff5931212078854815b688dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 35/52] fix: features of a trial are estimated with the copy of
 the estimator

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 4d1e512..398625a 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -158,7 +158,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From f336d6f8a362edecbd221d4ba1b6e6ebc01671c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 36/52] fix: refused appends leave a feature array as it was,
 misshaped ones are refused, stored points are copies

---
 robuststats/estimation/base.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 398625a..39f47b1 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -87,25 +87,30 @@ class _FeatureArray():
         if type(data) == np.ndarray:
             data = [data]
 
-        if self._array is None:
-            self._array = [None]*len(self._shape)
-
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
-        for i, (a, d) in enumerate(zip(self._array, data)):
+        # everything is checked before anything is stored
+        batches = list()
+        for i, d in enumerate(data):
             check_type(d, 'd', [np.ndarray, np.memmap])
-            if a is not None:
-                check_value(d.dtype, 'd.dtype', [a.dtype])
+            if self._array is not None:
+                check_value(d.dtype, 'd.dtype', [self._array[i].dtype])
 
             # Add batch dim.
             if len(d.shape) == len(self._shape[i]):
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(self._shape[i])])
+            batches.append(d)
+
+        for d in batches:
+            check_value(len(d), 'len(d)', [len(batches[0])])
 
-            if a is None:
-                self._array[i] = d
-            else:
+        if self._array is None:
+            self._array = [np.array(d) for d in batches]
+        else:
+            for i, d in enumerate(batches):
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
                     a = self._array[i]
@@ -113,7 +118,7 @@ class _FeatureArray():
                     self._array[i] = np.concatenate([a, temp], axis=0)
                 self._array[i][len(self):len(self)+len(d)] = d
 
-        self._len += len(d)
+        self._len += len(batches[0])
 
     def vectorize(self):
         check_positive(len(self), 'len(self)', strictly=True)
-- 
2.43.0


From b57a11e9509dab2b957091aff38d28235a1b9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 37/52] fix: vectorisation of a feature array does not show its
 preallocated space

---
 robuststats/estimation/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 39f47b1..7738a77 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -126,6 +126,8 @@ class _FeatureArray():
         temp = list()
         for a in self._array:
             vec = None
+            # without the preallocated space
+            a = a[:len(self)]
             bs = len(a)
 
             # check if matrix
-- 
2.43.0


From e727bc4efedb8926060b5ccdaa1678e8e8d8d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 38/52] fix: indexing a feature array by a NumPy integer keeps
 the batch axis

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 7738a77..edce1db 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -72,7 +72,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From 483a78fd4503df76efaf0b1b1f85ea6a20caa33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 39/52] fix: covariances and frames of dimension one can be
 generated

---
 robuststats/utils/generation_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/robuststats/utils/generation_data.py b/robuststats/utils/generation_data.py
index f2f4c39..388d18d 100644
--- a/robuststats/utils/generation_data.py
+++ b/robuststats/utils/generation_data.py
@@ -66,6 +66,9 @@ def generate_textures_lognormal_dist(N, variance=2.4):
 
 
 def generate_stiefel(p, k):
+    if p == 1:
+        # ortho_group needs at least two dimensions
+        return random.choice([-1., 1.], size=(1, 1))
     if k < p:
         Q = ortho_group.rvs(p)[:, :k]
     else:
@@ -74,6 +77,9 @@ def generate_stiefel(p, k):
 
 
 def generate_complex_stiefel(p, k):
+    if p == 1:
+        # unitary_group needs at least two dimensions
+        return np.exp(2j*np.pi*random.rand(1, 1))
     if k < p:
         Q = unitary_group.rvs(p)[:, :k]
     else:
-- 
2.43.0


From 88b28227f8444b43874fd0684e57266162fa5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 40/52] fix: size check of the Kronecker estimators follows the
 complex size of real represented data

---
 robuststats/estimation/structured.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 34adea7..bd3906b 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -22,6 +22,7 @@ from pymanopt.solvers import SteepestDescent, ConjugateGradient
 from sklearn.utils.validation import _deprecate_positional_args
 
 from .base import ComplexEmpiricalCovariance
+from ..models.mappings import arraytocomplex
 from ..models.probability import complex_multivariate_t
 from ..models.manifolds import KroneckerHermitianPositiveElliptical
 
@@ -172,7 +173,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        _check_kronecker_size(X, self.a, self.b)
+        _check_kronecker_size(arraytocomplex(np.asarray(X)), self.a, self.b)
         X = self._validate_data(X)
 
         # Using pymanopt solver to obtain estimate
@@ -382,7 +383,7 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        _check_kronecker_size(X, self.a, self.b)
+        _check_kronecker_size(arraytocomplex(np.asarray(X)), self.a, self.b)
         self._set_manifold()
         X = self._validate_data(X)
         if self.assume_centered:
-- 
2.43.0


From 9a853b1c423f55aa36af873b23d7d0eba3f15ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 41/52] fix: initial covariance of small integer data does not
 overflow

---
 robuststats/estimation/covariance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 87956a8..8d61417 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,7 +158,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
     
 
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = init
         
@@ -238,7 +238,7 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
     
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = init
     delta = np.inf  # Distance between two iterations
@@ -422,7 +422,7 @@ def tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
     # Initialisation
     N, p = X.shape
     if init is None:
-        sigma = empirical_covariance(X, assume_centered=True)
+        sigma = empirical_covariance(X.astype(float), assume_centered=True)
     else:
         sigma = init
 
-- 
2.43.0


From 0ae1c6c0ec83727cd69b3b2b86d06e6d5979fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 42/52] fix: Kronecker Student-t estimation goes on until its
 likelihood is stationary

---
 robuststats/estimation/structured.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index bd3906b..e7fba7c 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -19,6 +19,7 @@ from tqdm import tqdm
 from pymanopt.function import Callable
 from pymanopt import Problem
 from pymanopt.solvers import SteepestDescent, ConjugateGradient
+from pymanopt.solvers.linesearch import LineSearchAdaptive
 from sklearn.utils.validation import _deprecate_positional_args
 
 from .base import ComplexEmpiricalCovariance
@@ -340,12 +341,21 @@ def _estimate_covariance_kronecker_t_gradient(X, df, a, b, manifold,
     problem = Problem(
         manifold=manifold, cost=cost, egrad=egrad, verbosity=verbosity
     )
-    solver = ConjugateGradient()
+    # the first step tried is of unit length, however close the optimum
+    solver = ConjugateGradient(linesearch=LineSearchAdaptive(maxiter=40))
     if init is None:
         theta_0 = (np.eye(a, dtype=complex), np.eye(b, dtype=complex))
     else:
         theta_0 = init
-    A, B = solver.solve(problem, x=theta_0)
+    theta = solver.solve(problem, x=theta_0)
+    # a conjugate direction can be degenerate (always with one dimension) and
+    # stop the solver before a stationary point: restart along the gradient
+    tol = solver._mingradnorm*X.shape[0]
+    for _ in range(10):
+        if manifold.norm(theta, problem.grad(theta)) < tol:
+            break
+        theta = solver.solve(problem, x=theta)
+    A, B = theta
 
     return A, B
 
-- 
2.43.0


From eb3ed7cbe2a79e415c3f417bd8c5dee64c48e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 43/52] fix: services of the online estimator have a location

---
 robuststats/online/estimation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 593fe46..d996d59 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -13,6 +13,7 @@ from robuststats.estimation.base import ComplexEmpiricalCovariance
 from robuststats.models.mappings import arraytoreal
 from sklearn.utils.validation import check_array
 import logging
+import numpy as np
 from tqdm import tqdm
 
 
@@ -40,6 +41,8 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
     def set_estimate(self, estimate):
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        # the model is centred, as its other services assume
+        self.location_ = np.zeros(len(self.covariance_), dtype=complex)
         self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
-- 
2.43.0


From dbf8b6471c0c3b221a1b1912795f2640bd655264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 44/52] fix: complex estimators accept nested lists as the real
 ones do

---
 robuststats/estimation/base.py   | 2 +-
 robuststats/online/estimation.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index edce1db..1261d8b 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -368,7 +368,7 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
     def _validate_data(self, X, reset=True, **check_params):
         X_verified = arraytocomplex(
-            check_array(arraytoreal(X), **check_params))
+            check_array(arraytoreal(np.asarray(X)), **check_params))
         self._check_n_features(X_verified, reset=reset)
         return X_verified
 
diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index d996d59..73f087c 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -77,6 +77,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
+        X = np.asarray(X)
         check_array(arraytoreal(X))
         if init is not None:
             self.set_estimate(init)
-- 
2.43.0


From 2e4dc98f73c3de29ec4d35f18f7c32cb4bb6f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:10 +0000
Subject: [PATCH 45/52] fix: the retraction of Hermitian matrices gives
 Hermitian matrices

Its rounding errors out of the Hermitian matrices grew from one retraction
to the next, until solvers met negative squared norms.
---
 robuststats/models/manifolds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index c58fc03..4fd1bf8 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -203,8 +203,9 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         return e
 
     def retr(self, x, u):
-        r = x + u + (1/2)*u@la.solve(x, u)
-        return r
+        # rounding errors out of the Hermitian matrices would grow from one
+        # retraction to the next
+        return multiherm(x + u + (1/2)*u@la.solve(x, u))
 
     def log(self, x, y):
         k = self._k
-- 
2.43.0


From e6b9be9108594a03a2840c8a0b7ebfad5a6f7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 46/52] fix: half-vectorised integer matrices can be restored

---
 robuststats/utils/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 635812e..2adeaba 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -180,9 +180,9 @@ def unvech(v):
 
     result = np.zeros((rows, rows), dtype=v.dtype)
     result.T[np.triu_indices(rows)] = v
+    # the diagonal elements are counted twice in the sum
+    diagonal = result.diagonal().real
     result = result + result.conj().T
-
-    # divide diagonal elements by 2
-    result[np.diag_indices(rows)] /= 2
+    result[np.diag_indices(rows)] = diagonal
 
     return result
\ No newline at end of file
-- 
2.43.0


From 16c05651d70e7bd4d290441a434ff0a82fc3cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 47/52] fix: unit determinant is reached when the determinant
 is out of the range of floats

---
 robuststats/models/manifolds.py      | 21 ++++-----------------
 robuststats/utils/generation_data.py |  7 +++----
 robuststats/utils/linalg.py          |  7 +++++++
 3 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 4fd1bf8..927dccc 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -23,7 +23,7 @@ from pymanopt.manifolds.product import _ProductTangentVector
 from pymanopt.manifolds.manifold import EuclideanEmbeddedSubmanifold
 from pymanopt.tools.multi import multihconj, multilog
 from pymanopt.tools.multi import multiprod, multitransp
-from ..utils.linalg import multiherm
+from ..utils.linalg import multiherm, unit_determinant
 
 # ---------------------------------------------------------------------
 # REAL MANIFOLDS
@@ -284,12 +284,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         x = self.HPD.rand()
 
         # Normalize them.
-        if self._k == 1:
-            x = x / (np.real(la.det(x))**(1/self._n))
-        else:
-            x = x / (np.real(la.det(x))**(1/self._n)).reshape(-1, 1, 1)
-
-        return x
+        return unit_determinant(x)
 
     def randvec(self, x):
         # Generate k matrices.
@@ -342,21 +337,13 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         e = self.HPD.exp(x, u)
 
         # Normalize them.
-        if self._k == 1:
-            e = e / np.real(la.det(e))**(1/self._n)
-        else:
-            e = e / (np.real(la.det(e))**(1/self._n)).reshape(-1, 1, 1)
-        return e
+        return unit_determinant(e)
 
     def retr(self, x, u):
         r = self.HPD.retr(x, u)
 
         # Normalize them.
-        if self._k == 1:
-            r = r / np.real(la.det(r))**(1/self._n)
-        else:
-            r = r / (np.real(la.det(r))**(1/self._n)).reshape(-1, 1, 1)
-        return r
+        return unit_determinant(r)
 
     def log(self, x, y):
         return self.HPD.log(x, y)
diff --git a/robuststats/utils/generation_data.py b/robuststats/utils/generation_data.py
index 388d18d..5b1a97f 100644
--- a/robuststats/utils/generation_data.py
+++ b/robuststats/utils/generation_data.py
@@ -12,12 +12,11 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 import numpy as np
-import numpy.linalg as la
 from numpy import random
 from scipy.linalg import toeplitz
 from scipy.stats import lognorm, ortho_group, unitary_group
 
-from .linalg import sqrtm
+from .linalg import sqrtm, unit_determinant
 
 
 def generate_covariance(p, unit_det=False):
@@ -31,7 +30,7 @@ def generate_covariance(p, unit_det=False):
     sigma = Q@D@Q.T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = unit_determinant(sigma)
 
     return sigma
 
@@ -47,7 +46,7 @@ def generate_complex_covariance(p, unit_det=False):
     sigma = Q@D@Q.conj().T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = unit_determinant(sigma)
 
     return sigma
 
diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 2adeaba..92655a0 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -131,6 +131,13 @@ def hermitian(X, autograd=False):
     return .5*(X + be.conjugate(X.T))
 
 
+def unit_determinant(X):
+    """Scale Hermitian positive definite matrices, one or a stack, to unit
+    determinant. The determinant itself can be out of the range of floats."""
+    logdet = np.linalg.slogdet(X)[1]
+    return X / np.exp(logdet / X.shape[-1])[..., np.newaxis, np.newaxis]
+
+
 def ToeplitzMatrix(rho, p, dtype=complex):
     """ A function that computes a Hermitian semi-positive matrix.
             Inputs:
-- 
2.43.0


From d272b6008fe01619756f171ad610336f5c5ed239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:34 +0000
Subject: [PATCH 48/52] fix: natural gradient moves from starting points close
 to the solution

---
 robuststats/estimation/covariance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 8d61417..f03bf1c 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -381,7 +381,8 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     verbose = verbosity*(verbosity+1)
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
-    solver = SteepestDescent(linesearch=LineSearchAdaptive())
+    # the first step tried is of unit length, however close the optimum
+    solver = SteepestDescent(linesearch=LineSearchAdaptive(maxiter=40))
     sigma = _solve_from(problem, solver, init)
     return sigma/S(sigma), -cost(sigma), None
 
@@ -946,7 +947,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     verbose = verbosity*(verbosity+1)
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
-    solver = SteepestDescent(linesearch=LineSearchAdaptive())
+    # the first step tried is of unit length, however close the optimum
+    solver = SteepestDescent(linesearch=LineSearchAdaptive(maxiter=40))
     if init is not None:
         init = np.asarray(init, dtype=complex)
     sigma = _solve_from(problem, solver, init)
-- 
2.43.0


From 3f2e0a2583c30a01330c4e90f3597f101acacf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:50 +0000
Subject: [PATCH 49/52] fix: array-like parameters and points of the complex
 laws

---
 robuststats/models/probability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index c5619bb..9a83eaa 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -44,8 +44,8 @@ def _check_parameters_complex_normal(mean, cov):
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
     else:
-        return arraytoreal(mean.astype(complex)),\
-                covariancetoreal(cov.astype(complex))
+        return arraytoreal(np.asarray(mean, dtype=complex)),\
+                covariancetoreal(np.asarray(cov, dtype=complex))
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -77,7 +77,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
-        return arraytoreal(X.astype(complex)), mean_map, cov_map
+        return arraytoreal(np.asarray(X, dtype=complex)), mean_map, cov_map
     elif np.iscomplexobj(X) and np.isrealobj(cov):
         logging.warning(
             "Input data is complex while parameters of model are not."
-- 
2.43.0


From 589e01ef4ea9cdb4aaf6c002d4c3103ee5ede5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:50 +0000
Subject: [PATCH 50/52] fix: Kronecker MM estimation of integer data

---
 robuststats/estimation/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index e7fba7c..00abfa4 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -75,6 +75,8 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
 
     n_samples, n_features = X.shape
     Y = X.T
+    if not np.issubdtype(Y.dtype, np.inexact):
+        Y = Y.astype(float)
 
     _check_kronecker_size(X, a, b)
     M_i = Y.reshape((b, a, n_samples), order='F')
-- 
2.43.0


From 5846da4c872fc183ff04a950428e45f2bf2e3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:50 +0000
Subject: [PATCH 51/52] fix: natural gradient from starting points that are not
 arrays of doubles

---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index f03bf1c..9942932 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -383,6 +383,8 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
                       egrad=egrad, verbosity=verbose)
     # the first step tried is of unit length, however close the optimum
     solver = SteepestDescent(linesearch=LineSearchAdaptive(maxiter=40))
+    if init is not None:
+        init = np.asarray(init, dtype=float)
     sigma = _solve_from(problem, solver, init)
     return sigma/S(sigma), -cost(sigma), None
 
-- 
2.43.0


From 38fdfd30028b296353333f5de2526ff11e2fc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:50 +0000
Subject: [PATCH 52/52] fix: retraction and transport at integer points of the
 positive vectors

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 927dccc..0153d69 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -84,13 +84,13 @@ class StrictlyPositiveVectors(EuclideanEmbeddedSubmanifold):
         return x*np.exp((1./x)*u)
 
     def retr(self, x, u):
-        return x + u + (1/2)*(x**-1)*(u**2)
+        return x + u + (1/2)*(1./x)*(u**2)
 
     def log(self, x, y):
         return x*np.log((1./x)*y)
 
     def transp(self, x1, x2, d):
-        res = self.proj(x2, x2*(x1**(-1)*d))
+        res = self.proj(x2, x2*((1./x1)*d))
         return res
 
 # ---------------------------------------------------------------------
-- 
2.43.0

