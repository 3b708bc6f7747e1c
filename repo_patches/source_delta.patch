From 89ddf1c258ada46ea75f19100f7b28147bb3ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 01/14] fix: accept furthest-sum options in archetypal analysis
 and MTD fits

The start_index, n_extra_steps and exclude options belong to the dictionary
initialisation only; passing them on to the weights and parameters
initialisation raised TypeError.
---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..9779f7c 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -136,7 +136,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -704,7 +704,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..fdf4d98 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -581,7 +581,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..15d6a60 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -803,7 +803,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=self.init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -816,7 +816,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=self.init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = data.copy()
         self.Gamma = weights.copy()
-- 
2.43.0


From c94887324d547cec8afe063bf68ff8b78f2b4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 02/14] fix: report the number of iterations performed in GPNH,
 MTD and FEM-BV fits

The loop index of the last iteration was reported, one less than the number of
iterations, so that the warning for reaching the iteration limit was never
issued.
---
 src/reor/fembv.py              | 2 +-
 src/reor/gpnh_convex_coding.py | 2 +-
 src/reor/mtd_convex_coding.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..9aa2ce9 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -301,7 +301,7 @@ class FEMBV():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _fembv_fit(self, data, parameters=None, weights=None, init=None,
                    update_parameters=True, update_weights=True, **kwargs):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index fdf4d98..8d832a1 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -549,7 +549,7 @@ class GPNHConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _gpnh_convex_coding(self, data, dictionary=None, weights=None,
                             update_dictionary=True, update_weights=True,
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 15d6a60..cb69890 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -753,7 +753,7 @@ class MTDConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _mtd_convex_coding(self, data, dictionary=None, weights=None,
                            order_weights=None, transition_matrices=None,
-- 
2.43.0


From 6558183aefcc01cba7a01b7491bfce9069010814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 03/14] fix: warn when archetypal analysis reaches the
 iteration limit

The index of the last iteration was compared with the number of iterations, so
the warning was never issued.
---
 src/reor/archetypal_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 9779f7c..1f481bb 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -726,7 +726,7 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
-- 
2.43.0


From 5da3ff579ea42f7bab2c1bfa05f3f66323ae377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 04/14] fix: allow transform after a fit with init='custom'

transform passes no initial weights, so the custom branch always rejected the
call; fall back to the default weights initialisation when only the weights
are optimised and none are given.
---
 src/reor/archetypal_analysis.py |  9 +++++++--
 src/reor/gpnh_convex_coding.py  |  9 +++++++--
 src/reor/mtd_convex_coding.py   | 13 +++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 1f481bb..6a07939 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -694,7 +694,12 @@ class KernelAA():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # weights of new data cannot be given in advance
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
@@ -703,7 +708,7 @@ class KernelAA():
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components, init=init,
                 random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 8d832a1..0d0c486 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -571,7 +571,12 @@ class GPNHConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # weights of new data cannot be given in advance
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -580,7 +585,7 @@ class GPNHConvexCoding():
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
-                data, self.n_components, init=self.init,
+                data, self.n_components, init=init,
                 random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index cb69890..fc7b494 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -777,7 +777,12 @@ class MTDConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # weights of new data cannot be given in advance
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -794,7 +799,7 @@ class MTDConvexCoding():
                                        '_mtd_convex_coding (input dictionary)')
             else:
                 dictionary = _initialize_mtd_convex_coding_dictionary(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components, init=init,
                     random_state=self.random_state, **kwargs)
 
             if not update_weights:
@@ -802,7 +807,7 @@ class MTDConvexCoding():
                                     '_mtd_convex_coding (input weights)')
             else:
                 weights = _initialize_mtd_convex_coding_weights(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components, init=init,
                     random_state=self.random_state)
 
             if not update_parameters:
@@ -815,7 +820,7 @@ class MTDConvexCoding():
             else:
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
-                        data, self.n_components, init=self.init, order=n_lags,
+                        data, self.n_components, init=init, order=n_lags,
                         random_state=self.random_state)
 
         self.X = data.copy()
-- 
2.43.0


From b2b623986a5eed6cd29bff632a9cf850d9a05d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 05/14] fix: make the k-means CROM methods usable

KMeans.predict takes no sample weights, fit_predict and fit_transform used the
clustering of an earlier fit, and the documented default number of clusters
was not applied.
---
 src/reor/crom.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..41bb620 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -150,7 +153,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -170,7 +173,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
@@ -202,9 +205,9 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 4d84e81675961782639f0cb0c591dfc044838afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 06/14] fix: accept a single endogenous variable given as a
 column in ClusterPWVARX

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..ea42d8f 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -190,14 +190,9 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 7568ffb368b4ec097185a7bce34f86caf20e2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 07/14] fix: support components of different memory in
 FEM-BV-VARX

Component i models the data from sample (maximum memory - memory[i]) on, so its
external factors start there too and its residuals are defined from row
memory[i] on.
---
 src/reor/fembv_varx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..11f9a84 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -285,14 +285,13 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
-                self.models[i].residuals[presample_length:],
+                self.models[i].residuals[self.memory[i]:],
                 metric,
-                self.models[i].residuals[presample_length:])
+                self.models[i].residuals[self.memory[i]:])
 
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
@@ -330,7 +329,8 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(None if self.u is None
+               else self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
         # Initialize models by performing unweighted fits to
-- 
2.43.0


From eccdf9089f47c916d478477ba44fc9eb18e47ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 08/14] fix: honour the init setting of FEM-BV models

The init option of the constructor was ignored, so that init='custom' fits
silently started from random values, and unknown options were accepted.
---
 src/reor/fembv.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 9aa2ce9..1832c44 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -19,6 +19,7 @@ from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
+INITIALIZATION_METHODS = (None, 'random', 'custom')
 
 
 def _check_init_weights(weights, shape, whom):
@@ -322,6 +323,14 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
+        if init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (init, INITIALIZATION_METHODS))
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From 5067f9273bb754da33d0937f3f996201d880f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 09/14] fix: transform with the fitted centroids in FEMBVKMeans

transform replaced the fitted centroids by randomly chosen samples of the new
data.
---
 src/reor/fembv_kmeans.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..9a541b9 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -170,3 +170,22 @@ class FEMBVKMeans(FEMBV):
         self.Theta = self.Theta / normalizations[:, np.newaxis]
 
         self._evaluate_distance_matrix()
+
+    def transform(self, data):
+        """Transform data according to the fitted centroids.
+
+        Parameters
+        ----------
+        data : array-like, shape (n_samples, n_features)
+            Data matrix for data to be transformed.
+
+        Returns
+        -------
+        weights : array-like, shape (n_samples, n_components)
+            Representation of the data.
+        """
+
+        self._fembv_fit(data=data, parameters=self.Theta, init='custom',
+                        update_parameters=False, update_weights=True)
+
+        return self.Gamma
-- 
2.43.0


From 6996517625af71eca5054221c2ac8a94813fa2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 10/14] fix: do not truncate results for integer-typed input

Working arrays took the type of the data, so that for integer data distances,
residuals and transition matrices were truncated to integers, or the in-place
updates of integer-valued initial guesses raised a casting error.
---
 src/reor/archetypal_analysis.py     |  6 +++---
 src/reor/fembv_kmeans.py            |  2 +-
 src/reor/fembv_varx.py              |  4 ++--
 src/reor/gpnh_convex_coding.py      |  6 +++---
 src/reor/gpnh_convex_coding_crom.py |  2 +-
 src/reor/mtd_convex_coding.py       | 12 ++++++------
 src/reor/pwvarx.py                  |  2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 6a07939..757177b 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -80,7 +80,7 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_samples),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i, selected[i]] = 1
 
@@ -722,8 +722,8 @@ class KernelAA():
                 random_state=self.random_state, **kwargs)
 
         self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.S = weights.astype('f8')
+        self.C = dictionary.astype('f8')
 
         self._initialize_workspace()
 
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 9a541b9..454175f 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -148,7 +148,7 @@ class FEMBVKMeans(FEMBV):
         n_samples, n_features = self.X.shape
 
         self.distance_matrix = np.empty(
-            (n_samples, self.n_components), dtype=self.X.dtype)
+            (n_samples, self.n_components), dtype='f8')
 
         if init == 'custom' and parameters is not None:
             _check_init_parameters(
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 11f9a84..de6ea40 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -23,7 +23,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = check_array(y, dtype='f8')
 
         n_samples, n_features = self._y.shape
 
@@ -296,7 +296,7 @@ class FEMBVVARX(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = data.astype('f8')
         if 'external_factors' in kwargs:
             self.u = kwargs['external_factors'].copy()
             self.u = check_array(self.u)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 0d0c486..aea3b23 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -71,7 +71,7 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_features),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i] = data[selected[i]]
 
@@ -599,8 +599,8 @@ class GPNHConvexCoding():
                 random_state=self.random_state, **kwargs)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.Gamma = weights.astype('f8')
+        self.S = dictionary.astype('f8')
 
         self._initialize_workspace()
 
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..00aff6e 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -288,7 +288,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         self.order_weights /= self.order_weights.sum()
 
         self.transition_matrices = np.empty(
-            (n_lags, self.n_components, self.n_components), dtype=self.X.dtype)
+            (n_lags, self.n_components, self.n_components), dtype='f8')
         for p in range(n_lags):
             self.transition_matrices[p] = left_stochastic_matrix(
                 (self.n_components, self.n_components),
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index fc7b494..27d2002 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -83,7 +83,7 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_features),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i] = data[selected[i]]
 
@@ -107,7 +107,7 @@ def _initialize_mtd_convex_coding_parameters_random(data, n_components,
     order_weights /= order_weights.sum()
 
     transition_matrices = np.empty((order, n_components, n_components),
-                                   dtype=data.dtype)
+                                   dtype='f8')
     for p in range(order):
         transition_matrices[p] = left_stochastic_matrix(
             (n_components, n_components), random_state=rng)
@@ -824,10 +824,10 @@ class MTDConvexCoding():
                         random_state=self.random_state)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.Gamma = weights.astype('f8')
+        self.S = dictionary.astype('f8')
+        self.order_weights = order_weights.astype('f8')
+        self.transition_matrices = transition_matrices.astype('f8')
 
         self._initialize_workspace()
 
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index ea42d8f..3b18b24 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -128,7 +128,7 @@ class ClusterPWVARX():
             n_exog = 0
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
-        self.residuals = np.zeros_like(y)
+        self.residuals = np.zeros(y.shape)
         for k in range(self.n_components):
 
             component_mask = labels == k
-- 
2.43.0


From 0054f044d1761d5ca6eaf917f88b6bdeb6c80a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 11/14] fix: accept lag lists and a missing number of
 components in the GPNH CROM

---
 src/reor/gpnh_convex_coding_crom.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 00aff6e..a504eb6 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -77,12 +77,11 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
-- 
2.43.0


From 964d875e6d044f1db81d8a2736710c7186e41fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 12/14] fix: accept a missing number of components in
 FEM-BV-VARX

The constructor built the memory array before the number of components was
known or checked.
---
 src/reor/fembv_varx.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index de6ea40..31f4e84 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -256,7 +256,7 @@ class FEMBVVARX(FEMBV):
                          random_state=random_state, **kwargs)
 
         if memory is None:
-            self.memory = np.full((n_components,), 0, dtype='i8')
+            self.memory = np.array(0, dtype='i8')
         else:
             if isinstance(memory, INTEGER_TYPES):
                 if memory < 0:
@@ -264,7 +264,7 @@ class FEMBVVARX(FEMBV):
                         'Maximum memory must be a non-negative integer;'
                         ' got (memory=%d)' % memory)
 
-                self.memory = np.full((n_components,), memory, dtype='i8')
+                self.memory = np.array(memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
@@ -275,6 +275,10 @@ class FEMBVVARX(FEMBV):
                     'Memory must be a non-negative integer or tuple; '
                     ' got %r' % type(memory))
 
+        if (self.memory.ndim == 0 and isinstance(n_components, INTEGER_TYPES)
+                and n_components > 0):
+            self.memory = np.full((n_components,), self.memory, dtype='i8')
+
         self.name = 'FEM-BV-VARX'
         self.X = None
         self.u = None
@@ -314,6 +318,11 @@ class FEMBVVARX(FEMBV):
         else:
             n_external = 0
 
+        if self.memory.ndim == 0:
+            # number of components determined by the data
+            self.memory = np.full((self.n_components,), self.memory,
+                                  dtype='i8')
+
         presample_length = np.max(self.memory)
 
         self.mu = np.zeros((self.n_components, n_features),
-- 
2.43.0


From bb09c4a845e2bb60470afd58d742b5b844274f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 13/14] fix: report an invalid number of components of
 archetypal analysis as ValueError

---
 src/reor/archetypal_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 757177b..14fd666 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -236,7 +236,7 @@ class KernelAA():
         self.K = None
         self.S = None
         self.C = None
-        self.alpha = np.ones(n_components, dtype='f8')
+        self.alpha = None
 
         self.trace_K = 0.0
         self.CK = None
-- 
2.43.0


From c2cffe37189a46a704a92da10a22a1fc7342e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 14/14] fix: reject a negative start index in furthest_sum

---
 src/reor/furthest_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 4b68d71..c0c9280 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -58,7 +58,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     n_samples = dissimilarity_matrix.shape[0]
     n_excluded = len(exclude)
 
-    if start_index >= n_samples:
+    if not 0 <= start_index < n_samples:
         raise ValueError('Start index %r is out of bounds (n_samples = %d)' %
                          (start_index, n_samples))
 
-- 
2.43.0

