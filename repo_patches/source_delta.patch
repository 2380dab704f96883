From 59e35e9382c2bf0eb0b401700ab8bb9b523d06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 01/34] fix: KNN estimators no longer overwrite their metric
 hyper-parameter

fit, predict and kneighbors replaced self.metric by 'precomputed' and only
put it back on the success path; the recorded _ts_metric also survived a
later set_params(metric=...).
---
 tslearn/neighbors/neighbors.py | 98 +++++++++++++++-------------------
 1 file changed, 42 insertions(+), 56 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..2ce764c 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,7 +82,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +91,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -138,7 +135,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 fit_X = self._X_fit.reshape((self._X_fit.shape[0],
                                              -1,
                                              self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
+            elif self.metric in TSLEARN_VALID_METRICS:
                 fit_X = self._ts_fit
             else:
                 fit_X = self._X_fit
@@ -178,9 +175,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,9 +215,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -327,25 +320,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        metric = self.metric
+        if metric in TSLEARN_VALID_METRICS:
+            metric = "precomputed"
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute("metric", metric):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +366,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +379,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +393,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
-                X=X_,
-                n_neighbors=n_neighbors,
-                return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
+                                 self.metric)
+            with self._patch_attribute("metric", "precomputed"):
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=X_,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,18 +539,18 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        metric = self.metric
+        if metric in TSLEARN_VALID_METRICS:
+            metric = "precomputed"
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -574,10 +562,9 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -712,26 +699,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        metric = self.metric
+        if metric in TSLEARN_VALID_METRICS:
+            metric = "precomputed"
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From 4682430ffaaefbc395d8957440f6f9fcfd30b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 02/34] fix: KNN queries use the fitted SAX and training series

SAX was refitted on the queried series (and kept from one fit to the next),
kneighbors() without X searched the zero placeholder matrix for time series
metrics, and kneighbors on unfitted classifiers and regressors raised
AttributeError.
---
 tslearn/neighbors/neighbors.py | 135 ++++++++++++++-------------------
 1 file changed, 56 insertions(+), 79 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 2ce764c..2a3d775 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,18 +28,16 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
-        X_sax = self._sax.fit_transform(X)
-
-        return X_sax
+    def _sax_fit_transform(self, X):
+        # Fit a new SAX on the training time series, and transform them
+        sax_params = {
+            "n_segments": 10,
+            "alphabet_size_avg": 4,
+            "scale": False,
+            **self._get_metric_params()
+        }
+        self._sax = SymbolicAggregateApproximation(**sax_params)
+        return self._sax.fit_transform(X)
 
     def _get_metric_params(self):
         if self.metric_params is None:
@@ -61,32 +59,40 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         metric_params = self._get_metric_params()
 
-        X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = to_time_series_dataset(X)
+        if X is None:
+            # Training time series, already preprocessed
+            X = self._ts_fit
+        else:
+            X = check_array(X, allow_nd=True, force_all_finite=False)
+            X = to_time_series_dataset(X)
+            if self.metric == "sax":
+                X = self._sax.transform(X)
 
         if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params)
         elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
                 self._sax.breakpoints_avg_,
                 self._sax._X_fit_dims_[1],
                 other_X,
-                n_jobs=self.n_jobs)
+                n_jobs=self.n_jobs,
+                verbose=self.verbose)
         elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params
             )
         else:
@@ -120,34 +126,29 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         ind : array
             Indices of the nearest points in the population matrix.
         """
-        self_neighbors = False
+        self_neighbors = X is None
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
-        if X is None:
-            X = self._X_fit
-            self_neighbors = True
-        if self.metric == "precomputed":
-            full_dist_matrix = X
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+            if X is not None:
+                X = check_array(X, allow_nd=True, force_all_finite=False)
+                if X.ndim == 2:  # sklearn-format case
+                    X = X.reshape((X.shape[0], -1, self._d))
+                X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                               check_n_features_only=True)
+            full_dist_matrix = self._precompute_cross_dist(X)
         else:
-
-            if X.ndim == 2:  # sklearn-format case
-                X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif self.metric in TSLEARN_VALID_METRICS:
-                fit_X = self._ts_fit
-            else:
-                fit_X = self._X_fit
-
-            if self.metric in TSLEARN_VALID_METRICS:
-                full_dist_matrix = self._precompute_cross_dist(X,
-                                                               other_X=fit_X)
+            check_is_fitted(self, '_X_fit')
+            if X is None:
+                X = self._X_fit
+            if self.metric == "precomputed":
+                full_dist_matrix = X
             elif self.metric in ["euclidean", "sqeuclidean", "cityblock"]:
-                full_dist_matrix = scipy_cdist(X.reshape((X.shape[0], -1)),
-                                               fit_X.reshape((fit_X.shape[0],
-                                                              -1)),
-                                               metric=self.metric)
+                full_dist_matrix = scipy_cdist(
+                    X.reshape((X.shape[0], -1)),
+                    self._X_fit.reshape((self._X_fit.shape[0], -1)),
+                    metric=self.metric)
             else:
                 raise ValueError("Unrecognized time series metric string: %s "
                                  "(should be one of 'dtw', 'softdtw', "
@@ -168,7 +169,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
-        n_ts = X.shape[0]
+        n_ts = full_dist_matrix.shape[0]
         sample_range = numpy.arange(n_ts)[:, None]
         # Sort the `kbin` nearest neighbors according to distance
         ind = ind[
@@ -331,6 +332,8 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
+            if self.metric == 'sax':
+                self._ts_fit = self._sax_fit_transform(X)
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -366,40 +369,16 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
-            X = check_array(X, allow_nd=True, force_all_finite=False)
-            X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
-                           check_n_features_only=True)
-            if self.metric == "dtw":
-                X_ = _cdist_dtw(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            elif self.metric == "ctw":
-                X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self.metric == "softdtw":
-                X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self.metric == "frechet":
-                X_ = _cdist_frechet(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            else:
-                raise ValueError("Invalid metric recorded: %s" %
-                                 self.metric)
-            with self._patch_attribute("metric", "precomputed"):
-                return KNeighborsTimeSeriesMixin.kneighbors(
-                    self,
-                    X=X_,
-                    n_neighbors=n_neighbors,
-                    return_distance=return_distance)
+            if X is not None:
+                X = check_array(X, allow_nd=True, force_all_finite=False)
+                X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                               check_n_features_only=True)
+            return KNeighborsTimeSeriesMixin.kneighbors(
+                self,
+                X=X,
+                n_neighbors=n_neighbors,
+                return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,11 +530,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
             if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
+                self._ts_fit = self._sax_fit_transform(X)
 
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
@@ -710,6 +685,8 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if self.metric in TSLEARN_VALID_METRICS:
             self._ts_fit = X
+            if self.metric == 'sax':
+                self._ts_fit = self._sax_fit_transform(X)
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From 51a2ba443d8c58931292c057323ae3bf53c10009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 03/34] fix: KernelKMeans leaves kernel_params alone and
 recomputes sigma at each fit

---
 tslearn/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..d34e937 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = dict(self.kernel_params)
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -341,8 +341,8 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
         if self.kernel == "gak":
+            kernel_params = self.kernel_params or {}
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
                 self.sigma_gak_ = sigma_gak(X, random_state=rs)
-- 
2.43.0


From c2c0f9f0aa2b12226985e6bb1e08e462e17b3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 04/34] fix: KShape.predict uses the norms of the predicted
 series, not of the training ones

---
 tslearn/clustering/kshape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..0394e01 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -152,7 +152,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _cross_dists(self, X):
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=numpy.linalg.norm(
+                                            X, axis=(1, 2)),
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
-- 
2.43.0


From e4dbb6102275a7400fd2d8b5e317d717d91855e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 05/34] fix: NonMyopicEarlyClassifier.get_cluster_probas raises
 NotFittedError when not fitted

---
 tslearn/early_classification/early_classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..0eb6ddb 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -275,6 +275,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         >>> model.get_cluster_probas(ts1)
         array([0., 0., 1.])
         """
+        check_is_fitted(self, '_X_fit_dims')
         Xi = check_array(Xi)
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
-- 
2.43.0


From d48100913bfffba460e03ab5a2b7070d2c4b9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 06/34] fix: cycc routines no longer write computed norms into
 their arguments

---
 tslearn/metrics/cycc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..42d566e 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -74,9 +74,11 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
     dists = np.zeros((n_ts1, n_ts2))
 
     if (norms1 < 0.0).any():
+        norms1 = np.empty(n_ts1)
         for i_ts1 in prange(n_ts1):
             norms1[i_ts1] = np.linalg.norm(dataset1[i_ts1, ...])
     if (norms2 < 0.0).any():
+        norms2 = np.empty(n_ts2)
         for i_ts2 in prange(n_ts2):
             norms2[i_ts2] = np.linalg.norm(dataset2[i_ts2, ...])
     if self_similarity:
@@ -123,6 +125,7 @@ def y_shifted_sbd_vec(ref_ts, dataset, norm_ref, norms_dataset):
     if norm_ref < 0:
         norm_ref = np.linalg.norm(ref_ts)
     if (norms_dataset < 0.0).any():
+        norms_dataset = np.empty(n_ts)
         for i_ts in prange(n_ts):
             norms_dataset[i_ts] = np.linalg.norm(dataset[i_ts, ...])
 
-- 
2.43.0


From 2d3dcab16567f3f1fb110a709eca0ebb712e9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 07/34] fix: accumulated matrix no longer masks the caller's
 distance tensor in place

---
 tslearn/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index fe613de..83e3b9a 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -199,7 +199,7 @@ if torch is not None:
 
     def _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs):
 
-        D[~mask] = torch.inf
+        D = torch.where(mask, D, torch.inf)
         l1, l2 = D.shape
 
         # Extended matrix with padding
-- 
2.43.0


From 3d5a21efa50ca9dc6b24df71f259a64723c00047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 08/34] fix: LearningShapelets queries leave fitted state
 alone, refit forgets former sizes

---
 tslearn/shapelets/shapelets.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..80153db 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fit_time=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._min_sz_fit = self._check_series_length(X, fit_time=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,28 +667,28 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _check_series_length(self, X, fit_time=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
         - their length is lower than the maximum allowed length,
         as set by max_size or deduced from fitted data.
         """
-        self._min_sz_fit = min(_ts_size(Xi) for Xi in X)
+        min_sz = min(_ts_size(Xi) for Xi in X)
 
         if self.n_shapelets_per_size is not None:
             max_sz_shp = max(self.n_shapelets_per_size.keys())
-            if max_sz_shp > self._min_sz_fit:
+            if max_sz_shp > min_sz:
                 raise ValueError("Sizes in X do not match maximum "
                                  "shapelet size: there is at least one "
                                  "series in X that is shorter than one of the "
                                  "shapelets. Shortest time series is of "
                                  "length {} and longest shapelet is of length "
-                                 "{}".format(self._min_sz_fit, max_sz_shp))
+                                 "{}".format(min_sz, max_sz_shp))
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit_time else self._X_fit_dims[1]
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,7 +698,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+        return min_sz
+
+    def _preprocess_series(self, X, fit_time=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
@@ -707,7 +709,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit_time else self._X_fit_dims[1]
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
@@ -858,6 +860,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         >>> len(clf.get_weights("shapelets_0"))
         1
         """
+        check_is_fitted(self, 'model_')
         if layer_name is None:
             return self.model_.get_weights()
         else:
-- 
2.43.0


From 7ee67c26e06955d8d52e97a8dd6a8fcada0e38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 09/34] fix: SVM queries leave fitted attributes alone

---
 tslearn/svm/svm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..dd72a0a 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -69,8 +69,8 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
 
         if self.kernel in VARIABLE_LENGTH_METRICS:
             assert self.kernel == "gak"
-            self.estimator_kernel_ = "precomputed"
             if fit_time:
+                self.estimator_kernel_ = "precomputed"
                 sklearn_X = _cdist_gak(X,
                                       sigma=numpy.sqrt(self.gamma_ / 2.),
                                       n_jobs=self.n_jobs,
@@ -83,7 +83,8 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
                                       verbose=self.verbose)
 
         else:
-            self.estimator_kernel_ = self.kernel
+            if fit_time:
+                self.estimator_kernel_ = self.kernel
             sklearn_X = to_sklearn_dataset(X)
 
         return sklearn_X, y, nb_features
@@ -344,10 +345,8 @@ class TimeSeriesSVC(TimeSeriesSVMMixin, ClassifierMixin, BaseEstimator):
             Index of the cluster each sample belongs to or class probability
             matrix, depending on what was provided at training time.
         """
-        sklearn_X, y, nb_features = self._preprocess_sklearn(X, fit_time=False)
-        estimator = self.svm_estimator_.predict(sklearn_X)
-        self.n_features_in_ = nb_features
-        return estimator
+        sklearn_X, *_ = self._preprocess_sklearn(X, fit_time=False)
+        return self.svm_estimator_.predict(sklearn_X)
 
     def decision_function(self, X):
         """Evaluates the decision function for the samples in X.
-- 
2.43.0


From 9e251f963943d10fc9eb17790e3867b381dd50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 10/34] fix: from_cesium_dataset no longer sorts the given
 TimeSeries in place

---
 tslearn/utils/cast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..2d849e7 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -1,3 +1,4 @@
+import copy
 import warnings
 
 import numpy
@@ -750,6 +751,7 @@ def from_cesium_dataset(X):
                           "if cesium is not installed.")
 
     def format_to_tslearn(ts):
+        ts = copy.deepcopy(ts)
         try:
             ts.sort()
         except ValueError:
-- 
2.43.0


From 153d39c961242ddb4ef10f80ca7b51639acfc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 11/34] fix: softdtw_barycenter with n_jobs sums task results
 in submission order

---
 tslearn/barycenters/softdtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index bc4c522..8231e00 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -39,7 +39,7 @@ def _acc_softdtw_func(
     use_parallel = n_jobs not in [None, 1]
 
     if use_parallel:
-        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator_unordered")(
+        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator")(
             delayed(_softdtw_func)(
                 Z,
                 X[i],
-- 
2.43.0


From fecc3159b91f1ee92b4aa054d2deffb17590c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 12/34] fix: AutoVARIMA examines candidate models in a fixed
 order

---
 tslearn/forecasting/_arima.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..56ef203 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -648,7 +648,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return d
 
     def _init_models(self, d):
-        models = {
+        models = [
             VARIMA(
                 0,
                 d,
@@ -658,9 +658,9 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 max_iter=self.max_iter,
                 verbose=self.verbose > 1,
             )
-        }
+        ]
         if self.max_p > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     1,
                     d,
@@ -672,7 +672,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_q > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -684,7 +684,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_p > 1 and self.max_q > 1:
-            models.add(
+            models.append(
                 VARIMA(
                     2,
                     d,
@@ -696,7 +696,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 ),
             )
         if d <= 1:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -737,7 +737,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
 
         eligible_variations = eligible_variations - computed_adjustable_hyperparams
 
-        return {
+        return [
             VARIMA(
                 p,
                 current_best_model.d,
@@ -747,8 +747,8 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 max_iter=self.max_iter,
                 verbose=self.verbose > 1,
             )
-            for p, q, with_constant in eligible_variations
-        }
+            for p, q, with_constant in sorted(eligible_variations)
+        ]
 
     def _get_best_model_for_given_d(self, d, X):
         adjustable_hyperparams = ["p", "q", "with_constant"]
-- 
2.43.0


From 1a369a705f5e2432019b2dd072911aec900b0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 13/34] fix: from_tsfresh_dataset keeps the order of first
 appearance of the ids

---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 2d849e7..3d7b087 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -633,7 +633,7 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = X["id"].unique()
     n = len(all_ids)
 
     max_sz = -1
-- 
2.43.0


From 0560522b165561488f762a421d1c2fbaaf9f739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 14/34] fix: saved nearest-neighbour models keep everything
 inference reads

---
 tslearn/neighbors/neighbors.py | 82 ++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 2a3d775..6943cec 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,17 +28,57 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_fit_transform(self, X):
-        # Fit a new SAX on the training time series, and transform them
+    def _new_sax(self):
         sax_params = {
             "n_segments": 10,
             "alphabet_size_avg": 4,
             "scale": False,
             **self._get_metric_params()
         }
-        self._sax = SymbolicAggregateApproximation(**sax_params)
+        return SymbolicAggregateApproximation(**sax_params)
+
+    def _sax_fit_transform(self, X):
+        # Fit a new SAX on the training time series, and transform them
+        self._sax = self._new_sax()
         return self._sax.fit_transform(X)
 
+    def _is_fitted(self):
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+        else:
+            check_is_fitted(self, '_X_fit')
+
+        return True
+
+    def _get_model_params(self):
+        params = {
+            '_X_fit': self._X_fit,
+            '_d': self._d,
+            '_fit_X': self._fit_X,
+            '_fit_method': self._fit_method,
+            'n_samples_fit_': self.n_samples_fit_
+        }
+        if self.metric in TSLEARN_VALID_METRICS:
+            params['_ts_fit'] = self._ts_fit
+        if self.metric == 'sax':
+            for name, value in self._sax._get_model_params().items():
+                params['_sax.' + name] = value
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        sax_params = {
+            name: model['model_params'].pop(name)
+            for name in list(model['model_params'])
+            if name.startswith('_sax.')
+        }
+        inst = BaseModelPackage._organize_model(cls, model)
+        if sax_params:
+            inst._sax = inst._new_sax()
+            for name, value in sax_params.items():
+                setattr(inst._sax, name[len('_sax.'):], value)
+        return inst
+
     def _get_metric_params(self):
         if self.metric_params is None:
             metric_params = {}
@@ -299,20 +339,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -487,21 +513,14 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
     def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
+        params = super()._get_model_params()
+        params.update({
             'classes_': self.classes_,
             '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
+            'outputs_2d_': self.outputs_2d_
+        })
+        return params
 
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
@@ -659,6 +678,11 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({'_y': self._y})
+        return params
+
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From c6bfde7be5ee37fd03de43cc2f25ec933f769cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 15/34] fix: saved MatrixProfile is recognised as fitted

---
 tslearn/matrix_profile/matrix_profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..d95b2c0 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,6 +130,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({"_X_fit_dims": np.array(self._X_fit_dims)})
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
-- 
2.43.0


From de88e4e4149454e575c3f362c5d33cdd602e60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 16/34] fix: to_hdf5 accepts learned attributes that are None

---
 tslearn/bases/bases.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..3dc9791 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -132,6 +132,8 @@ class BaseModelPackage(object):
         elif output == 'hdf5':
             d['hyper_params'] = \
                 BaseModelPackage._none_to_str(d['hyper_params'])
+            d['model_params'] = \
+                BaseModelPackage._none_to_str(d['model_params'])
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -249,10 +251,11 @@ class BaseModelPackage(object):
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
 
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        for param_set in ['hyper_params', 'model_params']:
+            for k in model[param_set].keys():
+                if isinstance(model[param_set][k], str):
+                    if model[param_set][k] == 'None':
+                        model[param_set][k] = None
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From 41aab4c9d4f440149bbb5139abd646eb05f85215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 17/34] fix: VARIMA and AutoVARIMA can be saved and loaded

---
 tslearn/forecasting/_arima.py | 67 +++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 56ef203..7c2ef71 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -175,6 +175,40 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         self.max_iter = max_iter
         self.verbose = verbose
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update(
+            {
+                "_min_samples": self._min_samples,
+                "_last_residuals": self._last_residuals,
+                "_last_timestamps": self._last_timestamps,
+            }
+        )
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        # Empty arrays lose their shape in json
+        n_features_in = inst.n_features_in_
+        inst.ar_coeffs_ = inst.ar_coeffs_.reshape(
+            (inst.p, n_features_in, n_features_in)
+        )
+        inst.ma_coeffs_ = inst.ma_coeffs_.reshape(
+            (inst.q, n_features_in, n_features_in)
+        )
+        inst._last_residuals = inst._last_residuals.reshape(
+            (inst.n_ts_, -1, n_features_in)
+        )
+        inst._last_timestamps = inst._last_timestamps.reshape(
+            (inst.n_ts_, -1, n_features_in)
+        )
+        return inst
+
     @property
     def _seasonal_period(self):
         return self.seasonal_period or 0
@@ -528,6 +562,39 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         self.max_iter = max_iter
         self.verbose = verbose
 
+    def _is_fitted(self):
+        check_is_fitted(self, "best_estimator_")
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        best_estimator = params.pop("best_estimator_")
+        for name in ("p", "d", "q", "with_constant"):
+            params["best_estimator_." + name] = getattr(best_estimator, name)
+        for name, value in best_estimator._get_model_params().items():
+            params["best_estimator_." + name] = value
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        best_params = {
+            name[len("best_estimator_."):]: model["model_params"].pop(name)
+            for name in list(model["model_params"])
+            if name.startswith("best_estimator_.")
+        }
+        inst = BaseModelPackage._organize_model(cls, model)
+        hyper_params = {
+            name: best_params.pop(name)
+            for name in ("p", "d", "q", "with_constant")
+        }
+        hyper_params["seasonal_period"] = inst.seasonal_period
+        hyper_params["max_iter"] = inst.max_iter
+        hyper_params["verbose"] = inst.verbose > 1
+        inst.best_estimator_ = VARIMA._organize_model(
+            VARIMA, {"hyper_params": hyper_params, "model_params": best_params}
+        )
+        return inst
+
     @property
     def _seasonal_period(self):
         return self.seasonal_period or 0
-- 
2.43.0


From 3407d7a6d4e8e37c96fad0c6d15b037ec38a58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 18/34] fix: TimeSeriesSVR uses its epsilon hyper-parameter

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index dd72a0a..47292d0 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -584,7 +584,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From 7ace36588905ab8c5224f9ba1265b288ea3a23ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 19/34] fix: cdist_frechet takes global_constraint into account

---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From 6511b1fcd299dbecf93f6ac8efd58d65acd94551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 20/34] fix: DBA takes metric_params' global_constraint into
 account

---
 tslearn/barycenters/dba.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..12fe375 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,13 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _dtw_path_params(metric_params):
+    """Keyword arguments for _njit_dtw_path from user-level DTW parameters."""
+    params = {} if metric_params is None else dict(metric_params)
+    params["global_constraint"] = GLOBAL_CONSTRAINT_CODE[params.get("global_constraint")]
+    return params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +49,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +280,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From a5c719c25cf17ca471964c6a26df24366c762040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 21/34] fix: TimeSeriesKMeans uses max_iter_barycenter with the
 dtw metric

---
 tslearn/clustering/kmeans.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index d34e937..44d6bf6 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -764,6 +764,7 @@ class TimeSeriesKMeans(
                     X=X[self.labels_ == k],
                     barycenter_size=None,
                     init_barycenter=self.cluster_centers_[k],
+                    max_iter=self.max_iter_barycenter,
                     metric_params=metric_params,
                     verbose=False,
                     n_jobs=self.n_jobs
-- 
2.43.0


From 49d0a8f75bd810c1b004cc08447134267ebba886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 22/34] fix: n_jobs and verbose reach every cross-distance of
 KNN and silhouette_score

---
 tslearn/clustering/utils.py    |  8 +++++++-
 tslearn/neighbors/neighbors.py | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..cdd50af 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -188,7 +188,13 @@ def silhouette_score(X, labels, metric=None, sample_size=None,
         )
     elif metric == "softdtw":
         X = to_time_series_dataset(X)
-        sklearn_X = _cdist_soft_dtw_normalized(X, be=be, **metric_params_)
+        sklearn_X = _cdist_soft_dtw_normalized(
+            X,
+            n_jobs=n_jobs,
+            verbose=verbose,
+            be=be,
+            **metric_params_
+        )
     elif metric == "euclidean":
         X_ = to_time_series_dataset(X, be=be)
         X_ = X_.reshape((X_.shape[0], -1))
diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 6943cec..3520b00 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -116,9 +116,19 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 verbose=self.verbose,
                 **metric_params)
         elif self.metric == "ctw":
-            X_ = _cdist_ctw(X, other_X, **metric_params)
+            X_ = _cdist_ctw(
+                X,
+                other_X,
+                n_jobs=self.n_jobs,
+                verbose=self.verbose,
+                **metric_params)
         elif self.metric == "softdtw":
-            X_ = _cdist_soft_dtw(X, other_X, **metric_params)
+            X_ = _cdist_soft_dtw(
+                X,
+                other_X,
+                n_jobs=self.n_jobs,
+                verbose=self.verbose,
+                **metric_params)
         elif self.metric == "sax":
             X_ = _cdist_sax(
                 X,
-- 
2.43.0


From 5e1c9f4b0dd8f6c1124b7d19ea87447badf3aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 23/34] fix: LCSS path retrieval stops at cells outside the
 constraint band

The pure-Python LCSS path loops made no progress on a masked cell and never
returned; the compiled ones tested numpy.isfinite on a boolean mask, so they
walked through cells outside the band.
---
 tslearn/metrics/dtw_variants.py | 80 ++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..cc7d73f 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -1244,15 +1244,15 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # masked cells accumulate no similarity: the path ends when it reaches one
+    while i > 0 and j > 0 and mask[i - 1, j - 1]:
+        if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1296,19 +1296,19 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if be.is_numpy:
-                squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
-            else:
-                squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
-            if be.sqrt(squared_dist) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # masked cells accumulate no similarity: the path ends when it reaches one
+    while i > 0 and j > 0 and mask[i - 1, j - 1]:
+        if be.is_numpy:
+            squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
+        else:
+            squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
+        if be.sqrt(squared_dist) <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1344,15 +1344,15 @@ def _njit_return_lcss_path_from_dist_matrix(
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # masked cells accumulate no similarity: the path ends when it reaches one
+    while i > 0 and j > 0 and mask[i - 1, j - 1]:
+        if dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1397,15 +1397,15 @@ def _return_lcss_path_from_dist_matrix(
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # masked cells accumulate no similarity: the path ends when it reaches one
+    while i > 0 and j > 0 and mask[i - 1, j - 1]:
+        if dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
-- 
2.43.0


From 1914acd2af411e7913efefb6d9f37761c600580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 24/34] fix: cdist_soft_dtw_normalized with n_jobs stacked the
 two datasets

Datasets of different (padded) lengths cannot be stacked, so the parallel arm
raised ValueError where the serial one returns the matrix.
---
 tslearn/metrics/_soft_dtw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..1df46f7 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,8 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for dataset in (dataset1, dataset2)
+                for ts in dataset
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From b6e2ce690716b1f432f5cb1d6e7263c4a75d8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 25/34] fix: cdist_normalized_cc(self_similarity=True) doubled
 entries below the diagonal

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 42d566e..a76e7c5 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -87,7 +87,7 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+        dists = dists + dists.T
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 61460b12d4f0d07a7f8c90233c7bfd4bd8d00ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 26/34] fix: DBA barycenter size ignores the NaN padding of
 init_barycenter

---
 tslearn/barycenters/dba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 12fe375..2cfa60e 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -211,12 +211,12 @@ def dtw_barycenter_averaging_petitjean(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         assign, cost = _petitjean_assignment(X_, barycenter, weights, metric_params, n_jobs)
@@ -718,12 +718,12 @@ def dtw_barycenter_averaging_one_init(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         list_p_k, cost = _mm_assignment(
-- 
2.43.0


From 53ea2be2e2fdac4aa1bf479dd63ad87fddafddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 27/34] fix: softdtw_barycenter strips the NaN padding of init

---
 tslearn/barycenters/softdtw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index 8231e00..7faaef2 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -13,7 +13,7 @@ from tslearn.backend import instantiate_backend
 from tslearn.metrics._soft_dtw import _njit_accumulated_matrix_from_distance_matrix, _njit_soft_dtw_grad
 from tslearn.metrics._masks import _njit_compute_mask, GLOBAL_CONSTRAINT_CODE
 from tslearn.preprocessing import TimeSeriesResampler
-from tslearn.utils import to_time_series_dataset
+from tslearn.utils import to_time_series, to_time_series_dataset
 from tslearn.utils.utils import _check_equal_size, _to_time_series
 
 from .utils import _set_weights
@@ -197,7 +197,7 @@ def softdtw_barycenter(
             resampled_X = TimeSeriesResampler().fit_transform(X_)
             barycenter = numpy.average(resampled_X, axis=0, weights=weights)
     else:
-        barycenter = init
+        barycenter = to_time_series(init, remove_nans=True, be=backend)
 
     metric_params['global_constraint'] = GLOBAL_CONSTRAINT_CODE[metric_params.get('global_constraint')]
 
-- 
2.43.0


From afbd62782879ac594cac5fa093f8f3d2dad07026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 28/34] fix: PiecewiseAggregateApproximation.inverse_transform
 checks the number of features

---
 tslearn/piecewise/piecewise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..90bbf46 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -255,7 +255,8 @@ class PiecewiseAggregateApproximation(TimeSeriesMixin,
         """
         self._is_fitted()
         X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = check_dims(X)
+        X = check_dims(X, X_fit_dims=(None, None, self._X_fit_dims_[-1]),
+                       check_n_features_only=True)
         return inv_transform_paa(X, original_size=self._X_fit_dims_[1])
 
     def _more_tags(self):
-- 
2.43.0


From e75952e39fc75318d413fa1b4f5d0a5e9c0e391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 29/34] fix: mae, mse and mase reject unknown multioutput
 strings

---
 tslearn/metrics/performance.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..3c12938 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -74,6 +74,11 @@ def mae(
     if isinstance(multioutput, str):
         if multioutput == "uniform_average":
             res = res.mean()
+        elif multioutput != "raw_values":
+            raise ValueError(
+                "multioutput should be 'uniform_average', 'raw_values' or "
+                "array-like, got %r" % multioutput
+            )
     else:
         multioutput = be.asarray(multioutput)
         res = multioutput@res / multioutput.sum()
@@ -144,6 +149,11 @@ def mse(
     if isinstance(multioutput, str):
         if multioutput == "uniform_average":
             res = res.mean()
+        elif multioutput != "raw_values":
+            raise ValueError(
+                "multioutput should be 'uniform_average', 'raw_values' or "
+                "array-like, got %r" % multioutput
+            )
     else:
         multioutput = be.asarray(multioutput)
         res = multioutput@res / multioutput.sum()
-- 
2.43.0


From ecb94c0c303c0616184cc621333d8d061261bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 30/34] fix: close the files to_json, from_json, to_pickle and
 from_pickle open

---
 tslearn/bases/bases.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 3dc9791..f065213 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -270,7 +270,8 @@ class BaseModelPackage(object):
         """
 
         d = self._to_dict(output='json')
-        json.dump(d, open(path, 'w'))
+        with open(path, 'w') as f:
+            json.dump(d, f)
 
     @classmethod
     def from_json(cls, path):
@@ -287,7 +288,8 @@ class BaseModelPackage(object):
         Model instance
         """
 
-        model = json.load(open(path, 'r'))
+        with open(path, 'r') as f:
+            model = json.load(f)
         model = cls._byte2string(model)
 
         # Convert the lists back to arrays
@@ -318,7 +320,8 @@ class BaseModelPackage(object):
         """
 
         d = self._to_dict()
-        pickle.dump(d, open(path, 'wb'), protocol=2)
+        with open(path, 'wb') as f:
+            pickle.dump(d, f, protocol=2)
 
     @classmethod
     def from_pickle(cls, path):
@@ -334,6 +337,7 @@ class BaseModelPackage(object):
         -------
         Model instance
         """
-        model = pickle.load(open(path, 'rb'))
+        with open(path, 'rb') as f:
+            model = pickle.load(f)
         model = cls._byte2string(model)
         return cls._organize_model(cls, model)
-- 
2.43.0


From 4119d8bf5a7ad5bebe70ceb28a50ad30d17f23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 31/34] fix: close the archive CachedDatasets.load_dataset
 opens

---
 tslearn/datasets/cached.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tslearn/datasets/cached.py b/tslearn/datasets/cached.py
index 1ddaf5f..1266e26 100644
--- a/tslearn/datasets/cached.py
+++ b/tslearn/datasets/cached.py
@@ -77,9 +77,10 @@ class CachedDatasets:
         IOError
             If the dataset does not exist or cannot be read.
         """
-        npzfile = numpy.load((self.path / dataset_name).with_suffix(".npz"))
-        X_train = npzfile["X_train"]
-        X_test = npzfile["X_test"]
-        y_train = npzfile["y_train"]
-        y_test = npzfile["y_test"]
+        fname = (self.path / dataset_name).with_suffix(".npz")
+        with numpy.load(fname) as npzfile:
+            X_train = npzfile["X_train"]
+            X_test = npzfile["X_test"]
+            y_train = npzfile["y_train"]
+            y_test = npzfile["y_test"]
         return X_train, y_train, X_test, y_test
-- 
2.43.0


From 280f417aff94a51d9453b9eea7cb18be334ed115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 32/34] fix: extract_from_zip_url removes its temporary
 directory when the download fails

---
 tslearn/datasets/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..5d625fd 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -35,11 +35,11 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
     """
     fname = Path(url).name
     tmpdir = tempfile.mkdtemp()
-    local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
-    target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
     try:
+        local_zip_fname = Path(tmpdir) / fname
+        urlretrieve(url, local_zip_fname)
+        target_dir = Path(target_dir)
+        target_dir.mkdir(parents=True, exist_ok=True)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
             f.extractall(path=target_dir)
         if verbose:
-- 
2.43.0


From 2d0f5c410cae187e82886bbedf1010f626d7454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 33/34] fix: UCR_UEA_datasets.load_dataset rejects names
 outside the cache directory

---
 tslearn/datasets/ucr_uea.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..e876c14 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -291,6 +291,11 @@ class UCR_UEA_datasets:
         ...         "DatasetThatDoesNotExist")
         """
         dataset_name = self._filenames.get(dataset_name, dataset_name)
+        if (dataset_name in ("", "..")
+                or Path(dataset_name).name != dataset_name):
+            # anything else could designate (and clear below) a directory
+            # that is not the one of a dataset
+            raise ValueError(f"Invalid dataset name {dataset_name!r}")
         full_path = self._data_dir / dataset_name
 
         if not self._has_files(dataset_name) or not self.use_cache:
-- 
2.43.0


From f3629c3babdc6968ae1255167ae58bcab73b3e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 34/34] fix: SoftDTWLossPyTorch does not modify the distance
 matrix in place

---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 48ed077..0b9e79b 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -87,7 +87,7 @@ else:
             dtype = D.dtype
             _, m, n = D.shape
             mask = _njit_compute_mask(m, n, global_constraint, sakoe_chiba_radius, itakura_max_slope)
-            D[:, ~mask] = torch.inf
+            D = D.masked_fill(torch.from_numpy(~mask).to(dev), torch.inf)
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
             gamma_tensor = torch.Tensor([gamma]).to(dev).type(dtype)
-- 
2.43.0

