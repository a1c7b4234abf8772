From a39754f0793c000ca39da78b702711df8dddf94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 01/30] fix: BaseTransformer.fit passed (instance, None) tuples
 to fit_partial

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From b8371a867f1decd779ae6a80d1514e7e7086c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 02/30] fix: VarianceMeter could report a negative variance
 because of rounding

---
 pysad/statistics/variance_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..f3c3667 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -62,4 +62,5 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        # Rounding may leave a tiny negative value, which is not a variance.
+        return var if var > 0 else 0.0
-- 
2.43.0


From c720c685e898492b6b87c2a14f66f8c5da1901ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 03/30] fix: HalfSpaceTrees raised when initial_window_X was
 given as an array

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From b60946d6ec9ad8bcf87ec5f05f8cdf4b69fbac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 04/30] fix: RobustRandomCutForest never forgot its first point
 and kept tree_size + 1 points

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..7f277ac 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if self.index >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From 2d64bb2a34cf9b7b1337abbceb5662efa0d803a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 05/30] fix: Inqmad kept scoring with the state of its first
 score call (predict was compiled with self static)

---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From f2785a4ba718fa85eec398a66bde022359706837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 06/30] fix: KitNet returned NaN before its autoencoders were
 trained

---
 pysad/models/kitnet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/kitnet.py b/pysad/models/kitnet.py
index c5c278c..5d9825d 100644
--- a/pysad/models/kitnet.py
+++ b/pysad/models/kitnet.py
@@ -62,9 +62,9 @@ class KitNet(BaseModel):
         Returns:
             float: The anomalousness score of the input instance.
         """
-        if self.model.v is None:
+        if self.model.v is None or self.model.outputLayer.n == 0:
             # The feature map is not discovered (i.e., still the grace period),
-            # thus, KitNet gives an error.
+            # thus, KitNet gives an error; or the autoencoders are not trained yet.
             return 0.0
         else:
             return self.model.execute(X)
-- 
2.43.0


From 18fa49f9a3187743d6e064ca524b27409e266c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 07/30] fix: KitNet failed on univariate streams (linkage of an
 empty distance matrix)

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..8b7fa7c 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1:
+            return [[0]] # a single feature cannot be linked to another one
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From 1507ad5ad38cd3aec01c5fffbfbda7c2fb660985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 08/30] fix: random projectors drew a new projection matrix for
 every instance

---
 pysad/transform/projection/random_projector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..8eda871 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -43,7 +44,11 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        if self._fitted_projector is None:
+            # The random matrix is drawn once; every instance shares it.
+            self._fitted_projector = self._projector().fit(x)
+
+        return self._fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From cc100b173337ba2e9003cf4c2165708deb7e2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 09/30] fix: ReferenceWindowModel with window_size=1 and no
 initial window raised on its first retraining

---
 pysad/models/integrations/reference_window_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..3f419ed 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -71,13 +71,13 @@ class ReferenceWindowModel(PYODModel):
             self._fit_model()
         elif len(self.cur_window_X) % self.sliding_size == 0:
             self.reference_window_X = np.concatenate(
-                [self.reference_window_X, self.cur_window_X], axis=0)
+                [self.reference_window_X, self.cur_window_X], axis=0) if self.reference_window_X is not None else np.array(self.cur_window_X)
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
             if y is not None:
                 self.reference_window_y = np.concatenate(
-                    [self.reference_window_y, self.cur_window_y], axis=0)
+                    [self.reference_window_y, self.cur_window_y], axis=0) if self.reference_window_y is not None else np.array(self.cur_window_y)
                 self.reference_window_y = self.reference_window_y[max(
                     0, len(self.reference_window_y) - self.window_size):]
 
-- 
2.43.0


From cedfb6a882ee5ae037cbeccbb9006a1e732ba83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 10/30] fix: RunningStatistic raised on keyword arguments
 instead of passing them to the wrapped statistic

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 49f43dd4c787d3fdeb75051c39e0dcce68f611d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 11/30] fix: WindowedMetric lost the metric's keyword arguments
 after the first window

---
 pysad/evaluation/windowed_metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..7670b09 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -22,6 +22,7 @@ class WindowedMetric(BaseMetric):
         self.window_size = window_size
         self.metric_cls = metric_cls
 
+        self.metric_kwargs = kwargs
         self.metric = self._init_metric(**kwargs)
 
         self.score_meter = AverageMeter()
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.metric_kwargs)
 
         return self
 
-- 
2.43.0


From 48135ed1eb500cf6153e326f50f7546aafafb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 12/30] fix:
 GaussianTailProbabilityCalibrator(running_statistics=False) used a windowed
 variance

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From d50868faee0b048995d60c77dc1273760f6cf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 13/30] fix: VarianceMeter keeps NaN for non-finite values
 while never reporting a negative variance

---
 pysad/statistics/variance_meter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index f3c3667..c555b14 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_statistic import UnivariateStatistic
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
@@ -63,4 +65,4 @@ class VarianceMeter(UnivariateStatistic):
         var = (sum_squares - (sum**2) / count) / count
 
         # Rounding may leave a tiny negative value, which is not a variance.
-        return var if var > 0 else 0.0
+        return np.maximum(var, 0.0)
-- 
2.43.0


From 946b60d403e273639052d3a7045f337a82c71458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 14/30] fix: Data.get_iterator(seed) shuffled with whatever the
 random state was when first consumed

---
 pysad/utils/array_streamer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 58a502e..cb6f10a 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -23,6 +23,10 @@ class ArrayStreamer(BaseStreamer):
         if self.shuffle:
             np.random.shuffle(indices)
 
+        # The order is fixed here, not when the iterator is first consumed.
+        return self._iter(indices, X, y)
+
+    def _iter(self, indices, X, y):
         if y is None:
             for i in indices:
                 yield X[i]
-- 
2.43.0


From c8eb017608c5fed87e2666d0ae1d553caa2e428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 15/30] fix: KNNCAD kept every instance of the stream in memory

---
 pysad/models/knn_cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
-- 
2.43.0


From 355fe74c6165a9a1ce9a3201eae041dfe82b5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 16/30] fix: RelativeEntropy kept every instance of the stream
 in memory

---
 pysad/models/relative_entropy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..5455cc5 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(X)
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From e5b0eb6546a29151915fd55be4ff95784d185a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 17/30] fix: stream-hash projection to one component returns a
 vector of length one

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From 65e7f6c9ff2ffc185a4c27389a260830ea97aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:28 +0000
Subject: [PATCH 18/30] fix: data files with a single instance or column load
 as two-dimensional data

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..c8ddb2e 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From d4c4825990460f98111be981d261f37d322a65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:23 +0000
Subject: [PATCH 19/30] fix: xStream cell indices wrapped around to one cell
 beyond 32 bits

---
 pysad/models/xstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 9dc8848..2b7bcef 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -119,7 +119,7 @@ class _Chain:
             if self.is_first_window:
                 cmsketch = self.cmsketches[depth]
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -132,7 +132,7 @@ class _Chain:
                 cmsketch = self.cmsketches_cur[depth]
 
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -157,7 +157,7 @@ class _Chain:
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
-                l_index = tuple(np.floor(prebin).astype(np.int32))
+                l_index = tuple(np.floor(prebin))
                 if l_index not in cmsketch:
                     scores[i, depth] = 0.0
                 else:
-- 
2.43.0


From c483527317cd4a3617678a3f50852d8d476d9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:23 +0000
Subject: [PATCH 20/30] fix: RSHash cell indices wrapped around to one cell
 beyond 32 bits

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index b3645b2..7b320e7 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -66,7 +66,7 @@ class RSHash(BaseModel):
                 (X[np.array(self.V[r])] + np.array(self.alpha[r])) / float(self.f[r]))
 
             mod_entry = np.insert(Y, 0, r)
-            mod_entry = tuple(mod_entry.astype(np.int32))
+            mod_entry = tuple(mod_entry)
 
             c = []
             for w in range(len(self.cmsketches)):
-- 
2.43.0


From 1deb690917af4cbf7b44d60acc6d6fae51127905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 21/30] fix: ExactStorm kept references to the caller's arrays
 as its window

---
 pysad/models/exact_storm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index 436a42e..f6c9b00 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -28,7 +28,7 @@ class ExactStorm(BaseModel):
         Returns:
             object: self.
         """
-        self.window.update(X)
+        self.window.update(np.array(X))
 
         return self
 
-- 
2.43.0


From 917f82e4dd89af3cfb6d809a630a9fa7c1ad3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 22/30] fix: RobustRandomCutForest kept references to the
 caller's arrays as its points

---
 pysad/models/robust_random_cut_forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 7f277ac..7ab323f 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_model import BaseModel
 
 
@@ -34,6 +36,8 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
+        X = np.array(X)
+
         for tree in self.forest:
             if self.index >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
-- 
2.43.0


From b70186efd4741cb61b70ca306fce26db36a24c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 23/30] fix: ReferenceWindowModel kept references to the
 caller's arrays as its windows

---
 pysad/models/integrations/reference_window_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 3f419ed..5d43b83 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -39,8 +39,8 @@ class ReferenceWindowModel(PYODModel):
         self.cur_window_X = []
         self.cur_window_y = []
 
-        self.reference_window_X = initial_window_X
-        self.reference_window_y = initial_window_y
+        self.reference_window_X = np.array(initial_window_X) if initial_window_X is not None else None
+        self.reference_window_y = np.array(initial_window_y) if initial_window_y is not None else None
 
         if self.reference_window_X is not None:
             self._fit_model()
@@ -58,7 +58,7 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
-        self.cur_window_X.append(X)
+        self.cur_window_X.append(np.array(X))
 
         if y is not None:
             self.cur_window_y.append(y)
-- 
2.43.0


From 905744147386cc401e199c51d47552afb0a5e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 24/30] fix: OneFitModel let its detector keep a reference to
 the caller's initial instances

---
 pysad/models/integrations/one_fit_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysad/models/integrations/one_fit_model.py b/pysad/models/integrations/one_fit_model.py
index c868a8d..dc90559 100644
--- a/pysad/models/integrations/one_fit_model.py
+++ b/pysad/models/integrations/one_fit_model.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from .pyod_model import PYODModel
 
 
@@ -14,8 +16,8 @@ class OneFitModel(PYODModel):
     def __init__(self, model_cls, initial_X, initial_y=None, **kwargs):
         super().__init__(model_cls, **kwargs)
 
-        self.initial_y = initial_y
-        self.initial_X = initial_X
+        self.initial_y = np.array(initial_y) if initial_y is not None else None
+        self.initial_X = np.array(initial_X)
         self._fit_model()
 
     def fit_partial(self, X, y=None):
-- 
2.43.0


From 1156494d372f0922eed768c9cf573572b1f2855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 25/30] fix: LocalOutlierProbability kept a reference to the
 caller's initial instances

---
 pysad/models/loop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 4e5b299..3cfb065 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_model import BaseModel
 
 
@@ -15,7 +17,7 @@ class LocalOutlierProbability(BaseModel):
         from PyNomaly import loop
 
         self.model = loop.LocalOutlierProbability(
-            initial_X, extent=extent, n_neighbors=num_neighbors).fit()
+            np.array(initial_X), extent=extent, n_neighbors=num_neighbors).fit()
 
     def fit_partial(self, X, y=None):
         """Fits the model to next instance.
-- 
2.43.0


From d858e385cdf1dfc97ff01beb9bbd01776f4250db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 26/30] fix: RelativeEntropy kept references to the caller's
 arrays as its window

---
 pysad/models/relative_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index 5455cc5..6863bb0 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -57,7 +57,7 @@ class RelativeEntropy(BaseModel):
         Returns:
             object: Returns the self.
         """
-        self.util.append(X)
+        self.util.append(np.array(X))
         self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
-- 
2.43.0


From eb9577275abbf747e7657e1d58360dffbc234466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 27/30] fix: SeasonalTrendDecomposer kept references to the
 caller's arrays as its trend window

---
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 494e139..db28f2f 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -76,7 +76,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
-        self.window.append(X)
+        self.window.append(np.array(X))
         trend = self._trend()
 
         if len(self.window) == self.trend_window:
@@ -119,7 +119,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
-        self.window.append(X)
+        self.window.append(np.array(X))
         trend = self._trend()
 
         if len(self.window) == self.trend_window:
-- 
2.43.0


From 0ec6e504b9e5b306e0d3215044c8d437dfbfebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 28/30] fix: MedianAbsoluteDeviation kept references to the
 caller's arrays as its values

---
 pysad/models/median_absolute_deviation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 3ff3015..c89d882 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_model import BaseModel
 from pysad.statistics.median_meter import MedianMeter
 
@@ -33,6 +35,7 @@ class MedianAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
         self.mad_meter.update(deviation)
-- 
2.43.0


From c76ec3f1366ee19f6bdef4bc850e66226ac5a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 29/30] fix: StandardAbsoluteDeviation kept references to the
 caller's arrays as its values

---
 pysad/models/standard_absolute_deviation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index bdfa4d8..2466445 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_model import BaseModel
 from pysad.statistics.average_meter import AverageMeter
 from pysad.statistics.median_meter import MedianMeter
@@ -40,6 +42,7 @@ class StandardAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.variance_meter.update(X)
         self.sub_meter.update(X)
 
-- 
2.43.0


From a2456f6e434aaf16d2ed1ae7a41c3c6a6b45d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 30/30] fix: KitNet autoencoders keep their tied weights when
 they are copied or unpickled

W_prime was a view of W; copy.deepcopy and pickle turn a view into an independent
array, so a copy made before the end of training went on with a frozen decoder.
---
 pysad/models/kitnet_model/dA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..67b4f54 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -59,7 +59,6 @@ class dA:
 
         self.hbias = numpy.zeros(self.params.n_hidden)  # initialize h bias 0
         self.vbias = numpy.zeros(self.params.n_visible)  # initialize v bias 0
-        self.W_prime = self.W.T
 
 
     def get_corrupted_input(self, input, corruption_level):
@@ -75,7 +74,7 @@ class dA:
 
     # Decode
     def get_reconstructed_input(self, hidden):
-        return sigmoid(numpy.dot(hidden, self.W_prime) + self.vbias)
+        return sigmoid(numpy.dot(hidden, self.W.T) + self.vbias)
 
     def train(self, x):
         self.n = self.n + 1
-- 
2.43.0

