From 2036515ff9af964dadbce5a5da4da8550661e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 01/27] fix: parallel truncated gamma CDF ignored the threshold

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 61318138cad46757f65ffd94e9ab6439b31b858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 02/27] fix: rank histogram crashed when skipping NaN (np.float
 was removed)

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From d53a3bba07f9dd0932c8416c3a9573816d02bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 03/27] fix: changing the collapse function or ensemble axis
 kept the old collapsed forecast

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From bbf512cb7999c9462a7ee8fea408e7d9ae7af13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 04/27] fix: spread and rank histogram ignored the position of
 the sampled ensemble axis

---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From f5f8137eaec41aa52df5cb5002a707373baae03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:32 +0000
Subject: [PATCH 05/27] fix: binned spread-skill sorted the arrays of the
 caller in place

---
 PyAnEn/utils_ss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..28cff01 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -68,10 +68,11 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
     
     # Sort arrays based on variance 
-    for i in range(variance.shape[1]):
-        index_sort = np.argsort(variance[:, i])
-        variance[:, i] = variance[index_sort, i]
-        sq_error[:, i] = sq_error[index_sort, i]
+    # The sorted values are new arrays because the input might be views of user data
+    #
+    index_sort = np.argsort(variance, axis=0)
+    variance = np.take_along_axis(variance, index_sort, axis=0)
+    sq_error = np.take_along_axis(sq_error, index_sort, axis=0)
     
     # Combine and split arrays
     # The first column is absolute error
-- 
2.43.0


From ba9db2fe1650f9f0ba8adea736bd6f1e07be22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 06/27] fix: a failed integration left changed settings,
 workers, and a temporary file behind

---
 PyAnEn/utils_approximation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..b347d32 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -223,11 +223,21 @@ class Integration:
     
     def _workflow(self, func):
         
+        # Settings, temporary files, and workers should be cleaned up even if the integration fails
+        ray_initialized = ray.is_initialized()
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
+        
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            
+            try:
+                ret = func()
+            finally:
+                self._finalize_memmap()
+                
+        finally:
+            self._resume_sublevel_tqdm()
+            if not ray_initialized and ray.is_initialized(): ray.shutdown()
         
         return ret
     
-- 
2.43.0


From cbd8db7be39955db5da3200d58710e5c6f15fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 07/27] fix: KDE probabilities were not confined to [0, 1]

---
 PyAnEn/utils_verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..6e3fa4b 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -116,7 +116,8 @@ def ens_to_prob_kde(ens, bandwidth=None, kernel=None,
     if pbar is not None:
         pbar.update(1)
         
-    return np.sum(np.exp(kde.score_samples(x))) * interval
+    # The Riemann sum is only an approximation, but a probability should stay in [0, 1]
+    return np.clip(np.sum(np.exp(kde.score_samples(x))) * interval, 0, 1)
 
 
 def ens_to_prob_moments(ens, pbar=None):
-- 
2.43.0


From 3d26cf78fd20fca251ecd726de837edc27cad390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 08/27] fix: negative averaging axes were not recognized when
 bootstrapping or binning

---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 2 +-
 PyAnEn/utils_verify.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..e565b35 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [axis + len(o.shape) if axis < 0 else axis for axis in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 28cff01..ccd4a15 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -55,7 +55,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([axis + variance.ndim if axis < 0 else axis for axis in sample_axis]):
         if from_axis != to_axis:
             variance = np.moveaxis(variance, from_axis, to_axis)
             sq_error = np.moveaxis(sq_error, from_axis, to_axis)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 6e3fa4b..1185ae3 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -262,7 +262,7 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([axis + metric.ndim if axis < 0 else axis for axis in sample_axis]):
         if from_axis != to_axis:
             metric = np.moveaxis(metric, from_axis, to_axis)
         to_axis += 1
@@ -305,7 +305,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([axis + f_prob.ndim if axis < 0 else axis for axis in sample_axis]):
         if from_axis != to_axis:
             f_prob = np.moveaxis(f_prob, from_axis, to_axis)
             o_binary = np.moveaxis(o_binary, from_axis, to_axis)
-- 
2.43.0


From b2aadf6df2f7c0d09618891ca8de8fe4cd1ed085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 09/27] fix: order of kept dimensions relied on set ordering

---
 PyAnEn/utils_special_boot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index e565b35..4014938 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -155,7 +155,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     else: avg_axis = [axis + len(o.shape) if axis < 0 else axis for axis in avg_axis]
     
     # Calculate the output shape indices
-    out_shape = list(set(range(len(o.shape))) - set(avg_axis))
+    out_shape = sorted(set(range(len(o.shape))) - set(avg_axis))
 
     o = o.transpose(out_shape + avg_axis)
     f = f.transpose(out_shape + avg_axis)
-- 
2.43.0


From 3eed39c4b4d9c755b7b1c6fcd747fb19ce7f8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 10/27] fix: gamma hurdle verifier accepted forecasts and
 observations of different shapes

---
 PyAnEn/VerifyProbGammaHurdle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..b0cab7d 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -55,6 +55,13 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert hasattr(self.f, 'keys'), 'f should be dict-like'
         assert isinstance(self.o, np.ndarray)
         
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in self.f.keys():
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
-- 
2.43.0


From 586ddd8e128926a260cba1c44d55c406f1124c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 11/27] fix: different array thresholds could share one saved
 result

---
 PyAnEn/Verify.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..98e4c30 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -151,9 +151,11 @@ class Verify:
         strs = {}
         
         for k, v in kwargs.items():
-            if hasattr(v, '__len__'):
-                if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
-                elif len(v) > 5: return None
+            if isinstance(v, np.ndarray):
+                if v.size > 5: return None
+                v = v.tolist()
+            elif isinstance(v, (list, tuple)) and any(isinstance(e, np.ndarray) for e in v): return None
+            elif hasattr(v, '__len__') and len(v) > 5: return None
                 
             strs[k] = str(v).replace(' ', '_')
         
-- 
2.43.0


From 73cfba9781734e41067dcbd4a575af837ad5c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 12/27] fix: observed event used < below while the forecast
 probability uses <= below

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 1185ae3..24d01f6 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -197,7 +197,7 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o < below if over is None else o > over
+    return o <= below if over is None else o > over
 
 
 def calculate_roc(f_prob, o_binary):
-- 
2.43.0


From a646bb227130dcf30dad375cc620681de33d0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 13/27] fix: some bootstrap intervals did not cover the
 requested confidence level

---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4014938..a34a783 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.nanquantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.quantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index ccd4a15..a2dc3fb 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -160,8 +160,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence) / 2, (1+confidence) / 2])
+            mse_ci = np.quantile(mses, [(1-confidence) / 2, (1+confidence) / 2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 24d01f6..2a19ea9 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -411,10 +411,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence) / 2, (1+confidence) / 2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence) / 2, (1+confidence) / 2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From b06c059325449a27f51b6b538fb6e48b9d9c42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 14/27] fix: an interrupted save left a partial file to be
 loaded later

---
 PyAnEn/Verify.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 98e4c30..2d76eac 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -232,8 +232,13 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
+            path_tmp = '{}.{}.tmp'.format(path, os.getpid())
+            
+            # Rename after writing so that a partial file is never loaded
+            with open(path_tmp, 'wb') as f:
                 pickle.dump(arr, f)
+            
+            os.replace(path_tmp, path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From de2bb18c67d2ca4e0ef5ceafe2a2f524fc080860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 15/27] fix: the search time coordinate was not given time
 units

---
 PyAnEn/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..ec4bbaa 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -81,7 +81,7 @@ def open_dataset(file, group=None, decode=False):
             ds.coords[key] = ds[value]
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
@@ -153,7 +153,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
                            Ys=(ds_root['Ys'].dims, ds_root['Ys'].values))
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
-- 
2.43.0


From a3a47992099da333ae5c26741fac11543a27f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 16/27] fix: helper station index ignored the requested
 dimension name

---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index ec4bbaa..37e71d9 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -45,7 +45,7 @@ def __add_coords__(ds, dim_name='num_stations'):
 
     # Calculate a helper index
     station_coords = [start + index / current_total for index in range(current_total)]
-    ds.coords['num_stations'] = station_coords
+    ds.coords[dim_name] = station_coords
     
     return ds
 
-- 
2.43.0


From 7f6d8fa5bc21b1328c9bd10c6933097938fe2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 17/27] fix: root group file stayed open when reading its
 variables failed

---
 PyAnEn/IO.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 37e71d9..8a637e7 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -135,13 +135,11 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     ############################
 
     # Deal with missing time variables by reading from the root group
-    nc_root = Dataset(paths[0])
+    with Dataset(paths[0]) as nc_root:
 
-    for var in ['num_flts', 'num_test_times']:
-        if var in ds.dims and var not in ds.coords:
-            ds.coords[var] = nc_root.variables[coords_dict[var]][:].data
-
-    nc_root.close()
+        for var in ['num_flts', 'num_test_times']:
+            if var in ds.dims and var not in ds.coords:
+                ds.coords[var] = nc_root.variables[coords_dict[var]][:].data
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-- 
2.43.0


From 9b0ff66a1c8e63130a0168442590b15d0c71bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 18/27] fix: Diebold-Mariano test only checked the type of the
 observations

---
 PyAnEn/utils_significance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_significance.py b/PyAnEn/utils_significance.py
index b5d75f4..04946e6 100644
--- a/PyAnEn/utils_significance.py
+++ b/PyAnEn/utils_significance.py
@@ -64,7 +64,7 @@ def diebold_mariano_test(actual_lst, pred1_lst, pred2_lst, h=1, crit="MSE", powe
     """
     
     # Sanity check
-    assert isinstance(actual_lst, np.ndarray) and isinstance(actual_lst, np.ndarray) and isinstance(actual_lst, np.ndarray), 'actual_lst, pred1_lst and pred2_lst must be numpy arrays!'
+    assert isinstance(actual_lst, np.ndarray) and isinstance(pred1_lst, np.ndarray) and isinstance(pred2_lst, np.ndarray), 'actual_lst, pred1_lst and pred2_lst must be numpy arrays!'
     actual_lst = actual_lst.ravel()
     pred1_lst = pred1_lst.ravel()
     pred2_lst = pred2_lst.ravel()
-- 
2.43.0


From 74ca18a741d26ae0ce402f369116c0c236142d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:01 +0000
Subject: [PATCH 19/27] fix: bootstrapped correlation did not skip missing
 pairs when skipping NaN

---
 PyAnEn/utils_special_boot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index a34a783..d4b7974 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -128,7 +128,8 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             
         for _ in range(repeats):
             indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
-            corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
+            corr.append(_func_corr(f_slice[indices], o_slice[indices], n_samples=None,
+                                   repeats=repeats, confidence=confidence, skip_nan=skip_nan))
             
         if skip_nan:
             ci = np.nanquantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
-- 
2.43.0


From 67ad3b1ef2ee0d00525d0480b77b2d0eed5c7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 20/27] fix: randomize rank ties also when every observation is
 tied

---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 2a19ea9..1950e9a 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From 7a3db7df0147a96099b47eb2da8e809cf4752d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 21/27] fix: disabling bootstrap kept results saved with
 bootstrap

---
 PyAnEn/Verify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 2d76eac..d8a77cd 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -173,6 +173,7 @@ class Verify:
         
     def disable_boot(self):
         self.boot_samples = None
+        self._validate()
         return self
         
     def enable_saving(self, working_directory, start_from_scratch=True):
-- 
2.43.0


From 4e2af13f643587e7df4efd5967d4f9982d166c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:17 +0000
Subject: [PATCH 22/27] fix: reliability index should compare each bin with the
 uniform frequency

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d8a77cd..27102a1 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -94,7 +94,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From 69c21be301768561032a1edb41f5f21feab791e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 23/27] fix: remove the integration buffer when setting it up
 fails

---
 PyAnEn/utils_approximation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index b347d32..9e30d73 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -228,9 +228,8 @@ class Integration:
         self._suppress_sublevel_tqdm()
         
         try:
-            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-            
             try:
+                self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
                 ret = func()
             finally:
                 self._finalize_memmap()
@@ -258,9 +257,10 @@ class Integration:
     
     def _finalize_memmap(self):
         if self.less_memory:
-            del self.memmap_arr_r
+            self.memmap_arr_r = None
             
-            os.remove(self.memmap_arr_str)
+            if self.memmap_arr_str is not None and os.path.exists(self.memmap_arr_str):
+                os.remove(self.memmap_arr_str)
             
             self.memmap_arr_str = None
             self.memmap_shape = None
-- 
2.43.0


From 7b0c5aa3fe42d0e0e91e3b115b526b49c8a51de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 24/27] fix: open_mfdataset always failed when station
 locations were missing from a group

---
 PyAnEn/IO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 8a637e7..a59ae88 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -143,9 +143,8 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
-                               data_vars='minimal', coords='minimal', compat='override',
-                               parallel=parallel, decode_cf=False) as ds_root:
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess, data_vars='minimal', coords='minimal',
+                               compat='override', parallel=parallel, decode_cf=False) as ds_root:
 
             ds = ds.assign(Xs=(ds_root['Xs'].dims, ds_root['Xs'].values),
                            Ys=(ds_root['Ys'].dims, ds_root['Ys'].values))
-- 
2.43.0


From 612ed21bda4fd80e5f521f81ad99bb0d5ebe7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 25/27] fix: closing a dataset with renamed dimensions left the
 file open

---
 PyAnEn/IO.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index a59ae88..26d6250 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -57,6 +57,7 @@ def open_dataset(file, group=None, decode=False):
     ####################
 
     ds = xr.open_dataset(file, group=group, decode_cf=False)
+    opened = ds
 
     ############################
     # Post-process the dataset #
@@ -97,6 +98,9 @@ def open_dataset(file, group=None, decode=False):
     if decode:
         ds = xr.decode_cf(ds)
 
+    # Closing the returned dataset should close the file
+    if ds is not opened: ds.set_close(opened.close)
+
     return ds
 
 
@@ -129,6 +133,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     ds = xr.open_mfdataset(paths=paths, preprocess=preprocess, data_vars='minimal', coords='minimal',
                            compat='override', parallel=parallel, group=group, decode_cf=decode)
+    opened = ds
     
     ############################
     # Post-process the dataset #
@@ -166,4 +171,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     if decode:
         ds = xr.decode_cf(ds)
     
+    # Closing the returned dataset should close the files
+    if ds is not opened: ds.set_close(opened.close)
+    
     return ds
-- 
2.43.0


From 4ba267a1c43a1d6a801d0c8a25610ac79f2c0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 26/27] fix: no probability below zero for the Gamma hurdle
 distribution

The cumulative probability of a negative value was 1-pop instead of zero, so
that CRPS integrated over the default range, which extends below zero,
included (1-pop)^2 for every negative value.
---
 PyAnEn/utils_dist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..117eb1a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -58,6 +58,7 @@ def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
+    prob[x[3] < 0.] = 0.
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
@@ -250,6 +251,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
 def cdf_gamma_hurdle(pop, mu, sigma, below):
     # The calculation is as follows:
     #
+    # 0                                        given below<0
     # 1 - pop                                  given below=0
     # [1-pop] + pop*CDFgamma(y,shape,scale).   given below>0
     #
-- 
2.43.0


From 5c98f48cf86da815645868ae8bcb431e640fd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 27/27] fix: CRPS of Gamma forecasts with a small relative
 standard deviation was missing

The gamma function overflows for shapes larger than 171, so that the
difference of its logarithms was not a number. Use the logarithm directly.
---
 PyAnEn/utils_crps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8262398 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,8 +23,9 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
+    # The gamma function itself overflows for arguments larger than 171
+    log_prod_gamma_x = special.gammaln(x1) + special.gammaln(x2)
+    log_gamma_sum_x = special.gammaln(x1 + x2)
     return log_prod_gamma_x - log_gamma_sum_x
 
 
-- 
2.43.0

