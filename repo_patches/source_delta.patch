From 3fab9b3ab76ee90cf8ec09a32150ec493a8126ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 01/50] fix: parallel truncated gamma CDF ignored the threshold

wrapper_truncgamma_cdf evaluated the CDF at the literal 3 for every threshold.
---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From b1d7cda8b66ec433277688b7c985a90642635364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 02/50] fix: rank histogram with NaN skipping used the removed
 np.float alias

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From caa72c1020386408037d031385342bb9b41eb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 03/50] fix: rank ties were not randomized when every cell has
 a tie

The loop assumed that the smallest tie count is always zero.
---
 PyAnEn/utils_verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..1730499 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -38,7 +38,9 @@ def rankdata(x):
     unique_tie = unique_tie[~np.isnan(unique_tie)]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
+        
+        if unique_tie[i] == 0: continue
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From 2cc3a3694ac465d47e6fa601a1cd1199a4c9310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 04/50] fix: sampled spread and ranks ignored the position of
 the member axis

---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From 8fc74268fa7a6f01c6af024396a71a9fa6e37838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 05/50] fix: changing the collapse function or ensemble axis
 had no effect

The collapsed forecast was only calculated by the constructor.
---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From 51478cfa530f4435052ace6c049b677522a93e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 06/50] fix: gamma CRPS was NaN for shapes above 171

log(gamma(x)) overflows; use gammaln.
---
 PyAnEn/utils_crps.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..e66553b 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,9 +23,8 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
-    return log_prod_gamma_x - log_gamma_sum_x
+    # Work with log-gamma because gamma itself overflows when its argument exceeds 171
+    return special.gammaln(x1) + special.gammaln(x2) - special.gammaln(x1 + x2)
 
 
 def crps_gamma(mu, sigma, shift, obs, reduce_sum=True):
-- 
2.43.0


From 3e70a6d0cf79438e5d9e7f5572e9f5c92efa905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 07/50] fix: truncated Gaussian CRPS lost all precision for
 means far below zero

Differences of CDFs cancel in the right tail; use survival functions.
---
 PyAnEn/utils_crps.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index e66553b..c584fb9 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -98,21 +98,22 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     
     dist = stats.norm()
     f_z = dist.pdf(z)
-    F_z = dist.cdf(z)
-    F_l = dist.cdf(l)
-    F_u = 1
     
-    F_usqrt2 = 1
-    F_lsqrt2 = dist.cdf(l * np.sqrt(2))
+    # Use survival functions (1 - CDF) because the differences of CDF
+    # cancel out when the lower bound is in the far right tail
+    #
+    S_z = dist.sf(z)
+    S_l = dist.sf(l)
+    S_lsqrt2 = dist.sf(l * np.sqrt(2))
     
     # Calculate intermediate terms
-    frac1 = 1 / (F_u - F_l)
+    frac1 = 1 / S_l
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (2 * F_z - F_u - F_l)
+    term2 = frac1 * z * (S_l - 2 * S_z)
     term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * (F_usqrt2 - F_lsqrt2)
+    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 0d8195cc36a1c66da0f492217a74e1bcb1dfbfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 08/50] fix: gamma hurdle CDF was 1-pop for negative thresholds

The amount is never negative. The spurious mass was added to the CRPS
over the whole negative part of the integration range.
---
 PyAnEn/utils_dist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..117eb1a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -58,6 +58,7 @@ def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
+    prob[x[3] < 0.] = 0.
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
@@ -250,6 +251,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
 def cdf_gamma_hurdle(pop, mu, sigma, below):
     # The calculation is as follows:
     #
+    # 0                                        given below<0
     # 1 - pop                                  given below=0
     # [1-pop] + pop*CDFgamma(y,shape,scale).   given below>0
     #
-- 
2.43.0


From 8eba6b8c669d6e6db2153eabbe184e9460c094ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 09/50] fix: observations equal to the threshold counted as
 neither below nor over

Forecast probabilities of below include the threshold (CDF) while the
observed event did not: a perfect forecast equal to the threshold got the
worst Brier score.
---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 1730499..385d6ba 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -198,7 +198,7 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o < below if over is None else o > over
+    return o <= below if over is None else o > over
 
 
 def calculate_roc(f_prob, o_binary):
-- 
2.43.0


From 855e957ca4d176739a114c22d052ffaaaff5b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 10/50] fix: truncated gamma lost its mass above 10000 scale
 units

The upper bound is in units of the scale, so that sharp distributions
(mean/sigma above 100) had a CDF of zero or NaN everywhere.
---
 PyAnEn/utils_dist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 117eb1a..5d41627 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -24,7 +24,7 @@ from functools import partial
 from .dist_truncgamma import truncgamma_gen
 from tqdm.contrib.concurrent import process_map
 
-_LARGE_NUMBER_ = 10000
+_LARGE_NUMBER_ = np.inf
 
 
 def _parallel_process(wrapper, iterable, total, name=''):
@@ -90,7 +90,7 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
         if truncated:
             # Truncate at zero
             # a is set to the clip value effectively at zero
-            # b is set to a large number to mimic infinite 
+            # b is set to infinity 
             #
             ens = stats.truncnorm(a=-mu/sigma, b=_LARGE_NUMBER_, loc=mu, scale=sigma).rvs([n_sample_members] + arr_shape)
         else:
-- 
2.43.0


From 8ab7e44fc20798fa2776e153b264a8a69a92354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 11/50] fix: reliability index of a flat histogram was not zero

The reference frequency is the same for all ranks: 1 over the number of ranks.
---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..129a71c 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -94,7 +94,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From 89d24016f2480f3c54cbac4c7569bc757775d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 12/50] fix: gamma hurdle verifier accepted mismatching shapes

---
 PyAnEn/VerifyProbGammaHurdle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..b0cab7d 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -55,6 +55,13 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert hasattr(self.f, 'keys'), 'f should be dict-like'
         assert isinstance(self.o, np.ndarray)
         
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in self.f.keys():
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
-- 
2.43.0


From 7e1ba23f5574aab51bf12e62dd594644b6df777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 13/50] fix: negative averaging axes gave errors or sampled the
 wrong axes

Correlation and Brier decomposition failed with negative axes. Bootstrapping,
reliability and spread skill moved the wrong axes when negative and
non-negative axes are mixed, e.g., (1, -1).
---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 3 +++
 PyAnEn/utils_verify.py       | 6 ++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..5dbf956 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [range(len(o.shape))[axis] for axis in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..c4e4cce 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -52,6 +52,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     assert variance.shape == sq_error.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [range(len(variance.shape))[axis] for axis in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 385d6ba..fce7286 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -260,6 +260,9 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     if sample_axis is None:
         sample_axis = list(range(len(metric.shape)))
     
+    # Negative axes count from the end
+    sample_axis = [range(len(metric.shape))[axis] for axis in sample_axis]
+    
     # Move sample axis to the beginning
     to_axis = 0
 
@@ -303,6 +306,9 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     assert f_prob.shape == o_binary.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [range(len(o_binary.shape))[axis] for axis in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
-- 
2.43.0


From 3897447088f23e72de7325eaa31c72b8d8793e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 14/50] fix: binned spread skill reordered the input arrays of
 the caller

---
 PyAnEn/utils_ss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index c4e4cce..ff09599 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -67,8 +67,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     shape_to_keep = variance.shape[to_axis:]
     
     # Flatten the sample dimensions and the kept dimensions separately
-    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
-    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
+    # Copy because they are sorted in place and a reshaped array can be a view of the input
+    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
+    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
     
     # Sort arrays based on variance 
     for i in range(variance.shape[1]):
-- 
2.43.0


From a7e9f0e99517542745561fdc548ded6d7b106a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 15/50] fix: bootstrap intervals did not have the configured
 confidence

Correlation, Brier decomposition, reliability and spread skill took the
quantiles [1-confidence, confidence], i.e., a 90% interval for a confidence of
0.95 and an inverted interval below 0.5. Use the two-sided quantiles as
boot_vec does.
---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 5dbf956..ce5fb5d 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.nanquantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.quantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index ff09599..8974fa8 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -163,8 +163,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence) / 2, (1+confidence) / 2])
+            mse_ci = np.quantile(mses, [(1-confidence) / 2, (1+confidence) / 2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index fce7286..452a666 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -418,10 +418,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence) / 2, (1+confidence) / 2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence) / 2, (1+confidence) / 2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From 8ed80561a02fa4d5f43491bb57c9be330b39d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 16/50] fix: bootstrapped correlation did not skip NaN

Every resample with a missing value had a NaN correlation.
---
 PyAnEn/utils_special_boot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index ce5fb5d..bda5032 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -124,6 +124,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             return np.corrcoef(f_slice, o_slice)[0, 1]
     
     else:
+        if skip_nan:
+            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+            f_slice, o_slice = f_slice[mask], o_slice[mask]
+        
         corr = []
             
         for _ in range(repeats):
-- 
2.43.0


From eff1adf91df28a84cc9e6b932ed61bbc578f9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 17/50] fix: saved results were reused after changing the
 averaging axis

Correlation, Brier decomposition, IOU, reliability and spread skill save data
that have been arranged along the averaging axis, but the axis was not part of
the name.
---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 129a71c..2009240 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -59,16 +59,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -78,8 +78,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, avg_axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, avg_axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From db43de51c4c6888c4e01f7fdd834f5463fb451aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 18/50] fix: an interrupted save left an incomplete file that
 broke the next run

Write to a temporary file and rename it.
---
 PyAnEn/Verify.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 2009240..8cce2cf 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -230,8 +230,16 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
+            
+            # Write to a temporary file first so that an interrupted run
+            # never leaves an incomplete file to be loaded later
+            #
+            tmp_path = '{}.{}.tmp'.format(path, os.getpid())
+            
+            with open(tmp_path, 'wb') as f:
                 pickle.dump(arr, f)
+                
+            os.replace(tmp_path, path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 0b5101e3fc6cc887bdcb3f22ffa5c66f5e3f2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 19/50] fix: small arrays that differ after 8 digits shared a
 saved result

---
 PyAnEn/Verify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 8cce2cf..fcfb480 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -155,6 +155,9 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+            # str rounds the values of an array
+            if isinstance(v, np.ndarray): v = v.tolist()
+            
             strs[k] = str(v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
-- 
2.43.0


From f8b7009468262bcd76d3f9cc1bad1364506f4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 20/50] fix: a failed integration left changed settings and a
 scratch file behind

---
 PyAnEn/utils_approximation.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..24476c7 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -224,10 +224,16 @@ class Integration:
     def _workflow(self, func):
         
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
+        
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            
+            try:
+                ret = func()
+            finally:
+                self._finalize_memmap()
+        finally:
+            self._resume_sublevel_tqdm()
         
         return ret
     
@@ -259,8 +265,8 @@ class Integration:
         
         # Backup environment variables
         self.tqdm_backup = {
-            'pyanen_tqdm_disable': util.strtobool(os.environ['pyanen_tqdm_disable']),
-            'pyanen_tqdm_workers': int(os.environ['pyanen_tqdm_workers'])
+            'pyanen_tqdm_disable': os.environ['pyanen_tqdm_disable'],
+            'pyanen_tqdm_workers': os.environ['pyanen_tqdm_workers']
         }
         
         # Disable sublevel prograss bar to prevent an too many bars showing up
@@ -274,7 +280,7 @@ class Integration:
         assert self.tqdm_backup is not None, 'Resume function called before calling the suppressing function!'
         
         for k, v in self.tqdm_backup.items():
-            os.environ[k] = str(v)
+            os.environ[k] = v
         
     def _define_integration_range(self):
         
-- 
2.43.0


From 51595a97728af50e1fdc1b57be17dd9e2ad0ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 21/50] fix: one missing observation made the whole integration
 NaN with NaN skipping

---
 PyAnEn/utils_approximation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 24476c7..dc5150b 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -290,8 +290,12 @@ class Integration:
             assert range_multi > 0
             
             # Define the x bins to integrate
-            vmin = np.min(self.verifier.o)
-            vmax = np.max(self.verifier.o)
+            if util.strtobool(os.environ['pyanen_skip_nan']):
+                vmin = np.nanmin(self.verifier.o)
+                vmax = np.nanmax(self.verifier.o)
+            else:
+                vmin = np.min(self.verifier.o)
+                vmax = np.max(self.verifier.o)
             
             vrange = vmax - vmin
             self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
-- 
2.43.0


From 7c2a0c62570e6a273347089fb2c06fb63e853ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 22/50] fix: parallel sampling generated the same random
 numbers in all workers

Forked workers inherit the state of the random number generator: cells handled
by different workers, and repeated calls, had the same noise.
---
 PyAnEn/utils_dist.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 5d41627..b8e2c49 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -27,7 +27,12 @@ from tqdm.contrib.concurrent import process_map
 _LARGE_NUMBER_ = np.inf
 
 
-def _parallel_process(wrapper, iterable, total, name=''):
+def _seeded_call(wrapper, x, seed):
+    np.random.seed(seed)
+    return wrapper(x)
+
+
+def _parallel_process(wrapper, iterable, total, name='', random=False):
     
     cores = int(os.environ['pyanen_tqdm_workers'])
     chunksize = int(os.environ['pyanen_tqdm_chunksize'])
@@ -36,7 +41,16 @@ def _parallel_process(wrapper, iterable, total, name=''):
     assert cores > 1
     assert parallelize_axis < 0, 'parallelize_axis needs to be negative, counting from the end of dimensions, excluding the ensemble axis'
     
-    ens = process_map(wrapper, iterable, total=total,
+    # Forked workers share the state of the random number generator.
+    # Use a seed for each task. Otherwise, they generate the same numbers.
+    #
+    if random:
+        iterables = [iterable, np.random.randint(2 ** 32, size=total, dtype=np.uint32)]
+        wrapper = partial(_seeded_call, wrapper)
+    else:
+        iterables = [iterable]
+    
+    ens = process_map(wrapper, *iterables, total=total,
                       disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                       leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                       chunksize=chunksize, max_workers=cores, desc='Process {}'.format(name))
@@ -109,7 +123,7 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
         else:
             wrapper = partial(wrapper_norm_rvs, n_sample_members=n_sample_members)
         
-        ens = _parallel_process(wrapper, iterable, total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs')
+        ens = _parallel_process(wrapper, iterable, total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs', random=True)
             
     # Move the ensemble axis somewhere else if the first position is not desired
     if move_axis != 0:
@@ -153,7 +167,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
         else:
             wrapper = partial(wrapper_gamma_rvs, n_sample_members=n_sample_members)
         
-        ens = _parallel_process(wrapper, iterable, total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs')
+        ens = _parallel_process(wrapper, iterable, total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs', random=True)
         
     # Move the ensemble axis somewhere else if the first position is not desired
     if move_axis != 0:
-- 
2.43.0


From 56880d53357ee81629fac7ba1dbab88557cfe919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 23/50] fix: parallel rank histogram resolved ties with the
 same numbers in all workers

---
 PyAnEn/utils_verify.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 452a666..c90c976 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -49,6 +49,11 @@ def rankdata(x):
     return obs_ranks
 
 
+def _seeded_rankdata(x, seed):
+    np.random.seed(seed)
+    return rankdata(x)
+
+
 def rank_histogram(f, o, ensemble_axis):
     # Reference:
     # https://github.com/oliverangelil/rankhistogram/blob/master/ranky.py
@@ -76,8 +81,13 @@ def rank_histogram(f, o, ensemble_axis):
         chunksize = int(os.environ['pyanen_tqdm_chunksize'])
         assert parallelize_axis < 0, 'parallelize_axis needs to be negative, counting from the end of dimensions, excluding the ensemble axis'
         
-        ranks = process_map(rankdata,
-                            np.split(c, c.shape[parallelize_axis], parallelize_axis),
+        # Forked workers share the state of the random number generator.
+        # Use a seed for each task. Otherwise, ties are resolved with the same numbers.
+        #
+        seeds = np.random.randint(2 ** 32, size=c.shape[parallelize_axis], dtype=np.uint32)
+        
+        ranks = process_map(_seeded_rankdata,
+                            np.split(c, c.shape[parallelize_axis], parallelize_axis), seeds,
                             disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                             leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                             chunksize=chunksize, max_workers=cores,
-- 
2.43.0


From bf54046563fd251af3f17745195d748254417089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 24/50] fix: Brier score counted missing observations as
 non-events

The score of a missing observation is missing. This also removes missing
observations from the CRPS that is integrated from Brier scores.
---
 PyAnEn/VerifyEnsemble.py | 3 ++-
 PyAnEn/VerifyProb.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 751abac..ee10a3e 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -117,7 +117,8 @@ class VerifyEnsemble(Verify):
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-        return brier ** 2
+        # A missing observation is not a non-event
+        return np.where(np.isnan(self.o), np.nan, brier ** 2)
     
     def _brier_decomp(self, over, below):
         f = self.cdf(over=over, below=below)
diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 3768294..5124c6f 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -114,7 +114,8 @@ class VerifyProb(Verify):
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-        return brier ** 2
+        # A missing observation is not a non-event
+        return np.where(np.isnan(self.o), np.nan, brier ** 2)
     
     def _brier_decomp(self, over, below):
         f = self.cdf(over=over, below=below)
-- 
2.43.0


From bfcc4474685f0bfc03efde6fdca4d7a79fa80989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:25 +0000
Subject: [PATCH 25/50] fix: resamples with missing values only made
 bootstrapped averages missing

---
 PyAnEn/utils_verify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index c90c976..6792905 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -240,11 +240,11 @@ def boot_vec(pop, n_samples=None, repeats=None, confidence=None, pbar=None, skip
     if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
     if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
     
-    if skip_nan:
-        boot_samples_mean = [np.nanmean(np.random.choice(pop, size=n_samples, replace=True)) for _ in range(repeats)]
-    else:
-        boot_samples_mean = [np.random.choice(pop, size=n_samples, replace=True).mean() for _ in range(repeats)]
+    if skip_nan and not np.all(np.isnan(pop)):
+        # Exclude missing values before resampling. Otherwise, a resample could have nothing but missing values.
+        pop = pop[~np.isnan(pop)]
         
+    boot_samples_mean = [np.random.choice(pop, size=n_samples, replace=True).mean() for _ in range(repeats)]
     boot_samples_mean = np.array(boot_samples_mean)
     
     sample_mean = boot_samples_mean.mean()
-- 
2.43.0


From cc273c532f1cbb54f8f163f998242690272c6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:25 +0000
Subject: [PATCH 26/50] fix: gamma hurdle gave missing observations the rank of
 zero

---
 PyAnEn/utils_dist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index b8e2c49..861cd69 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -73,6 +73,7 @@ def wrapper_gamma_hurdle_cdf(x):
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
     prob[x[3] < 0.] = 0.
+    prob[np.isnan(x[3])] = np.nan
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
-- 
2.43.0


From 2990a4f8e94a48eecc0bd70e987353e5c647421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:37 +0000
Subject: [PATCH 27/50] fix: search time coordinates had no unit and were never
 decoded

---
 PyAnEn/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..ec4bbaa 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -81,7 +81,7 @@ def open_dataset(file, group=None, decode=False):
             ds.coords[key] = ds[value]
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
@@ -153,7 +153,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
                            Ys=(ds_root['Ys'].dims, ds_root['Ys'].values))
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
-- 
2.43.0


From 83ee0aa2701522ef5cca9a2e6a15ac062aec06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 28/50] fix: multi-file datasets failed when locations are only
 in the root group

---
 PyAnEn/IO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index ec4bbaa..17a5d1e 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,9 +145,8 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
-                               data_vars='minimal', coords='minimal', compat='override',
-                               parallel=parallel, decode_cf=False) as ds_root:
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess, data_vars='minimal', coords='minimal',
+                               compat='override', parallel=parallel, decode_cf=False) as ds_root:
 
             ds = ds.assign(Xs=(ds_root['Xs'].dims, ds_root['Xs'].values),
                            Ys=(ds_root['Ys'].dims, ds_root['Ys'].values))
-- 
2.43.0


From cfd0a80092b3abe77df8a1b7dad9bd92ef4aeb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:33 +0000
Subject: [PATCH 29/50] fix: truncated gamma CDF was zero at and above its
 upper bound

The bounds were stored on the instance by the argument check, after scipy had
already asked for the support, so that every call saw the bounds of the
previous one (none for a new instance).
---
 PyAnEn/dist_truncgamma.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..f57b75a 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -29,10 +29,11 @@ class truncgamma_gen(rv_continuous):
     # https://stats.stackexchange.com/a/534340
 
     def _argcheck(self, a, b, s):
-        self.a = a  # lower bound
-        self.b = b  # upper bound
-        self.s = s
-        return (self.a >= 0.0) & (self.b > self.a)
+        return (a >= 0.0) & (b > a)
+    
+    def _get_support(self, a, b, s):
+        # The bounds are parameters. Keeping them on the instance would be too late for the current call
+        return a, b
     
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
-- 
2.43.0


From d9a3e0d6474cdaf0695bebb894f5a915817d9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:41 +0000
Subject: [PATCH 30/50] fix: truncated gamma failed for a shape parameter with
 singleton dimensions

scipy passes parameters with one element as they are, so that the result can
have more dimensions than the mask that was used to index it.
---
 PyAnEn/dist_truncgamma.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index f57b75a..3960424 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -42,8 +42,7 @@ class truncgamma_gen(rv_continuous):
         result = np.exp(self._logpdf(x, s)) / (sc.gammainc(s, b) - sc.gammainc(s, a))
         
         mask = (x<a) | (x>b)
-        result[mask] = 0.0
-        return result
+        return np.where(mask, 0.0, result)
 
     def _cdf(self, x, a, b, s):
         
@@ -53,8 +52,7 @@ class truncgamma_gen(rv_continuous):
         result = (P_x - P_a) / (P_b - P_a)
         
         mask = (x<a) | (x>b)
-        result[mask] = 0.0
-        return result
+        return np.where(mask, 0.0, result)
     
     def _ppf(self, q, a, b, s):
         P_a = gammainc(s, a)
-- 
2.43.0


From 1e19eb4367e1025cda60e2cd3eae90c1a97acf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 31/50] fix: starting several processes on a new working
 directory failed when one of them created it first

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index fcfb480..6641adc 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -210,7 +210,7 @@ class Verify:
                     shutil.rmtree(self.working_directory)
                     os.makedirs(self.working_directory)
             else:
-                os.makedirs(self.working_directory)
+                os.makedirs(self.working_directory, exist_ok=True)
     
     def _validate_boot_samples(self):
         if self.boot_samples is not None:
-- 
2.43.0


From 1e8debfcff5618073c83e2900e4767243bbdd69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:08 +0000
Subject: [PATCH 32/50] fix: low-memory integrations sharing a directory
 overwrote and removed each other's scratch file

---
 PyAnEn/utils_approximation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index dc5150b..d31416c 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -16,6 +16,7 @@
 
 import os
 import ray
+import tempfile
 
 import numpy as np
 
@@ -239,7 +240,11 @@ class Integration:
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
-            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__.dat')
+            # Use a unique file so that processes sharing the directory do not overwrite each other
+            fd, self.memmap_arr_str = tempfile.mkstemp(
+                prefix='__pyanen_numerical_integration__', suffix='.dat', dir=self.memmap_dir)
+            os.close(fd)
+            
             self.memmap_shape = memmap_shape
             
             self.memmap_arr_w = np.memmap(
-- 
2.43.0


From 9a129a5323b91a0e0273766b5e1290a0d554a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:08 +0000
Subject: [PATCH 33/50] fix: ROC counted missing observations as non-events

---
 PyAnEn/VerifyEnsemble.py | 3 ++-
 PyAnEn/VerifyProb.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index ee10a3e..382788e 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -150,7 +150,8 @@ class VerifyEnsemble(Verify):
         
         # Calculate forecasted probability and binarized observations
         f_prob = self.cdf(over=over, below=below)
-        o_binary = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o_binary = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         
         return calculate_roc(f_prob, o_binary)
     
diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 5124c6f..19aafd7 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -144,7 +144,8 @@ class VerifyProb(Verify):
         
         # Calculate forecasted probability and binarized observations
         f_prob = self.cdf(over=over, below=below)
-        o_binary = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o_binary = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         
         return calculate_roc(f_prob, o_binary)
     
-- 
2.43.0


From ace0b417d260e318735f5a724c54e58fdbeaa70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:49 +0000
Subject: [PATCH 34/50] fix: Brier decomposition counted missing observations
 as non-events

---
 PyAnEn/VerifyEnsemble.py     | 3 ++-
 PyAnEn/VerifyProb.py         | 3 ++-
 PyAnEn/utils_special_boot.py | 5 +++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 382788e..ddf5a06 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -122,7 +122,8 @@ class VerifyEnsemble(Verify):
     
     def _brier_decomp(self, over, below):
         f = self.cdf(over=over, below=below)
-        o = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         return brier_decomp(f, o, self.avg_axis, self.boot_samples)
     
     def _variance(self):
diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 19aafd7..004c13b 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -119,7 +119,8 @@ class VerifyProb(Verify):
     
     def _brier_decomp(self, over, below):
         f = self.cdf(over=over, below=below)
-        o = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         return brier_decomp(f, o, self.avg_axis, self.boot_samples)
     
     def _binned_spread_skill(self, nbins=15):
diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index bda5032..c34a984 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -49,6 +49,11 @@ def brier_decomp(f, o, avg_axis=None, n_samples=None, repeats=None, confidence=N
 
 def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_nan, n_bins=19):
     
+    if skip_nan:
+        # Missing values belong to no bin
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     bins = np.linspace(0, 1, n_bins + 2)[1:-1]
     belongs = np.digitize(f_slice, bins)
 
-- 
2.43.0


From 0ce9e7fcf55d0ffa9137bfa4873a4a32d9200e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:39 +0000
Subject: [PATCH 35/50] fix: reliability diagram counted missing observations
 as non-events

---
 PyAnEn/VerifyEnsemble.py |  3 ++-
 PyAnEn/VerifyProb.py     |  3 ++-
 PyAnEn/utils_verify.py   | 15 +++++++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index ddf5a06..f39639c 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -143,7 +143,8 @@ class VerifyEnsemble(Verify):
         
         # Calculate forecasted probability and binarized observations
         f_prob = self.cdf(over=over, below=below)
-        o_binary = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o_binary = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         
         return _reliability_create_split(f_prob, o_binary, nbins, sample_axis=self.avg_axis)
     
diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 004c13b..9a0241d 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -137,7 +137,8 @@ class VerifyProb(Verify):
         
         # Calculate forecasted probability and binarized observations
         f_prob = self.cdf(over=over, below=below)
-        o_binary = binarize_obs(self.o, over=over, below=below)
+        # A missing observation is not a non-event
+        o_binary = np.where(np.isnan(self.o), np.nan, binarize_obs(self.o, over=over, below=below))
         
         return _reliability_create_split(f_prob, o_binary, nbins, sample_axis=self.avg_axis)
     
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 6792905..bdc16a9 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -341,8 +341,16 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     return binids, f_prob, o_binary, bins
 
 
+def _reliability_skip_nan(binids, y_prob, y_true):
+    mask = ~(np.isnan(y_prob) | np.isnan(y_true))
+    return binids[mask], y_prob[mask], y_true[mask]
+
+
 def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
 
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        binids, y_prob, y_true = _reliability_skip_nan(binids, y_prob, y_true)
+    
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
     bin_true = np.bincount(binids, weights=y_true, minlength=len(bins))
     bin_total = np.bincount(binids, minlength=len(bins))
@@ -353,7 +361,7 @@ def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
     prob_true = bin_true[nonzero] / bin_total[nonzero]
     
     pred_count = pd.value_counts(binids.flatten()).sort_index()
-    true_count = pd.value_counts(y_true.astype(int).flatten()).sort_index()
+    true_count = pd.value_counts(y_true[~np.isnan(y_true)].astype(int)).sort_index()
 
     pred_count.name = 'Samples in each bin'
     true_count.name = 'Samples in each bin'
@@ -408,6 +416,9 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
     if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
     if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
     
+    if skip_nan:
+        binids, y_prob, y_true = _reliability_skip_nan(binids, y_prob, y_true)
+    
     probs_pred = []
     probs_true = []
     
@@ -448,7 +459,7 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
     probs_true = np.array(probs_true)
 
     pred_counts = pd.value_counts(binids.flatten()).sort_index()
-    true_counts = pd.value_counts(y_true.astype(int).flatten()).sort_index()
+    true_counts = pd.value_counts(y_true[~np.isnan(y_true)].astype(int)).sort_index()
 
     pred_counts.name = 'Samples in each bin'
     true_counts.name = 'Samples in each bin'
-- 
2.43.0


From 14a5f62a0d68adbba9ee579bab4677916fd1228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:22 +0000
Subject: [PATCH 36/50] fix: numpy scalars were rejected as thresholds and
 single precision observations of the gamma hurdle failed

A distribution's CDF only took Python numbers as a scalar threshold. A
threshold from np.arange, or the integration grid of float32 observations,
raised a RuntimeError saying that it should be a scalar.
---
 PyAnEn/utils_dist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 861cd69..7621a1a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -189,7 +189,7 @@ def cdf_gaussian(mu, sigma, below, truncated=False):
     
     if isinstance(below, np.ndarray):
         assert below.shape == mu.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(mu.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
@@ -230,7 +230,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
         
     if isinstance(below, np.ndarray):
         assert below.shape == shape.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(shape.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
@@ -279,7 +279,7 @@ def cdf_gamma_hurdle(pop, mu, sigma, below):
         
     if isinstance(below, np.ndarray):
         assert below.shape == shape.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(shape.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
-- 
2.43.0


From 2ddb864038d8bf4c5a0cab2f76571cf6de702337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 37/50] fix: PIT failed when the distribution of a zero
 observation is missing

The random rank of a zero observation is drawn between zero and the CDF at
zero. A missing CDF is no valid range, so one missing distribution made the
ranks of all cells fail.
---
 PyAnEn/VerifyProb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 9a0241d..6ec5ddb 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -175,7 +175,8 @@ class VerifyProb(Verify):
         ranks = self._cdf(over=None, below=self.o)
         
         if self.pit_randomize_zero_ranks:
-            mask = self.o == 0
+            # A missing distribution has no rank to randomize
+            mask = (self.o == 0) & ~np.isnan(ranks)
             ranks[mask] = stats.uniform(loc=0, scale=ranks[mask]).rvs()
         
         return ranks
-- 
2.43.0


From 556f20c91128332dabe5fad41a73bb9b75eff620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 38/50] fix: single precision observations and ensembles
 disagreed on the event

numpy rounds a Python number to single precision when it is compared with
single precision observations, but the members were compared in double
precision. Members and observation of 0.1 were on different sides of the
threshold 0.1.
---
 PyAnEn/utils_verify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index bdc16a9..f14c806 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -208,7 +208,11 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o <= below if over is None else o > over
+    
+    # Compare in the precision of ensembles and thresholds. A Python number alone is rounded to that of
+    # single precision observations and the event differs from the one that is forecasted.
+    #
+    return o <= np.asarray(below) if over is None else o > np.asarray(over)
 
 
 def calculate_roc(f_prob, o_binary):
-- 
2.43.0


From 01d4193a43eaa88b1ae57a35dd04804332b3ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 39/50] fix: truncated gamma samples ignored the random state

---
 PyAnEn/dist_truncgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index 3960424..2402a4c 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -60,5 +60,5 @@ class truncgamma_gen(rv_continuous):
         return gammaincinv(s, q * (P_b - P_a) + P_a)
     
     def _rvs(self, a, b, s, size=None, random_state=None):
-        q = stats.uniform().rvs(size=size)
+        q = stats.uniform().rvs(size=size, random_state=random_state)
         return self._ppf(q, a, b, s)
-- 
2.43.0


From 9fff60e9f29d7c26b3fc79a3048c43a5d0e990a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 40/50] fix: saved results of a single precision threshold were
 used for the double precision one

---
 PyAnEn/Verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 6641adc..139f8dd 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -155,8 +155,8 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
-            # str rounds the values of an array
-            if isinstance(v, np.ndarray): v = v.tolist()
+            # str rounds the values of an array and of a single precision number
+            if isinstance(v, (np.ndarray, np.generic)): v = v.tolist()
             
             strs[k] = str(v).replace(' ', '_')
         
-- 
2.43.0


From fd177ebf8ec9b29780dde39b5e8e52a6eebe6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 41/50] fix: reliability index failed for a list of frequencies
 that add up to one

---
 PyAnEn/Verify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 139f8dd..746ad62 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -89,6 +89,7 @@ class Verify:
     
     @staticmethod
     def reliability_index(freqs):
+        freqs = np.asarray(freqs)
         freqs_sum = np.sum(freqs)
         
         if freqs_sum != 1:
-- 
2.43.0


From 1ec9fbf7071ae26d6f6e19b7997f7a80579affaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 42/50] fix: an ensemble verifier with a partial collapse
 function could not be printed

---
 PyAnEn/VerifyEnsemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index f39639c..9b19ce6 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -229,5 +229,6 @@ class VerifyEnsemble(Verify):
     def __repr__(self):
         msg = super().__repr__()
         msg += '\nEnsemble axis (ensemble_axis): {}'.format(self.ensemble_axis)
-        msg += '\nEnsemble collapsing function (ensemble_collapse_func): {}'.format(self.ensemble_collapse_func.__name__)
+        msg += '\nEnsemble collapsing function (ensemble_collapse_func): {}'.format(
+            getattr(self.ensemble_collapse_func, '__name__', self.ensemble_collapse_func))
         return msg
-- 
2.43.0


From f52b6005328b012323047c48c1a5e5bfe5a5a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 43/50] fix: a repeated averaging axis was silently taken for
 another axis

---
 PyAnEn/utils_ss.py     | 1 +
 PyAnEn/utils_verify.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 8974fa8..5940f56 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -54,6 +54,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
 
     # Negative axes count from the end
     sample_axis = [range(len(variance.shape))[axis] for axis in sample_axis]
+    assert len(set(sample_axis)) == len(sample_axis), 'An axis is repeated in sample_axis'
 
     # Move sample axis to the beginning
     to_axis = 0
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index f14c806..e5b3a2f 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -276,6 +276,7 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     
     # Negative axes count from the end
     sample_axis = [range(len(metric.shape))[axis] for axis in sample_axis]
+    assert len(set(sample_axis)) == len(sample_axis), 'An axis is repeated in sample_axis'
     
     # Move sample axis to the beginning
     to_axis = 0
@@ -322,6 +323,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
 
     # Negative axes count from the end
     sample_axis = [range(len(o_binary.shape))[axis] for axis in sample_axis]
+    assert len(set(sample_axis)) == len(sample_axis), 'An axis is repeated in sample_axis'
 
     # Move sample axis to the beginning
     to_axis = 0
-- 
2.43.0


From 79fb621ffb654f1b5b161738e0d3d03d76386a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 44/50] fix: a failed integration with several workers kept
 later ones from running

---
 PyAnEn/utils_approximation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index d31416c..a25c014 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -51,7 +51,15 @@ def _ray_to_iterator(obj_ids):
     # Reference: https://github.com/ray-project/ray/issues/8164#issuecomment-697971305
     while obj_ids:
         done, obj_ids = ray.wait(obj_ids)
-        yield ray.get(done[0])
+        
+        try:
+            ret = ray.get(done[0])
+        except Exception:
+            # Otherwise, the next integration cannot initialize ray again
+            ray.shutdown()
+            raise
+            
+        yield ret
 
 
 class Integration:
-- 
2.43.0


From ec325a038e93a5b55d04ecf68400fb587afdf461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 45/50] fix: starting from scratch failed in the current
 directory or behind a link

shutil.rmtree refuses a link and cannot remove '.', after it has removed
all contents. Remove the contents and keep the directory.
---
 PyAnEn/Verify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 746ad62..1ba776f 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -208,8 +208,12 @@ class Verify:
             
             if os.path.exists(self.working_directory):
                 if self.start_from_scratch:
-                    shutil.rmtree(self.working_directory)
-                    os.makedirs(self.working_directory)
+                    # The directory itself stays because it can be a link or the current directory
+                    for entry in list(os.scandir(self.working_directory)):
+                        if entry.is_dir(follow_symlinks=False):
+                            shutil.rmtree(entry.path)
+                        else:
+                            os.remove(entry.path)
             else:
                 os.makedirs(self.working_directory, exist_ok=True)
     
-- 
2.43.0


From ff74db0433c829904eaebcb87a2405a014b80e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 46/50] fix: reliability_diagram ignored the argument skip_nan
 without bootstrapping

---
 PyAnEn/utils_verify.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e5b3a2f..4253ffb 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -352,9 +352,11 @@ def _reliability_skip_nan(binids, y_prob, y_true):
     return binids[mask], y_prob[mask], y_true[mask]
 
 
-def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
+def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins, skip_nan=None):
 
-    if util.strtobool(os.environ['pyanen_skip_nan']):
+    if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+    
+    if skip_nan:
         binids, y_prob, y_true = _reliability_skip_nan(binids, y_prob, y_true)
     
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
@@ -375,10 +377,10 @@ def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
     return prob_pred, prob_true, pred_count, true_count
 
 
-def _reliability_agg_no_boot(binids, y_prob, y_true, bins):
+def _reliability_agg_no_boot(binids, y_prob, y_true, bins, skip_nan=None):
 
     if len(y_true.shape) == 1:
-        return _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins)
+        return _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins, skip_nan)
 
     else:
         # Initialization
@@ -398,7 +400,7 @@ def _reliability_agg_no_boot(binids, y_prob, y_true, bins):
                       desc='Reliability aggregation'):
 
             prob_pred, prob_true, pred_count, true_count = _reliability_agg_no_boot_slice(
-                binids[:, i], y_prob[:, i], y_true[:, i], bins)
+                binids[:, i], y_prob[:, i], y_true[:, i], bins, skip_nan)
             
             probs_pred.append(prob_pred)
             probs_true.append(prob_true)
@@ -522,7 +524,7 @@ def reliability_diagram(f_prob, o_binary, nbins, sample_axis,
     
     if boot_samples is None:
         return _reliability_agg_no_boot(
-            binids, f_prob, o_binary, bins)
+            binids, f_prob, o_binary, bins, skip_nan)
     else:
         return _reliability_agg_boot(
             binids, f_prob, o_binary, bins,
-- 
2.43.0


From 8a3cf13016eb836c6a2c99ddb532c9ffeae3d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 47/50] fix: crps_truncated_gaussian returns NaN when the mean
 is far below the bound

---
 PyAnEn/utils_crps.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index c584fb9..d7fe804 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -96,24 +96,22 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     mask = z < l
     z[mask] = l[mask]
     
-    dist = stats.norm()
-    f_z = dist.pdf(z)
-    
-    # Use survival functions (1 - CDF) because the differences of CDF
-    # cancel out when the lower bound is in the far right tail
+    # Use the ratios of densities and of survival functions (1 - CDF) to the
+    # survival function at the lower bound. The differences of CDF cancel out
+    # and the survival functions vanish when the lower bound is in the far
+    # right tail. The logarithms don't.
     #
-    S_z = dist.sf(z)
-    S_l = dist.sf(l)
-    S_lsqrt2 = dist.sf(l * np.sqrt(2))
-    
-    # Calculate intermediate terms
-    frac1 = 1 / S_l
+    dist = stats.norm()
+    log_S_l = dist.logsf(l)
+    f_z = np.exp(dist.logpdf(z) - log_S_l)
+    S_z = np.exp(dist.logsf(z) - log_S_l)
+    S_lsqrt2 = np.exp(dist.logsf(l * np.sqrt(2)) - 2 * log_S_l)
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (S_l - 2 * S_z)
-    term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
+    term2 = z * (1 - 2 * S_z)
+    term3 = 2 * f_z
+    term4 = 1 / np.sqrt(np.pi) * S_lsqrt2
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 969c41fc55d540bce00a8a0245dccbf6c159d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 48/50] fix: rank_histogram dropped the rank of cells whose
 members are infinite with both signs

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 4253ffb..efc4665 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -59,7 +59,7 @@ def rank_histogram(f, o, ensemble_axis):
     # https://github.com/oliverangelil/rankhistogram/blob/master/ranky.py
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        final_mask = np.where(np.isnan(o) | np.isnan(f.sum(axis=ensemble_axis)))
+        final_mask = np.where(np.isnan(o) | np.isnan(f).any(axis=ensemble_axis))
     else:
         assert not np.any(np.isnan(f)), "[rank_histogram] f has NANs. Try to set os.environ['pyanen_skip_nan']='True'"
         assert not np.any(np.isnan(o)), "[rank_histogram] o has NANs. Try to set os.environ['pyanen_skip_nan']='True'"
-- 
2.43.0


From 51c0f1fbf88b6754b2fa19063e5e2aafb0a94fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 49/50] fix: kernel probabilities of (almost) identical members
 are negative or lose half of the mass

---
 PyAnEn/utils_verify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index efc4665..00fe86c 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -120,6 +120,14 @@ def ens_to_prob_kde(ens, bandwidth=None, kernel=None,
     vmin, vmax = ens.min(), ens.max()
     spread = vmax - vmin
     
+    # Kernels are as wide as the bandwidth, even when all members are the same
+    spread = max(spread, getattr(kde, 'bandwidth_', bandwidth))
+    
+    # There is nothing below the first grid point
+    if below <= vmin - spread * spread_multiplier:
+        if pbar is not None: pbar.update(1)
+        return 0.
+    
     x = np.linspace(vmin - spread * spread_multiplier, below, samples) \
         
     interval = x[1] - x[0]
-- 
2.43.0


From a6c656e99bb1b7027d4197fa706d2ec0dd9e2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 50/50] fix: a missing hurdle forecast has a probability below
 negative thresholds

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 7621a1a..6e6e788 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -73,7 +73,7 @@ def wrapper_gamma_hurdle_cdf(x):
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
     prob[x[3] < 0.] = 0.
-    prob[np.isnan(x[3])] = np.nan
+    prob[np.isnan(x[0]) | np.isnan(x[3])] = np.nan
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
-- 
2.43.0

