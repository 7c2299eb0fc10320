From 55a564f101934f633d3545aaed4c00765d3a513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 01/50] fix: BenchDenUniform must be the uniform density on [0,
 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 932895f923e3cc2acd942c96d9a862d883b540c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 02/50] fix: CMultivariateExponential density, out-of-support
 log density and sample shape

---
 .../parametric/CMultivariateExponential.py          | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..c37e20a 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -23,26 +23,23 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, (n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From 271a9e754018cbac2f2c765723b7f81d6c0ae046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 03/50] fix: BenchDenMaxwell log density is -inf outside of its
 support

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..b07b7c3 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,10 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From 4e67f4398af3df93ee7d71c3a212d7228b60dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 04/50] fix: BenchDenLaplace returns one density per point

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From 7a6e839d3d1579a94609c71719c604fde9fbc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 05/50] fix: CMixtureModel falls back to equal weights and
 leaves the caller's weights alone

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..b6d7667 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -25,6 +25,9 @@ class CMixtureModel(CDistribution):
     def set_weights(self, weights):
         assert len(self.models) == len(weights), "len(models)=%d , len(weights)=%d" % (len(self.models), len(weights))
 
+        # Work on a copy, the weights passed belong to the caller
+        weights = np.array(weights, dtype=np.float64)
+
         # Address NaN or negative
         nan_indices = np.logical_or(np.isnan(weights), weights <= 0)
         if np.any(nan_indices):
@@ -36,8 +39,9 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
-        else:
-            weights = weights / weights.sum()
+            weights = np.ones(len(weights))
+
+        weights = weights / weights.sum()
         self.weights = weights
 
     def log_prob(self, data):
-- 
2.43.0


From 785e20408e4667b1583532e127e88659a46b2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 06/50] fix: CMultivariateUniform.integral is zero on boxes
 that do not meet the support

---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..af91f22 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -65,7 +65,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From 7b3b281e3db2dd9cef2851dd120bf6cd38415865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 07/50] fix: CMultivariateDelta.integral uses the location of
 the distribution

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From 9b99237c4f944bbdafc0966e99bb9c9ba14669b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 08/50] fix: CMultivariateUniform gives its own samples a
 density also on the low bound

---
 .../distributions/parametric/CMultivariateUniform.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index af91f22..cb48437 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -41,7 +41,7 @@ class CMultivariateUniform(CDistribution):
         min_val = self._loc - self._scale
         max_val = self._loc + self._scale
         # Select the inliers if all the coordinates are in range
-        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)
+        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)
         res = np.full(len(samples), self.logprob_val)
         res[np.logical_not(inliers.flatten())] = -np.inf
         return res
@@ -53,7 +53,7 @@ class CMultivariateUniform(CDistribution):
         max_val = self._loc + self._scale
 
         # Select the inliers if all the coordinates are in range
-        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)
+        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)
         res = np.full(len(samples), self.prob_val)
         res[np.logical_not(inliers.flatten())] = 0
         return res
-- 
2.43.0


From 83b5c93803fb5a9cb03a9ce5804d835452b4bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 09/50] fix: CKernelDensity builds its mixture and kernels
 return one density per point

---
 ais_benchmarks/distributions/distributions.py                | 3 ++-
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..5a996ef 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -321,7 +321,8 @@ class CKernel:
         return self(x)
 
     def __call__(self, x):
-        return self.kernel((x - self.loc) * self.bw) * self.bw
+        # One density per point, the dimensions are independent (product kernel)
+        return np.prod(self.kernel((x - self.loc) * self.bw) * self.bw, axis=-1)
 
     @staticmethod
     def kernel_normal(u):
diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..fdded9c 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights, "dims": self.dims,
+                                    "support": self.support_vals})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
-- 
2.43.0


From 93835082742dd75da75fe94145b33bbf41f87399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 10/50] fix: DM-AIS and LAIS work with a single sample per
 iteration

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From c1e6acba763305cbe0f925ab2b74c61dba269abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 11/50] fix: DM-AIS resampling does not fail when all the new
 samples have zero weight

---
 ais_benchmarks/sampling_methods/dm_ais.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 68cbdb3..8d6bf05 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -46,7 +46,11 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
 
     def resample(self, samples, weights):
         # Normalize weights
-        norm_weights = weights / weights.sum()
+        if weights.sum() > 0:
+            norm_weights = weights / weights.sum()
+        else:
+            # All the samples missed the target support, there is no information to prefer any of them
+            norm_weights = np.ones(len(weights)) / len(weights)
 
         # Update all N proposals with the DM-PMC update rule
         for prop_d in self.proposals:
-- 
2.43.0


From b66b716d5045102ad0586d267b0329806a6c64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 12/50] fix: CTreePyramidSampling returns the whole sample
 history of every leaf

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..dbb01af 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -696,10 +696,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From 21b15a9ee4f1bbfd84adf3e17e73c90dd642f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 13/50] fix: tree pyramid leaf resampling accounts for the leaf
 size with normal kernels

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index dbb01af..29b98b6 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -508,7 +508,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            # The samples are scaled by the leaf diameter, so is their density
+            proposal_probs = self.T.sampler.prob(re_samples) / (2 * radii.reshape(-1)) ** self.T.ndims
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From ece92b3c894940eb264748446668402c2988de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 14/50] fix: tree pyramid weights stay on the same scale across
 importance_sample calls

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 29b98b6..367059d 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -711,6 +711,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.weights[self.T.leaves_idx])
 
     def _update_model(self):
+        # The cached weights of previous calls are normalized, restore the importance weights of all the leaves
+        for node in self.T.leaves:
+            self.T.weights[node.node_idx] = node.weight
+
         weights = self.T.weights[self.T.leaves_idx]
         centers = self.T.centers[self.T.leaves_idx]
         radii = self.T.radii[self.T.leaves_idx]
-- 
2.43.0


From 17761b347cac008d5ae07bd98c3c0bf08ba34236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 15/50] fix: CTreePyramid.find descends to the leaf that
 contains the value

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 367059d..3296411 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,10 +147,10 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
             prev = self.root
+        if prev is None:
+            return None
 
         if prev.is_leaf():
             return prev
-- 
2.43.0


From cd148d43e5c0034ee3f0b69b86dd4fb1ee8e12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 16/50] fix: tree pyramid mixture sampling does not use the
 removed np.int

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 3296411..038d475 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -392,7 +392,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # that will be expanded. Each node split generates 2^k samples. Therefore to obtain N samples we
             # have to split X nodes. N = X*2^k, X = N / 2^k
             n_samples_to_get = n_samples - self._get_nsamples()
-            nodes_to_expand = np.int(np.ceil(n_samples_to_get / 2 ** self.ndims))
+            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))
 
             # Obtain N samples
             samples = self.sample(nodes_to_expand)
-- 
2.43.0


From 4f7c31c423828bcf4e4ad4efdca70297875da6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 17/50] fix: CTreePyramidSampling accepts ess_target=None as
 documented

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 038d475..f080745 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -688,7 +688,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From f8ea374eeff781034ea1361c59ef902565e2b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 18/50] fix: HiDaisee updates the evidence of every ancestor of
 the sampled leaf

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..82d3bfd 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -203,7 +203,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
 
         for t in range(len(self.samples), n_samples):
             # Initialize traversal path and node to the root. Line 3.
-            P = [0]
+            P = []
             n_id = 0
 
             if self.debug:
@@ -225,6 +225,9 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
                 if self.debug:
                     print(self.__class__.__name__, "== Debug ==> ", "    | Choosen %d" % n_id)
 
+            # The traversal path ends at the selected leaf
+            P.append(n_id)
+
             if self.debug:
                 print(self.__class__.__name__, "== Debug ==> ", "    | Selected %d" % n_id)
 
-- 
2.43.0


From 5fda2351a743388a1be3a8011c4d86c5dbd52415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 19/50] fix: rejection sampling counts the proposals it draws
 and evaluates

---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..e6c58cd 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_pi_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_q_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From bb4ed64c492a65bb91ef75b8371ee75fd0efc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 20/50] fix: tree pyramid counts the evaluation of the root
 sample

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index f080745..be8ef4a 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -444,6 +444,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From bdb9088ca1379e0354ce9f58ee5955011d71747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 21/50] fix: DM-AIS and LAIS count their proposal evaluations

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 1 +
 ais_benchmarks/sampling_methods/layered_ais.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 8d6bf05..dede7c6 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -77,6 +77,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index f1c3a60..fc9f6cc 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -91,6 +91,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
-- 
2.43.0


From 1868674d7b574f795ba6a412ef8b1e30bab26852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 22/50] fix: CMetropolisHastings.sample(n) returns n samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..33345a8 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From 4884381ceb4cfaa1cc181bf35f47fbf4636315d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 23/50] fix: CMetropolisHastings.reset restarts the chain

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 33345a8..0e40b1e 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -76,6 +76,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.current_sample = self.proposal_d.sample()
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From d687d16ea4a9dc7cc1b1e805f438308c1584b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 24/50] fix: nested samplers keep every new live point inside
 the domain

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From c845b01505ec432f0ea2c7ccc56e19b1b1cbe0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 25/50] fix: nested samplers NESS ignores samples without
 weight

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 ++-
 ais_benchmarks/sampling_methods/nested.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..eef38fc 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -99,7 +99,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        w = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(w * np.log(w)))
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..81eb2cb 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -46,7 +46,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return new_sample, new_value
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        w = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(w * np.log(w)))
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
-- 
2.43.0


From 13adca64d7eac1aa55d3566aa8aa14a8f663b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 26/50] fix: autocorrelation NESS centres every dimension on
 its own mean

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..7318bb8 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -45,7 +45,7 @@ class CSamplingMethod(metaclass=ABCMeta):
 
         variogram = lambda t: t_tensor([((x[t:] - x[:(n - t)]) ** 2).sum() / (n - t)])
 
-        mean = x.mean()
+        mean = x.mean(axis=0)
         dist = x - mean
 
         W = (dist ** 2).sum() / (n - 1)
-- 
2.43.0


From 836a6c9ead2753d46903aa5c662a9bd339b8f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 27/50] fix: CMemoryUsage.reset clears the reported value

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 9bffa2653d511ce6f55f2063c3a804ce80e5a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 28/50] fix: evaluate_method accounts for the sampling time so
 that the time limit applies

---
 ais_benchmarks/benchmark/CBenchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 7595023..8d39206 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -480,11 +480,13 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
+                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
+                sampling_time += time.time() - t_sampling
 
                 # Sampling methods generate a desired number of samples and maintain the state. Therefore it is not
                 # possible to ask the sampling algos for batch_size samples every time, thus in order to have partial
-- 
2.43.0


From 856de5918d2818f7e086df7f05902c144e3a7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 29/50] fix: divergences of distributions without overlap are
 maximal instead of zero

---
 ais_benchmarks/metrics/divergences.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 0b85148..c7a9a85 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -143,6 +143,10 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. KLDD compute. Less than 10% inliers")
 
+        # The divergence of distributions that do not overlap is infinite
+        if num_inliers == 0:
+            return np.inf
+
         # Normalize sample probabilities in log space
         p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
         q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])
@@ -176,6 +180,11 @@ class CJSDivergence(CDivergence):
         if inlier_ratio < .1:
             print("WARNING. JSD compute. Only %6.3f%% inliers" % (inlier_ratio*100))
 
+        # The divergence of distributions that do not overlap is maximal
+        if num_inliers == 0:
+            self.value = 1.0
+            return self.value
+
         # Normalize sample probabilities
         p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
         q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
-- 
2.43.0


From c5130baf0ee6279d3d5a9c9113e14a7eb24f0320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 30/50] fix: results rows match the columns of the header

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 8d39206..4a159de 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
-- 
2.43.0


From dd2ea80483e3b5170081391aebbb34f81162b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 31/50] fix: load_methods passes the domain limits with full
 precision

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 4a159de..04f74a6 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
-                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
+            params = ['"space_min":np.array(%s)' % np.asarray(space_min).tolist(), ",",
+                      '"space_max":np.array(%s)' % np.asarray(space_max).tolist(), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From 4524b3fdcf349c083f908f9c9d7ace57c6090496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 32/50] fix: to_dict describes the type under the name
 load_benchmark resolves

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 5a996ef..93df43e 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -296,7 +296,7 @@ class CDistribution(metaclass=ABCMeta):
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         dist_yaml = dict()
         dist_yaml["name"] = name if name is not None else self.type
-        dist_yaml["type"] = "distributions." + self.__class__.__name__
+        dist_yaml["type"] = self.__class__.__name__
         dist_yaml["batch_size"] = batch_size
         dist_yaml["nsamples"] = nsamples
         dist_yaml["nsamples_eval"] = nsamples_eval
-- 
2.43.0


From 60382b24b3a236f18b45152ca74fd438e93ae711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 33/50] fix: nested samplers do not overwrite their first
 sample through a view

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index eef38fc..cc574aa 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -209,7 +209,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 81eb2cb..8ed62e7 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -58,7 +58,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From a141a00d78958b47bffc502130529ee79d22734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 34/50] fix: tree pyramid get_stats reports the NESS of the
 samples in the tree

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index be8ef4a..a5962bc 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -686,6 +686,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         # ESS = 1 / np.sum(weights*weights)
         return ESS / len(samples)
 
+    def get_approx_NESS(self):
+        # The samples and weights are kept in the tree, not in the members used by the base class
+        return self.get_NESS()
+
     def _get_nsamples(self):
         return len(self._get_samples()[1])
 
-- 
2.43.0


From 04a85bf30651b560956a7855024b60e64d382359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 35/50] fix: rejection sampling reports the density of its
 model in prob as in log_prob

---
 ais_benchmarks/sampling_methods/rejection.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index e6c58cd..f9267d2 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -58,20 +58,18 @@ class CRejectionSampling(CMixtureSamplingMethod):
             return self.draw2d(ax)
         return []
 
-    def prob(self, s):
-        return self.proposal_dist.prob(s) * self.scaling
-
     def draw1d(self, ax):
         res = []
-        res.extend(plot_pdf(ax, self, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
-                            resolution=0.01, label="$q(x)$ * scale"))
+        res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
+                            resolution=0.01, scale=self.scaling, label="$q(x)$ * scale"))
         # res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="-", color="r",
         #                     resolution=0.01, label="$q(x)$"))
-        res.extend(plot_pdf(ax, super(CRejectionSampling, self), self.space_min, self.space_max, alpha=1.0, options="-", color="g",
+        res.extend(plot_pdf(ax, self, self.space_min, self.space_max, alpha=1.0, options="-", color="g",
                             resolution=0.01, label="$KDE$"))
         return res
 
     def draw2d(self, ax):
         res = []
-        res.extend(plot_pdf2d(ax, self, self.space_min, self.space_max, alpha=0.5, resolution=0.02, label="$q(x)$"))
+        res.extend(plot_pdf2d(ax, self.proposal_dist, self.space_min, self.space_max, alpha=0.5, resolution=0.02,
+                              scale=self.scaling, label="$q(x)$"))
         return res
\ No newline at end of file
-- 
2.43.0


From 800afc306865652daecf0fc53831b58650e29093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 36/50] fix: benchden benchmark names its distributions by the
 types load_benchmark resolves

---
 .../benchmark/benchden/def_benchmark_benchden.yaml        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index 16143d2..d60be08 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: distributions.benchden.BenchDenUniform
+      type: BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: distributions.benchden.BenchDenExponential
+      type: BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: distributions.benchden.BenchDenMaxwell
+      type: BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: distributions.benchden.BenchDenLaplace
+      type: BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0


From c618b5ca116d855f7abc0591239168af7097bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 37/50] restore ais_benchmarks/benchmark: the defects there are
 recorded as known findings instead

---
 ais_benchmarks/benchmark/CBenchmark.py                 | 10 ++++------
 .../benchmark/benchden/def_benchmark_benchden.yaml     |  8 ++++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 04f74a6..7595023 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.asarray(space_min).tolist(), ",",
-                      '"space_max":np.array(%s)' % np.asarray(space_max).tolist(), ",",
+            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
+                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
@@ -480,13 +480,11 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
-                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
-                sampling_time += time.time() - t_sampling
 
                 # Sampling methods generate a desired number of samples and maintain the state. Therefore it is not
                 # possible to ask the sampling algos for batch_size samples every time, thus in order to have partial
diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index d60be08..16143d2 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: BenchDenUniform
+      type: distributions.benchden.BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: BenchDenExponential
+      type: distributions.benchden.BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: BenchDenMaxwell
+      type: distributions.benchden.BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: BenchDenLaplace
+      type: distributions.benchden.BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0


From 63f71f71d06743b98c66de4da03553ce1735a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 38/50] fix: tree pyramid leaf resampling keeps comparable
 importance weights in the history

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index a5962bc..da64a2d 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -523,6 +523,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         self._num_q_evals += len(samples)
         self._num_q_samples += len(samples)
 
+        # The weight history keeps the importance weights, which are comparable with those of previous samples
+        for node in self.T.leaves:
+            node.weight_hist[-1] = self.T.weights[node.node_idx]
+
         # Self-normalization of importance weights.
         self._self_normalize()
 
@@ -530,7 +534,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         for node in self.T.leaves:
             node.weight = self.T.weights[node.node_idx]
             # Replace last node sample with the resampled one
-            node.weight_hist[-1] = self.T.weights[node.node_idx]
             node.coords_hist[-1] = self.T.samples[node.node_idx]
             # TODO: Node value can be updated with all the samples in the subspace instead
             node.value = node.weight * ((2 * node.radius) ** len(node.center))
-- 
2.43.0


From a5df2296c2a6757b15c47b4f771e3705f0341674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 39/50] fix: CNonBlockingStreamReader thread stops at the end
 of the stream

---
 ais_benchmarks/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index f38ba12..7f7218f 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -16,6 +16,8 @@ class CNonBlockingStreamReader:
                 l = s.readline()
                 if l:
                     q.put(l)
+                elif l is not None:
+                    break  # End of the stream
 
         self._t = Thread(target=_addqueue, args=(self._s, self._q))
         self._t.daemon = True
-- 
2.43.0


From 7e8fd14494a7cb18723761902d9c7c47a4c41fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 40/50] fix: CNonBlockingStreamReader keeps the last line in
 front of the lines that arrive meanwhile

---
 ais_benchmarks/utils/misc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index 7f7218f..6b415a4 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -24,12 +24,12 @@ class CNonBlockingStreamReader:
         self._t.start()
 
     def read_last_and_clear(self, keep_last=True):
-        val = None
-        while not self._q.empty():
-            val = self._q.get()
-
-        if val is not None and keep_last:
-            self._q.put(val)
+        # Hold the queue lock, otherwise a line that arrives meanwhile would be placed before the line kept
+        with self._q.mutex:
+            val = self._q.queue[-1] if self._q.queue else None
+            self._q.queue.clear()
+            if val is not None and keep_last:
+                self._q.queue.append(val)
         return val
 
     def read(self):
-- 
2.43.0


From fad05f82f644bc3dde3e040564efdcd9eae894ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 41/50] fix: 2D density plots work with matplotlib versions
 without ContourSet.collections

---
 ais_benchmarks/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 2f1e6ff..0581e66 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -56,7 +56,8 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
     CS = ax.contour(dims[0], dims[1], prob_p_margin, cmap=cmap, levels=levels, linestyles=linestyles, alpha=alpha)
-    return CS.collections if len(CS.collections) else []
+    # Since matplotlib 3.8 the contour set is itself the artist, ContourSet.collections is gone in 3.10
+    return list(CS.collections) if hasattr(CS, "collections") else [CS]
 
 
 def plot_pdf2d(ax, pdf, space_min, space_max, resolution=0.1, alpha=0.2, scale=1.0, label=None, colormap=plt.cm.cool, linestyles='solid'):
-- 
2.43.0


From ea2c6b647a8f6f80bd3e672fb059c52e549c2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 42/50] fix: draw2d of the mixture samplers reads the location
 of the proposals

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 7318bb8..8140b0d 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -208,9 +208,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
-- 
2.43.0


From 92e308f2d92a94afd74ad3ff8dd0d914d45a08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 43/50] fix: tree pyramid and grid areas are drawn with scalar
 rectangle corners

---
 ais_benchmarks/utils/plot_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 0581e66..3cbeef8 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -84,14 +84,14 @@ def plot_ellipsoids1D(axis, ellipsoids, points):
 def plot_tpyramid_area(axis, T, scale=1, label=None):
     rects = []
     for i, n in enumerate(T.leaves):
-        x = n.center - n.radius
+        x = (n.center - n.radius).item()
 
         # heightw = n.weight * scale
 
         # area
         height = n.weight * n.sampler.prob(n.center) * scale
         color = cm.cool(height).flatten()
-        rect = patches.Rectangle([x, 0], n.radius*2, height.flatten(), linewidth=1, linestyle="--", alpha=0.4, color=color)
+        rect = patches.Rectangle([x, 0], n.radius.item() * 2, height.item(), linewidth=1, linestyle="--", alpha=0.4, color=color)
         rects.append(axis.add_patch(rect))
 
         # weights
@@ -105,10 +105,10 @@ def plot_tpyramid_area(axis, T, scale=1, label=None):
 def plot_tpyramid_weights(axis, T, scale=1, label=None):
     rects = []
     for i, n in enumerate(T.leaves):
-        x = n.center - n.radius
+        x = (n.center - n.radius).item()
         # height = n.weight * n.sampler.prob(n.center) * scale
         height = n.weight * scale
-        rect = patches.Rectangle([x,0], n.radius*2, height.flatten(), linewidth=0, linestyle="--", alpha=0.4, color="r")
+        rect = patches.Rectangle([x, 0], n.radius.item() * 2, height.item(), linewidth=0, linestyle="--", alpha=0.4, color="r")
         rects.append(axis.add_patch(rect))
     rect.set_label(label)
     return rects
@@ -125,7 +125,7 @@ def plot_tpyramid_volume(axis, T):
 
 def plot_grid_area(axis, samples, values, resolution):
     for s,v in zip(samples, values):
-        x = s - resolution/2
+        x = np.asarray(s).item() - resolution/2
         rect = patches.Rectangle([x,0], resolution, v/resolution, linewidth=0, linestyle="--", alpha=0.4, label="subvidided leaves")
         axis.add_patch(rect)
 
-- 
2.43.0


From d62d4983b29d31f9299e73fc70ea6cda7560c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 44/50] fix: rect_prism passes two dimensional z coordinates

---
 ais_benchmarks/utils/plot_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 3cbeef8..e49e73b 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -142,10 +142,12 @@ def plot_grid_volume(axis, samples, values, resolution):
 # Draw rectangular prism. Obtained from: https://codereview.stackexchange.com/questions/155585/plotting-a-rectangular-prism
 def rect_prism(ax, x_range, y_range, z_range):
     xx, yy = np.meshgrid(x_range, y_range)
-    ax.plot_wireframe(xx, yy, z_range[0], color="r")
-    ax.plot_surface(xx, yy, z_range[0], color="r", alpha=0.2)
-    ax.plot_wireframe(xx, yy, z_range[1], color="r")
-    ax.plot_surface(xx, yy, z_range[1], color="r", alpha=0.2)
+    # The surfaces require two dimensional z coordinates
+    z_bottom, z_top = [np.full(xx.shape, z, dtype=float) for z in z_range]
+    ax.plot_wireframe(xx, yy, z_bottom, color="r")
+    ax.plot_surface(xx, yy, z_bottom, color="r", alpha=0.2)
+    ax.plot_wireframe(xx, yy, z_top, color="r")
+    ax.plot_surface(xx, yy, z_top, color="r", alpha=0.2)
 
 
     yy, zz = np.meshgrid(y_range, z_range)
-- 
2.43.0


From 4996014b62644685efd8b90addeb5bbf719de30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 45/50] fix: draw_sequence can replace points that are already
 drawn

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 2fc630c..10c95fc 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -4,7 +4,7 @@ import numpy as np
 
 
 def draw_point(item, ax):
-    return ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)
+    return [ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)]
 
 
 def draw_func(item, ax):
-- 
2.43.0


From 14727ed15fa501dbf94de61fb959025f48376daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 46/50] fix: plot_tpyramid_volume draws scalar heights

---
 ais_benchmarks/utils/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index e49e73b..180c6c2 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -119,7 +119,7 @@ def plot_tpyramid_volume(axis, T):
         min_coord = n.center - n.radius
         max_coord = n.center + n.radius
         z0 = 0
-        height = n.weight * n.sampler.prob(n.center)
+        height = np.asarray(n.weight * n.sampler.prob(n.center)).item()
         rect_prism(axis, [min_coord[0],max_coord[0]], [min_coord[1],max_coord[1]], [z0,height])
 
 
-- 
2.43.0


From 70079fe94c64cbdeaad0a05e5ae02e2eacfb6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 47/50] fix: all ticks of an axis belong to its elements

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 10c95fc..6b7d244 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -33,6 +33,7 @@ def draw_axis(item, ax):
         # Draw a small line perpendicular to the axis with size t_size
         l = mlines.Line2D([ini[0], end[0]], [ini[1], end[1]], color=item.outline_color)
         ax.add_line(l)
+        elems.append(l)
 
         # Display label
         # Find the direction that puts the labels outwards
@@ -44,8 +45,6 @@ def draw_axis(item, ax):
         txt = plt.text(text_pos[0], text_pos[1], t_lbl, horizontalalignment="center", verticalalignment="center", color=item.outline_color)
         elems.append(txt)
 
-    elems.append(l)
-
     return elems
 
 
-- 
2.43.0


From 91713af17ebb351eb49ac8ed3e17363fd5ab1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 48/50] fix: ellipsoids of the multi-nested sampler took the
 standard deviation for the covariance in one dimension and the determinant
 for the volume

---
 ais_benchmarks/sampling_methods/multi_nested.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index cc574aa..3f08bc4 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -32,7 +32,8 @@ class CEllipsoid:
         d = len(loc)
         sphere_vol = 2/d * (np.pi ** (d/2) / gamma(d/2))
 
-        self.volume = sphere_vol * np.linalg.det(scale)
+        # The scale is a covariance matrix, the volume grows with the product of its semi-axes
+        self.volume = sphere_vol * np.sqrt(np.linalg.det(scale))
 
     def __repr__(self):
         return "loc: " + str(self.loc) + "n_points:" + str(np.count_nonzero(self.indices)) + "vol: %f" % self.volume
@@ -53,9 +54,9 @@ class CEllipsoid:
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
         else:
-            scale = np.std(points)
+            scale = np.var(points)
             if scale <= 0:
-                print("Ellipsoid fit failed. Negative or zero STD. Using 1.", file=sys.stderr)
+                print("Ellipsoid fit failed. Negative or zero variance. Using 1.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
 
-- 
2.43.0


From 6c9bfd9854a2d3599043954a80318cef95b37b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 49/50] fix: ABCDistribution.sample asked the conditioned
 models for a number of samples, which GenericNoisyFunction does not take

---
 ais_benchmarks/distributions/derived/CABCDistribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index e8d9301..926aa1c 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -108,11 +108,12 @@ class ABCDistribution(CDistribution):
     def sample(self, nsamples=1):
         z = self.prior_d.sample(nsamples)
 
+        # Conditioned models generate one value for each row they are conditioned on
         self.gen_d.condition(z)
-        x = self.gen_d.sample(nsamples)
+        x = self.gen_d.sample()
 
         self.sensor_d.condition(x)
-        o_hat = self.sensor_d.sample(nsamples)
+        o_hat = self.sensor_d.sample()
 
         return o_hat
 
-- 
2.43.0


From 1c64f22ff0778380fde262e0ab119204be102c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 50/50] fix: ABCDistribution.draw set the parameters of the
 generative model instead of conditioning it, and mixed up its samples

---
 .../distributions/derived/CABCDistribution.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index 926aa1c..3a61885 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -119,24 +119,20 @@ class ABCDistribution(CDistribution):
 
     def draw(self, ax, n_points=100, label=None, color=None):
         # TODO: Check dimensions and make plot for 2d as well
-        z = np.linspace(self.support()[0], self.support()[1], n_points)
+        z = np.linspace(self.support()[0], self.support()[1], n_points).reshape(n_points, 1)
         # z = self.prior_d.sample(n_points).flatten()
-        self.gen_d.set_params(z)
+        self.gen_d.condition(z)
 
         # For each point in the latent space model, we need to sample the posterior
-        xs = self.gen_d.sample()
-        self.sensor_d.condition(xs)
-        o_hats = self.sensor_d.sample()
-        for _ in range(n_points-1):
-            x = self.gen_d.sample()
-            xs = np.vstack((xs, x))
-            self.sensor_d.condition(x)
-            o_hat = self.sensor_d.sample()
-            o_hats = np.vstack((o_hats, o_hat))
+        o_hats = []
+        for _ in range(n_points):
+            self.sensor_d.condition(self.gen_d.sample())
+            o_hats.append(np.array(self.sensor_d.sample()).flatten())
 
+        z = z.flatten()
         means = np.mean(o_hats, axis=0)
         stdevs = np.std(o_hats, axis=0)
-        ax.fill_between(z, means - 3 * stdevs, means + 3 * stdevs, label=label + " $3\sigma$", color=color, alpha=0.5)
+        ax.fill_between(z, means - 3 * stdevs, means + 3 * stdevs, label=None if label is None else label + " $3\sigma$", color=color, alpha=0.5)
         ax.plot(z, means, label=label, c=color)
 
     def marginal(self, dim):
-- 
2.43.0

