From e10f58f11c3a6fd780ed8a9e7185753b067e8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 01/75] fix: renormalize particle weights after clipping
 negative ones

---
 src/qinfer/smc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b907c6..2b9ddc3 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -415,7 +415,11 @@ class SMCUpdater(ParticleDistribution):
         # Check for negative weights before applying the update.
         if not np.all(weights >= 0):
             warnings.warn("Negative weights occured in particle approximation. Smallest weight observed == {}. Clipping weights.".format(np.min(weights)), ApproximationWarning)
-            np.clip(weights, 0, 1, out=weights)
+            np.clip(weights, 0, None, out=weights)
+            # Clipping increases the total weight, so renormalize.
+            clipped_sum = np.sum(weights)
+            if clipped_sum > self._zero_weight_thresh:
+                weights /= clipped_sum
 
         # Next, check if we have caused the weights to go to zero, as can
         # happen if the likelihood is identically zero for all particles,
-- 
2.43.0


From e41016c6a94487a3547c0d008cfed8245707824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 02/75] fix: keep the reset particle cloud under
 zero_weight_policy='reset'

---
 src/qinfer/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 2b9ddc3..784d8cd 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -436,6 +436,9 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'reset':
                 warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
                 self.reset()
+                # The reset particles must not be overwritten by the
+                # zero weights found above.
+                return
             else:
                 raise ValueError("Invalid zero-weight policy {} encountered.".format(self._zero_weight_policy))
 
-- 
2.43.0


From 615df00c7a0ebb138f22d0ab264eb50007a77edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 03/75] fix: canonicalize complete particles when resetting
 only some parameters

---
 src/qinfer/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 784d8cd..2c06b1b 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -317,7 +317,9 @@ class SMCUpdater(ParticleDistribution):
 
         # Since this changes particle positions, we must recanonicalize.
         if self._canonicalize:
-            self.particle_locations[sl] = self.model.canonicalize(self.particle_locations[sl])
+            # Note that canonicalize expects complete rows, even if only some
+            # of the parameters were reset.
+            self.particle_locations = self.model.canonicalize(self.particle_locations)
 
     ## UPDATE METHODS #########################################################
 
-- 
2.43.0


From 39ecb180877539d316880b878d1fee85910d81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 04/75] fix: finite Bayes risk and information gain for
 impossible outcomes and weightless particles

---
 src/qinfer/smc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 2c06b1b..32f662d 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -59,6 +59,7 @@ import numpy as np
 
 from scipy.spatial import ConvexHull, Delaunay
 import scipy.linalg as la
+import scipy.special
 import scipy.stats
 import scipy.interpolate
 from scipy.ndimage.filters import gaussian_filter1d
@@ -596,9 +597,11 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, impossible outcomes keep weights of zero
+        fixed_last_N = np.where(np.abs(N[-1,:]) < np.spacing(1), 1, N[-1,:])
+        w_hyp_last_outcome = w_hyp_last_outcome / fixed_last_N[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
@@ -657,16 +660,19 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, impossible outcomes keep weights of zero
+        fixed_last_N = np.where(np.abs(N[-1,:]) < np.spacing(1), 1, N[-1,:])
+        w_hyp_last_outcome = w_hyp_last_outcome / fixed_last_N[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
 
         # compute the Kullback-Liebler divergence for every experiment and possible outcome
         # KLD.shape == (n_out, n_eps)
-        KLD = np.sum(w_hyp * np.log(w_hyp / self.particle_weights), axis=2)
+        # particles without weight do not contribute (0 log 0 = 0)
+        KLD = np.sum(scipy.special.rel_entr(w_hyp, self.particle_weights), axis=2)
 
         # return the expected KLD (ie expected info gain) for every experiment
         return np.sum(N * KLD, axis=0)
-- 
2.43.0


From f24beff5801c27fada039629584aeb4af5e478ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 05/75] fix: keep each rejected particle's own ancestor in
 Liu-West resampling

---
 src/qinfer/resamplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 80531fd..2265bbe 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -367,9 +367,9 @@ class LiuWestResampler(Resampler):
             ))[0]]
 
             # This may look a little weird, but it should delete the unused
-            # elements of js, so that we don't need to reallocate.
+            # elements of js and mus, so that we don't need to reallocate.
             js = js[np.logical_not(valid_mask)]
-            mus = mus[:idxs_to_resample.size, :]
+            mus = mus[np.logical_not(valid_mask), :]
 
         if idxs_to_resample.size:
             # We failed to force all models to be valid within maxiter attempts.
-- 
2.43.0


From 1064810880958dc4a7f2d11c268b9d1cb8a74f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 06/75] fix: credible regions that include every particle

---
 src/qinfer/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index c3b7417..06c8619 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -600,7 +600,8 @@ class ParticleDistribution(Distribution):
         id_cred = cumsum_weights <= level
         # By construction, by adding the next particle to id_cred, it must be
         # true that `cumsum_weights[id_cred] >= level`, as required.
-        id_cred[np.sum(id_cred)] = True
+        # If no proper subset reaches the level, all particles are included.
+        id_cred[:np.sum(id_cred) + 1] = True
 
         # We now return a slice onto the particle_locations by first permuting
         # the particles according to the sort order, then by selecting the
-- 
2.43.0


From f74d4e09269a264cb909b642f0a9555d21c59eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 07/75] fix: normalize weights within each cluster when
 estimating cluster moments

---
 src/qinfer/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 06c8619..aa106f7 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -515,9 +515,14 @@ class ParticleDistribution(Distribution):
 
             w = self.particle_weights[cluster_particles]
             l = self.particle_locations[cluster_particles]
+            cluster_weight = sum(w)
+            # The moments are those within the cluster, and so use weights
+            # that are normalized over the cluster.
+            if cluster_weight > 0:
+                w = w / cluster_weight
             yield (
                 cluster_label,
-                sum(w), # The zeroth moment is very useful here!
+                cluster_weight, # The zeroth moment is very useful here!
                 self.particle_mean(w, l),
                 self.particle_covariance_mtx(w, l)
             )
-- 
2.43.0


From 26cd43cc05446f3b2e57c9071df9982683302f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 08/75] fix: mixed approximate updates that send every particle
 to one model

---
 src/qinfer/smc.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 32f662d..5705690 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1013,12 +1013,19 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         locs_good = locs[good_mask, :]
         locs_bad = locs[bad_mask, :]
 
-        assert_thresh=1e-6
-        assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        # Note that either set may be empty.
+        any_good = np.any(good_mask)
+        any_bad = np.any(bad_mask)
+
+        if any_good and any_bad:
+            assert_thresh=1e-6
+            assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
 
         # Now find L for each of the good and bad models.
-        L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-        L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
+        if any_good:
+            L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
+        if any_bad:
+            L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
         L = L.transpose([0, 2, 1])
 
         # update the weights sans normalization
-- 
2.43.0


From 797c886bb372a55a3c53820946c9d0d94d43c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 09/75] fix: pass all SMCUpdater options through SMCUpdaterBCRB
 and copy initial_bim

---
 src/qinfer/smc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 5705690..d83a82c 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1090,10 +1090,7 @@ class SMCUpdaterBCRB(SMCUpdater):
     def __init__(self, *args, **kwargs):
         SMCUpdater.__init__(self, *args, **{
             key: kwargs[key] for key in kwargs
-            if key in [
-                'resampler_a', 'resampler', 'resample_thresh', 'model',
-                'prior', 'n_particles'
-            ]
+            if key not in ['initial_bim', 'adaptive']
         })
 
         if not isinstance(self.model, DifferentiableModel):
@@ -1113,7 +1110,7 @@ class SMCUpdaterBCRB(SMCUpdater):
                 axis=0
             ) / self.n_particles
         else:
-            self._current_bim = kwargs['initial_bim']
+            self._current_bim = np.array(kwargs['initial_bim'], dtype=float)
 
         # Also track the adaptive BIM, if we've been asked to.
         if "adaptive" in kwargs and kwargs["adaptive"]:
-- 
2.43.0


From d206175124fc7cbdf57ea4124cedb2d41c254a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 10/75] fix: Fisher information for models whose number of
 outcomes varies

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e3fe645..93443d8 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -756,7 +756,7 @@ class DifferentiableModel(with_metaclass(abc.ABCMeta, Model)):
                 
                 fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijme",
                     L, scores, scores
-                )
+                )[:, :, :, 0]
             
             return fisher
             
-- 
2.43.0


From ab3d5e11bdc344283592969f940db11fef26a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 11/75] fix: count likelihood calls of UnknownT2Model and
 NoisyCoinModel

---
 src/qinfer/test_models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 5620530..63791c3 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -248,6 +248,10 @@ class UnknownT2Model(FiniteOutcomeModel):
         return np.all(modelparams >= 0, axis=1)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(UnknownT2Model, self).likelihood(outcomes, modelparams, expparams)
+
         w, T2_inv = modelparams.T[:, :, None]
         t = expparams['t']
 
@@ -390,6 +394,10 @@ class NoisyCoinModel(FiniteOutcomeModel):
         return 2
     
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(NoisyCoinModel, self).likelihood(outcomes, modelparams, expparams)
+
         # Unpack alpha and beta.
         a = expparams['alpha']
         b = expparams['beta']
-- 
2.43.0


From b4b11e560a424813518b4e02582d3bd21d1df5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 12/75] fix: likelihood shape of NDieModel for a scalar outcome

---
 src/qinfer/test_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 63791c3..397c685 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -476,5 +476,6 @@ class NDieModel(FiniteOutcomeModel):
         super(NDieModel, self).likelihood(outcomes, modelparams, expparams)
         # Like for CoinModel, the modelparams _are_ the likelihoods;
         # we just need to do some tedious reshaping and tiling.
+        outcomes = np.atleast_1d(outcomes)
         L = np.concatenate([np.array([modelparams[idx][outcomes]]) for idx in range(modelparams.shape[0])])
         return np.tile(L[np.newaxis,...],(expparams.shape[0],1,1)).transpose((2,1,0))
-- 
2.43.0


From b6d9953ee20a13c4e07cdac098bd181b894a77f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 13/75] fix: simulate finite-outcome models whose outcomes are
 not 0..n-1 or vary with the experiment

---
 src/qinfer/abstract_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 93443d8..e70986f 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -640,7 +640,7 @@ class FiniteOutcomeModel(Model):
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
-            outcome_idxs = all_outcomes[np.argmax(cdf > randnum, axis=1)]
+            outcome_idxs = np.argmax(cdf > randnum, axis=1)
             outcomes = all_outcomes[outcome_idxs]
         else:
             # Loop over each experiment, sadly.
@@ -649,7 +649,7 @@ class FiniteOutcomeModel(Model):
             dtype = self.domain(expparams[0, np.newaxis])[0].dtype
             outcomes = np.empty((repeat, modelparams.shape[0], expparams.shape[0]), dtype=dtype)
             for idx_experiment, single_expparams in enumerate(expparams[:, np.newaxis]):
-                all_outcomes = self.domain(single_expparams).values
+                all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
-- 
2.43.0


From 23c93de1071ca49003fc355d840726e323310810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 14/75] fix: infinite recursion in the n_outcomes_cutoff setter

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e70986f..4c1edd9 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -603,7 +603,7 @@ class FiniteOutcomeModel(Model):
 
         :param int value: Cutoff value.
         """
-        self.n_outcomes_cutoff = value
+        self._n_outcomes_cutoff = value
    
     ## ABSTRACT METHODS ##
                 
-- 
2.43.0


From 4260187ce9f4c010a82e9ac8d93e0f057db85cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 15/75] fix: count every simulated repetition in BinomialModel,
 MultinomialModel and GaussianHyperparameterizedModel

---
 src/qinfer/derived_models.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3758726..909d173 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -329,10 +329,9 @@ class BinomialModel(DerivedModel):
         return L
             
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        # FIXME: uncommenting causes a slowdown, but we need to call
-        #        to track sim counts.
-        #super(BinomialModel, self).simulate_experiment(modelparams, expparams)
-        
+        # Call the superclass to track sim counts.
+        super(BinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
+
         # Start by getting the pr(1) for the underlying model.
         pr1 = self.underlying_model.likelihood(
             np.array([1], dtype='uint'),
@@ -483,7 +482,7 @@ class GaussianHyperparameterizedModel(DerivedModel):
         return (underlying_L * conditional_L).sum(axis=0)
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams)
+        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams, repeat)
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
@@ -652,7 +651,7 @@ class MultinomialModel(DerivedModel):
         return L
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(MultinomialModel, self).simulate_experiment(modelparams, expparams)
+        super(MultinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
         
         n_sides = self.n_sides
         n_mps = modelparams.shape[0]
-- 
2.43.0


From 1b38dfadba2d32072f242f057d2711ff4263d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 16/75] fix: draw independent noise for each repetition in
 GaussianHyperparameterizedModel

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 909d173..c745759 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -486,7 +486,7 @@ class GaussianHyperparameterizedModel(DerivedModel):
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
-        zs = np.random.randn(modelparams.shape[0], expparams.shape[0])
+        zs = np.random.randn(repeat, modelparams.shape[0], expparams.shape[0])
 
         # Next, we sample a bunch of underlying outcomes to figure out
         # how to rescale everything.
-- 
2.43.0


From 1f46c1293492092f648c4b254482f73e2e484793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 17/75] fix: initialize the last outcome's probability when
 simulating MultinomialModel

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index c745759..6549c7c 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -664,7 +664,7 @@ class MultinomialModel(DerivedModel):
             modelparams,
             expparams['x'] if self._expparams_scalar else expparams) 
             # shape (sides, n_mps, n_eps)
-
+        prs[-1,...] = 1 - np.sum(prs[:-1,...], axis=0)
 
         os = np.concatenate([
             sample_multinomial(n_meas, prs[:,:,idx_n_meas], size=repeat)[np.newaxis,...]
-- 
2.43.0


From 2fd3d3e658e1caa78af3635248e77d09250dda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 18/75] fix: NameError in MultinomialModel.n_outcomes

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 6549c7c..a7f0954 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -61,6 +61,7 @@ from functools import reduce
 from past.builtins import basestring
 
 import numpy as np
+from scipy import special
 from scipy.stats import binom, multivariate_normal, norm
 from itertools import combinations_with_replacement as tri_comb
 
@@ -597,7 +598,7 @@ class MultinomialModel(DerivedModel):
         # possible tuples whose non-negative integer entries sum to n_meas.
         n = expparams['n_meas']
         k = self.n_sides
-        return scipy.special.binom(n + k - 1, k - 1)
+        return np.round(special.binom(n + k - 1, k - 1)).astype(int)
 
     def domain(self, expparams):
         """
-- 
2.43.0


From eab4427938a81217b6f217e12fb86585fb3b8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 19/75] fix: simulate several binomial experiments on a single
 particle

---
 src/qinfer/derived_models.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index a7f0954..80e29d3 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -343,15 +343,7 @@ class BinomialModel(DerivedModel):
             expparams['n_meas'].astype('int'), # ← Really, NumPy?
             pr1[0, :, :]
         )
-        sample = (
-            (lambda: dist.rvs()[np.newaxis, :, :])
-            if pr1.size != 1 else
-            (lambda: np.array([[[dist.rvs()]]]))
-        )
-        os = np.concatenate([
-            sample()
-            for idx in range(repeat)
-        ], axis=0)
+        os = dist.rvs(size=(repeat, ) + pr1.shape[1:])
         return os[0,0,0] if os.size == 1 else os
         
     def update_timestep(self, modelparams, expparams):
-- 
2.43.0


From 6352deb2b22a657d6d3d9e9a2bd9af4098b337d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 20/75] fix: pass MultinomialModel's scalar experiments on to
 the underlying time step

---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 80e29d3..f800fea 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -669,6 +669,10 @@ class MultinomialModel(DerivedModel):
 
         return os[0,0,0] if os.size == 1 else os
 
+    def update_timestep(self, modelparams, expparams):
+        return self.underlying_model.update_timestep(modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
+        )
 
 class MLEModel(DerivedModel):
     r"""
-- 
2.43.0


From be082141b730a7cc8cecabb2c056fced2059b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 21/75] fix: Fisher information of binomial models with scalar
 experiments

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index f800fea..2593e6f 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -370,7 +370,8 @@ class DifferentiableBinomialModel(BinomialModel, DifferentiableModel):
         # FI provided by the underlying model by the number of measurements
         # that we perform.
         two_outcome_fi = self.underlying_model.fisher_information(
-            modelparams, expparams
+            modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
         )
         return two_outcome_fi * expparams['n_meas']
 
-- 
2.43.0


From f23be11d7438891e3fe8e2adc49f2633632727a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 22/75] fix: reject PoisonedModel options that specify both or
 neither of tol and n_samples

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 2593e6f..134b81f 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -169,7 +169,7 @@ class PoisonedModel(DerivedModel):
     ):
         super(PoisonedModel, self).__init__(underlying_model)
         
-        if tol is None != n_samples is None:
+        if (tol is None) == (n_samples is None):
             raise ValueError(
                 "Exactly one of tol and n_samples must be specified"
             )
-- 
2.43.0


From 677b78464040159f1bff631ba51eb649e13b0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 23/75] fix: do not overwrite the underlying model's likelihood
 array in PoisonedModel

---
 src/qinfer/derived_models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 134b81f..49953f8 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -205,8 +205,7 @@ class PoisonedModel(DerivedModel):
             epsilon *= binom_est_error(p=L, N=self._n_samples, hedge=self._hedge)
         
         # Now we truncate and return.
-        np.clip(L + epsilon, 0, 1, out=L)
-        return L
+        return np.clip(L + epsilon, 0, 1)
         
     def simulate_experiment(self, modelparams, expparams, repeat=1):
         """
-- 
2.43.0


From e1826ce80369b0d77ec5e696911be8bbd4781ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 24/75] fix: count likelihood calls of MLEModel

---
 src/qinfer/derived_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 49953f8..12b2669 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -695,6 +695,9 @@ class MLEModel(DerivedModel):
         return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(MLEModel, self).likelihood(outcomes, modelparams, expparams)
         L = self.underlying_model.likelihood(outcomes, modelparams, expparams)
         return L**self._pow
 
-- 
2.43.0


From 9e3083a8303e7d9f745b4f821204a9e9e4a8b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 25/75] fix: derived models report whether their underlying
 model's outcome number is constant

---
 src/qinfer/derived_models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 12b2669..16a59d9 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -122,7 +122,11 @@ class DerivedModel(Model):
     @property
     def Q(self):
         return self.underlying_model.Q
-    
+
+    @property
+    def is_n_outcomes_constant(self):
+        return self.underlying_model.is_n_outcomes_constant
+
     def clear_cache(self):
         self.underlying_model.clear_cache()
 
@@ -870,10 +874,6 @@ class GaussianRandomWalkModel(DerivedModel):
     def n_modelparams(self):
         return len(self.modelparam_names)
         
-    @property
-    def is_n_outcomes_constant(self):
-        return False
-            
     ## METHODS ##
     
     def are_models_valid(self, modelparams):
-- 
2.43.0


From cc32a0b09b02f17636a55b48a6cbcd89faf4fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 26/75] fix: derived models forward the experiment cost of
 their underlying model

---
 src/qinfer/derived_models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 16a59d9..0ca7b60 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -142,6 +142,9 @@ class DerivedModel(Model):
     def are_expparam_dtypes_consistent(self, expparams):
         return self.underlying_model.are_expparam_dtypes_consistent(expparams)
     
+    def experiment_cost(self, expparams):
+        return self.underlying_model.experiment_cost(expparams)
+
     def update_timestep(self, modelparams, expparams):
         return self.underlying_model.update_timestep(modelparams, expparams)
 
@@ -349,6 +352,11 @@ class BinomialModel(DerivedModel):
         os = dist.rvs(size=(repeat, ) + pr1.shape[1:])
         return os[0,0,0] if os.size == 1 else os
         
+    def experiment_cost(self, expparams):
+        return self.underlying_model.experiment_cost(
+            expparams['x'] if self._expparams_scalar else expparams
+        )
+
     def update_timestep(self, modelparams, expparams):
         return self.underlying_model.update_timestep(modelparams,
             expparams['x'] if self._expparams_scalar else expparams
@@ -673,6 +681,11 @@ class MultinomialModel(DerivedModel):
 
         return os[0,0,0] if os.size == 1 else os
 
+    def experiment_cost(self, expparams):
+        return self.underlying_model.experiment_cost(
+            expparams['x'] if self._expparams_scalar else expparams
+        )
+
     def update_timestep(self, modelparams, expparams):
         return self.underlying_model.update_timestep(modelparams,
             expparams['x'] if self._expparams_scalar else expparams
-- 
2.43.0


From 9423bae5ff4a58764e5a797acd6d91d76549c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 27/75] fix: weighting matrix of models that add parameters to
 their underlying model

---
 src/qinfer/derived_models.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 0ca7b60..a4694f5 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -427,6 +427,14 @@ class GaussianHyperparameterizedModel(DerivedModel):
     def n_modelparams(self):
         return len(self.modelparam_names)
 
+    @property
+    def Q(self):
+        # The additional parameters are weighted as by default.
+        n_orig = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.Q, np.ones((self.n_modelparams - n_orig, ))
+        ])
+
     ## METHODS ##
 
     def domain(self, expparams):
@@ -886,7 +894,15 @@ class GaussianRandomWalkModel(DerivedModel):
     @property 
     def n_modelparams(self):
         return len(self.modelparam_names)
-        
+
+    @property
+    def Q(self):
+        # The additional parameters are weighted as by default.
+        n_orig = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.Q, np.ones((self.n_modelparams - n_orig, ))
+        ])
+
     ## METHODS ##
     
     def are_models_valid(self, modelparams):
-- 
2.43.0


From de2fc23e3101a399890570aac3e64950130d9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 28/75] fix: canonicalize only the underlying parameters of
 models that add parameters

---
 src/qinfer/derived_models.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index a4694f5..3e389c8 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -452,6 +452,14 @@ class GaussianHyperparameterizedModel(DerivedModel):
             np.all(sigma2 > 0, axis=-1)
         ], axis=0)
 
+    def canonicalize(self, modelparams):
+        # Only the underlying model's own parameters have a canonical form.
+        n_orig = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, :n_orig]),
+            modelparams[:, n_orig:]
+        ], axis=1)
+
     def underlying_likelihood(self, binary_outcomes, modelparams, expparams):
         """
         Given outcomes hypothesized for the underlying model, returns the likelihood
@@ -915,6 +923,14 @@ class GaussianRandomWalkModel(DerivedModel):
         else:
             return ud_valid
     
+    def canonicalize(self, modelparams):
+        # Only the underlying model's own parameters have a canonical form.
+        n_orig = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, :n_orig]),
+            modelparams[:, n_orig:]
+        ], axis=1)
+
     def likelihood(self, outcomes, modelparams, expparams):
         super(GaussianRandomWalkModel, self).likelihood(outcomes, modelparams, expparams)
         return self.underlying_model.likelihood(outcomes, modelparams[...,:self.underlying_model.n_modelparams], expparams)
-- 
2.43.0


From 41c7eb258ee6ed77c6d34c0330b279d51660f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 29/75] fix: time step of GaussianHyperparameterizedModel with
 an evolving underlying model

---
 src/qinfer/derived_models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3e389c8..6cbe010 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -460,6 +460,15 @@ class GaussianHyperparameterizedModel(DerivedModel):
             modelparams[:, n_orig:]
         ], axis=1)
 
+    def update_timestep(self, modelparams, expparams):
+        # Only the underlying model's own parameters evolve.
+        n_orig = self.underlying_model.n_modelparams
+        extra_mps = modelparams[:, n_orig:, np.newaxis]
+        return np.concatenate([
+            self.underlying_model.update_timestep(modelparams[:, :n_orig], expparams),
+            np.repeat(extra_mps, expparams.shape[0], axis=2)
+        ], axis=1)
+
     def underlying_likelihood(self, binary_outcomes, modelparams, expparams):
         """
         Given outcomes hypothesized for the underlying model, returns the likelihood
-- 
2.43.0


From e3c01657c2c195e70dbc2b3f0b0b54994397c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 30/75] fix: error message for a fixed covariance of the wrong
 size

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 6cbe010..da083fe 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -870,7 +870,7 @@ class GaussianRandomWalkModel(DerivedModel):
                 if fixed_covariance.ndim != 1:
                     raise ValueError('Diagonal covariance requested, but fixed_covariance has {} dimensions.'.format(fixed_covariance.ndim))
                 if fixed_covariance.size != self._n_rw:
-                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self.n_rw))
+                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self._n_rw))
                 self._fixed_scale = np.sqrt(fixed_covariance)
             else:
                 if fixed_covariance.ndim != 2:
-- 
2.43.0


From 179a950d1f3f76c5f6a0a4b179811d33b7449bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 31/75] fix: normalize the outcome density of
 GaussianHyperparameterizedModel

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index da083fe..611664e 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -497,7 +497,8 @@ class GaussianHyperparameterizedModel(DerivedModel):
         scaled_outcomes = (outcomes[np.newaxis,:,np.newaxis,np.newaxis] - mu) / sigma
 
         # We can then compute the conditional likelihood Pr(z | underlying_outcome, model).
-        conditional_L = norm(0, 1).pdf(scaled_outcomes)
+        # Dividing by sigma makes this a density of the outcome rather than of z.
+        conditional_L = norm(0, 1).pdf(scaled_outcomes) / sigma
 
         # To find the marginalized likeihood, we now need the underlying likelihood
         # Pr(underlying_outcome | model), so that we can sum over the idx_u_o axis.
-- 
2.43.0


From 2c2ee64c25b7b82fc5e6b62780e5a1d8b76d92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 32/75] fix: keep every option when pickling
 DirectViewParallelizedModel

---
 src/qinfer/parallel.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 7989f15..f117de1 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -127,13 +127,9 @@ class DirectViewParallelizedModel(DerivedModel):
     def __getstate__(self):
         # Since instances of this class will be pickled as they are passed to
         # remote engines, we need to be careful not to include _dv
-        return {
-            '_underlying_model': self._underlying_model,
-            '_dv': None,
-            '_call_count': self._call_count,
-            '_sim_count': self._sim_count,
-            '_serial_threshold': self._serial_threshold
-        }
+        state = self.__dict__.copy()
+        state['_dv'] = None
+        return state
     
     ## PROPERTIES ##
 
-- 
2.43.0


From 3ef6250796c42db2add5d7455a82f11d6e4e8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 33/75] fix: serial simulation with a
 DirectViewParallelizedModel that has no view

---
 src/qinfer/parallel.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index f117de1..63f09d2 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -233,6 +233,12 @@ class DirectViewParallelizedModel(DerivedModel):
         # simulation counting there.
         super(DirectViewParallelizedModel, self).simulate_experiment(modelparams, expparams, repeat=repeat)
 
+        # If there's less models than some threshold, just use the serial model.
+        # By default, we'll set that threshold to be the number of engines * 10.
+        n_items = modelparams.shape[0] if split_by_modelparams else expparams.shape[0]
+        if n_items <= self._serial_threshold:
+            return self.underlying_model.simulate_experiment(modelparams, expparams, repeat=repeat)
+
         if self._dv is None:
                 raise RuntimeError(
                     "No direct view provided; this may be because the instance was "
@@ -247,11 +253,6 @@ class DirectViewParallelizedModel(DerivedModel):
             return sm.simulate_experiment(mps, eps, repeat=r)
 
         if split_by_modelparams:
-            # If there's less models than some threshold, just use the serial model.
-            # By default, we'll set that threshold to be the number of engines * 10.
-            if modelparams.shape[0] <= self._serial_threshold:
-                return self.underlying_model.simulate_experiment(modelparams, expparams, repeat=repeat)
-
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             os = self._dv.map_sync(
@@ -265,11 +266,6 @@ class DirectViewParallelizedModel(DerivedModel):
             return np.concatenate(os, axis=0)
 
         else:
-            # If there's less models than some threshold, just use the serial model.
-            # By default, we'll set that threshold to be the number of engines * 10.
-            if expparams.shape[0] <= self._serial_threshold:
-                return self.underlying_model.simulate_experiment(modelparams, expparams, repeat=repeat)
-
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             os = self._dv.map_sync(
-- 
2.43.0


From 3e8398d56a5af18ff2e33d29d20479ddecc509f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 34/75] fix: assemble outcomes simulated in parallel along the
 split axis

---
 src/qinfer/parallel.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 63f09d2..23b0d83 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -252,29 +252,46 @@ class DirectViewParallelizedModel(DerivedModel):
         def serial_simulator(sm, mps, eps, r):
             return sm.simulate_experiment(mps, eps, repeat=r)
 
+        # Do not send empty chunks when there are fewer items than engines.
+        n_chunks = min(self.n_engines, n_items)
+        chunks = np.array_split(
+            modelparams if split_by_modelparams else expparams,
+            n_chunks, axis=0
+        )
+
         if split_by_modelparams:
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                np.array_split(modelparams, self.n_engines, axis=0),
-                [expparams] * self.n_engines,
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                chunks,
+                [expparams] * n_chunks,
+                [repeat] * n_chunks
             )
 
-            return np.concatenate(os, axis=0)
+            # The underlying model returns a scalar for a single outcome.
+            os = np.concatenate([
+                np.reshape(o, (repeat, chunk.shape[0], expparams.shape[0]))
+                for o, chunk in zip(os, chunks)
+            ], axis=1)
 
         else:
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                [modelparams] * self.n_engines,
-                np.array_split(expparams, self.n_engines, axis=0),
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                [modelparams] * n_chunks,
+                chunks,
+                [repeat] * n_chunks
             )
 
-            return np.concatenate(os, axis=1)
+            # The underlying model returns a scalar for a single outcome.
+            os = np.concatenate([
+                np.reshape(o, (repeat, modelparams.shape[0], chunk.shape[0]))
+                for o, chunk in zip(os, chunks)
+            ], axis=2)
+
+        return os[0, 0, 0] if os.size == 1 else os
 
-- 
2.43.0


From 5a505a4f0c301729d2c456d4558158477c057c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 35/75] fix: no empty chunks of models in
 DirectViewParallelizedModel.likelihood

---
 src/qinfer/parallel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 23b0d83..785d763 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -209,12 +209,14 @@ class DirectViewParallelizedModel(DerivedModel):
         # that doesn't use so much memory.
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
+        # Do not send empty chunks when there are fewer models than engines.
+        n_chunks = min(self.n_engines, modelparams.shape[0])
         L = self._dv.map_sync(
             serial_likelihood,
-            np.array_split(modelparams, self.n_engines, axis=0),
-            [self.underlying_model] * self.n_engines,
-            [outcomes] * self.n_engines,
-            [expparams] * self.n_engines
+            np.array_split(modelparams, n_chunks, axis=0),
+            [self.underlying_model] * n_chunks,
+            [outcomes] * n_chunks,
+            [expparams] * n_chunks
         )
 
         return np.concatenate(L, axis=1)
-- 
2.43.0


From 5ed9bb2c3ef3474a59e0a74367c3a0a67095acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 36/75] fix: ProductDomain of a list of domains

---
 src/qinfer/domains.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 6b80c7a..fbac10e 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -176,7 +176,6 @@ class ProductDomain(Domain):
         else:
             self._domains = domains
         
-        self._domains = domains
         self._dtypes = [domain.example_point.dtype for domain in self._domains]
         self._example_point = join_struct_arrays(
             [np.array(domain.example_point) for domain in self._domains]
-- 
2.43.0


From 2dbdd2a795552372189ea191b4ddce9783073d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 37/75] fix: join structured arrays that share field names

---
 src/qinfer/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f767048..946a03c 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -563,7 +563,13 @@ def join_struct_arrays(arrays):
     joint = np.empty(shape + (offsets[-1],), dtype=np.uint8)
     for a, size, offset in zip(arrays, sizes, offsets):
         joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
-    dtype = sum((a.dtype.descr for a in arrays), [])
+    dtype = []
+    for field in sum((a.dtype.descr for a in arrays), []):
+        # Field names must stay unique after joining.
+        name = field[0] if field[0] else 'f{}'.format(len(dtype))
+        while name in [other[0] for other in dtype]:
+            name += '_'
+        dtype.append((name,) + tuple(field[1:]))
     return joint.ravel().view(dtype)
 
 def separate_struct_array(array, dtypes):
-- 
2.43.0


From 71a2244c13ced8a6c48ec16b03eac432efa5f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 38/75] fix: join and separate structured arrays that are not
 contiguous

---
 src/qinfer/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 946a03c..ef0e390 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -562,7 +562,7 @@ def join_struct_arrays(arrays):
     shape = arrays[0].shape
     joint = np.empty(shape + (offsets[-1],), dtype=np.uint8)
     for a, size, offset in zip(arrays, sizes, offsets):
-        joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
+        joint[...,offset:offset+size] = np.ascontiguousarray(a).view(np.uint8).reshape(shape + (size,))
     dtype = []
     for field in sum((a.dtype.descr for a in arrays), []):
         # Field names must stay unique after joining.
@@ -590,6 +590,7 @@ def separate_struct_array(array, dtypes):
         offsets = np.cumsum([dtype_size] * num_fields)
         dtypes = [dtypes] * num_fields
     offsets = np.concatenate([[0], offsets]).astype(int)
+    array = np.ascontiguousarray(array)
     uint_array = array.view(np.uint8).reshape(array.shape + (-1,))
     return [
         uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype)
-- 
2.43.0


From 8507b34371d265303930a97bb44251d56baca41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 39/75] fix: keep the shape of joined and separated structured
 arrays

---
 src/qinfer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index ef0e390..5714227 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -570,7 +570,7 @@ def join_struct_arrays(arrays):
         while name in [other[0] for other in dtype]:
             name += '_'
         dtype.append((name,) + tuple(field[1:]))
-    return joint.ravel().view(dtype)
+    return joint.ravel().view(dtype).reshape(np.atleast_1d(arrays[0]).shape)
 
 def separate_struct_array(array, dtypes):
     """
@@ -593,7 +593,7 @@ def separate_struct_array(array, dtypes):
     array = np.ascontiguousarray(array)
     uint_array = array.view(np.uint8).reshape(array.shape + (-1,))
     return [
-        uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype)
+        uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype).reshape(array.shape)
         for idx, dtype in enumerate(dtypes)
     ]
 
-- 
2.43.0


From 903f578ad5021f34a8d617e66ad9a94f3279d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 40/75] fix: MultinomialDomain conversions for scalar,
 non-contiguous and small-integer arrays

---
 src/qinfer/domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index fbac10e..40a21fe 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -669,7 +669,8 @@ class MultinomialDomain(Domain):
         """
         # this could be a static method, but we choose to be consistent with
         # from_regular_array
-        return A.view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
+        n_elements = A.dtype.itemsize // np.dtype(int).itemsize
+        return np.ascontiguousarray(A).view((int, len(A.dtype.names))).reshape(A.shape + (n_elements,))
 
     def from_regular_array(self, A):
         """
@@ -682,7 +683,8 @@ class MultinomialDomain(Domain):
         :rtype: `np.ndarray`
         """
         dims = A.shape[:-1]
-        return A.reshape((np.prod(dims),-1)).view(dtype=self.dtype).squeeze(-1).reshape(dims)
+        A = np.ascontiguousarray(A.astype(int, casting='same_kind'))
+        return A.reshape((-1, self.n_elements)).view(dtype=self.dtype).reshape(dims)
 
     def in_domain(self, points):
         """
-- 
2.43.0


From 566ba8eb74332704ced507594248dbef309717ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 41/75] fix: tuples of another length are not in a
 MultinomialDomain

---
 src/qinfer/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 40a21fe..4ea4ddc 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -696,6 +696,8 @@ class MultinomialDomain(Domain):
         :rtype: `bool`
         """
         array_view = self.to_regular_array(points)
+        if array_view.shape[-1] != self.n_elements:
+            return False
         non_negative = np.all(np.greater_equal(array_view, 0))
         correct_sum = np.all(np.sum(array_view, axis=-1) == self.n_meas)
         return non_negative and correct_sum
-- 
2.43.0


From 2f6924d9ad5ddf27b7c3ac1f7b5087eb17d8a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 42/75] fix: MultinomialDomain with a single element

---
 src/qinfer/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 4ea4ddc..e6e06cf 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -612,7 +612,7 @@ class MultinomialDomain(Domain):
 
         :type: `np.dtype`
         """
-        return np.dtype([('k', np.int, self.n_elements)])
+        return np.dtype([('k', np.int, (self.n_elements,))])
 
     @property
     def n_members(self):
-- 
2.43.0


From 12a30b1021a45d6ba9858624f485d20161a2395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 43/75] fix: restore the numpy error state when a performance
 trial fails

---
 src/qinfer/perf_testing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 9905c09..89aa5ad 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -108,8 +108,10 @@ def timing():
     >>> print t.delta_t # Should return approximately 1.
     """
     t = Timer()
-    yield t
-    t.stop()
+    try:
+        yield t
+    finally:
+        t.stop()
 
 
 @contextmanager
@@ -124,8 +126,10 @@ def numpy_err_policy(**kwargs):
     """
 
     old_errs = np.seterr(**kwargs)
-    yield
-    np.seterr(**old_errs)
+    try:
+        yield
+    finally:
+        np.seterr(**old_errs)
 
 ## CONSTANTS #################################################################
 
-- 
2.43.0


From 9aa25d1bc0d5d50cbf6358c74779fde60c5fc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 44/75] fix: accept a single true parameter vector in
 performance tests

---
 src/qinfer/perf_testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 89aa5ad..018c309 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -232,6 +232,9 @@ def perf_test(
     if true_mps is None:
         true_mps = true_prior.sample()
 
+    # Models expect an array of model parameter vectors.
+    true_mps = promote_dims_left(true_mps, 2)
+
     if extra_updater_args is None:
         extra_updater_args = {}
 
@@ -256,7 +259,7 @@ def perf_test(
 
         # Update the true model.
         true_mps = true_model.update_timestep(
-            promote_dims_left(true_mps, 2), expparams
+            true_mps, expparams
         )[:, :, 0]
 
         est_mean = updater.est_mean()
-- 
2.43.0


From be1578868586ed6a51d90da54938487cecd370d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 45/75] Revert "fix: likelihood shape of NDieModel for a scalar
 outcome"

This reverts commit b4b11e560a424813518b4e02582d3bd21d1df5fd.
---
 src/qinfer/test_models.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 397c685..63791c3 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -476,6 +476,5 @@ class NDieModel(FiniteOutcomeModel):
         super(NDieModel, self).likelihood(outcomes, modelparams, expparams)
         # Like for CoinModel, the modelparams _are_ the likelihoods;
         # we just need to do some tedious reshaping and tiling.
-        outcomes = np.atleast_1d(outcomes)
         L = np.concatenate([np.array([modelparams[idx][outcomes]]) for idx in range(modelparams.shape[0])])
         return np.tile(L[np.newaxis,...],(expparams.shape[0],1,1)).transpose((2,1,0))
-- 
2.43.0


From f3c68a96623bd1dff5f558dc6b68036c38c74bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 46/75] Revert "fix: count likelihood calls of UnknownT2Model
 and NoisyCoinModel"

This reverts commit ab3d5e11bdc344283592969f940db11fef26a274.
---
 src/qinfer/test_models.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 63791c3..5620530 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -248,10 +248,6 @@ class UnknownT2Model(FiniteOutcomeModel):
         return np.all(modelparams >= 0, axis=1)
 
     def likelihood(self, outcomes, modelparams, expparams):
-        # By calling the superclass implementation, we can consolidate
-        # call counting there.
-        super(UnknownT2Model, self).likelihood(outcomes, modelparams, expparams)
-
         w, T2_inv = modelparams.T[:, :, None]
         t = expparams['t']
 
@@ -394,10 +390,6 @@ class NoisyCoinModel(FiniteOutcomeModel):
         return 2
     
     def likelihood(self, outcomes, modelparams, expparams):
-        # By calling the superclass implementation, we can consolidate
-        # call counting there.
-        super(NoisyCoinModel, self).likelihood(outcomes, modelparams, expparams)
-
         # Unpack alpha and beta.
         a = expparams['alpha']
         b = expparams['beta']
-- 
2.43.0


From f9e55ccf51e0908672f6ee686ce1b003abf0fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 47/75] fix: ExpSparseHeuristic with a time field and no other
 fields

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 7abec76..6c784de 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -135,7 +135,7 @@ class ExpSparseHeuristic(Heuristic):
         self._scale = scale
         self._base = base
         self._t_field = t_field
-        self._other_fields = other_fields
+        self._other_fields = other_fields if other_fields is not None else {}
 
     def __call__(self):
         n_exps = len(self._updater.data_record)
-- 
2.43.0


From c8107411393ec53524d37e90a96d148f703337be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 48/75] fix: design experiments from callable guesses

---
 src/qinfer/expdesign.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6c784de..6ddc0bb 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -309,16 +309,20 @@ class ExperimentDesigner(object):
             raise NotImplementedError("Not yet implemented.")
         elif callable(guess):
             # Generate a new guess by calling the guess function provided.
-            ep = guess(
+            ep = np.copy(guess(
                 idx_exp=len(up.data_record),
                 mean=up.est_mean(),
                 cov=up.est_covariance_mtx()
-            )
+            ))
         else:
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
             ep = np.copy(guess)
         
+        # Remember the initial value of the designed field, since evaluating
+        # the objective function overwrites it.
+        x_guess = np.copy(ep[0][field])
+
         # Define an objective function that wraps a vector of scalars into
         # an appropriate record array.
         if (cost_mult==False):
@@ -354,7 +358,7 @@ class ExperimentDesigner(object):
         if self._opt_algo == OptimizationAlgorithms.NULL:
             # This optimization algorithm does nothing locally, but only
             # exists to leverage the store_guess functionality below.
-            x_opt = guess[0][field]
+            x_opt = x_guess
             
         elif self._opt_algo == OptimizationAlgorithms.CG:
             # Prepare any additional options.
@@ -364,7 +368,7 @@ class ExperimentDesigner(object):
                 
             # Actually call fmin_cg, gathering all outputs we can.
             x_opt, f_opt, func_calls, grad_calls, warnflag = opt.fmin_cg(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
@@ -390,7 +394,7 @@ class ExperimentDesigner(object):
             # anyway.
             try:
                 x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
-                    objective_function, guess[0][field],
+                    objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
                     disp=disp, full_output=True, **opt_options
                 )
@@ -398,7 +402,7 @@ class ExperimentDesigner(object):
                 warnings.warn(
                     "Gradient function too flat for NCG.",
                     RuntimeWarning)
-                x_opt = guess[0][field]
+                x_opt = x_guess
                 f_opt = None
                 
         elif self._opt_algo == OptimizationAlgorithms.NELDER_MEAD:
@@ -409,7 +413,7 @@ class ExperimentDesigner(object):
                 opt_options['maxiter'] = maxiter
                 
             x_opt, f_opt, iters, func_calls, warnflag = opt.fmin(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
-- 
2.43.0


From 17e67e5ee5d787223a04fed8fb3a7bef24107f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 49/75] fix: optimize experiments with fmin_tnc instead of
 always returning the guess

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6ddc0bb..de9efb4 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -393,10 +393,10 @@ class ExperimentDesigner(object):
             # case, since by hypothesis, it's too flat to make much difference
             # anyway.
             try:
-                x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
+                x_opt, func_calls, return_code = opt.fmin_tnc(
                     objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
-                    disp=disp, full_output=True, **opt_options
+                    disp=(5 if disp else 0), **opt_options
                 )
             except TypeError:
                 warnings.warn(
-- 
2.43.0


From 1b390ef1a7cf653cac695088e59e0647df8ac79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 50/75] fix: store the cost of designs whose optimizer does not
 report it

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index de9efb4..c7e179c 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -422,7 +422,7 @@ class ExperimentDesigner(object):
             # Possibly compute the objective function value at the local optimum
             # if we don't already know it.
             if f_opt is None:
-                guess_qual = objective_function(x_opt)
+                f_opt = objective_function(x_opt)
             
             # Compare to the known best cost so far.
             if self.__best_cost is None or (self.__best_cost > f_opt):
-- 
2.43.0


From 834ecf214725d6acd5ef4a5eacc2c711c0fd4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 51/75] fix: keep the best design apart from the arrays handed
 to the caller

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index c7e179c..42a03ee 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -430,9 +430,9 @@ class ExperimentDesigner(object):
                 # so record this guess.
                 ep[field] = x_opt
                 self.__best_cost = f_opt
-                self.__best_ep = ep
+                self.__best_ep = np.copy(ep)
             else:
-                ep = self.__best_ep # Guess is bad, return current best guess
+                ep = np.copy(self.__best_ep) # Guess is bad, return current best guess
         else:
             # We aren't using guess recording, so just pack the local optima
             # into ep for returning.
-- 
2.43.0


From d4dc3e22b8d07de8f6733a44cbfd740ce477a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 52/75] fix: DiscreteUniformDistribution.sample returns n rows
 of n_rvs columns

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index aa106f7..08158da 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1168,7 +1168,7 @@ class DiscreteUniformDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        z = np.random.randint(2**self._num_bits,size=n)
+        z = np.random.randint(2**self._num_bits, size=(n, self.n_rvs))
         return z
 
 class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
-- 
2.43.0


From 341bd94b407ea1cb6f6dba8743c448db6e0e8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 53/75] fix: ConstrainedSumDistribution enforces the total for
 samples of negative sum, too

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 08158da..f9dc359 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1420,4 +1420,4 @@ class ConstrainedSumDistribution(Distribution):
     def sample(self, n=1):
         s = self.underlying_distribution.sample(n)
         totals = np.sum(s, axis=1)[:,np.newaxis]
-        return self.desired_total * np.sign(totals) * s / totals
+        return self.desired_total * s / totals
-- 
2.43.0


From efb9fd861a4fd5051ac300118d65feff61b1c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 54/75] fix: HilbertSchmidtUniform implements the sampling
 interface

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index f9dc359..0c0f517 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1193,7 +1193,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     def n_rvs(self):
         return self.dim**2 - 1
 
-    def sample(self):
+    def _sample(self):
         #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
         g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
         q,r = la.qr(g)
-- 
2.43.0


From 5a9d6c1b512eaad17790e8ca2f3336a4746c92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 55/75] fix: HilbertSchmidtUniform indexes Pauli operators of
 several qubits with integers

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 0c0f517..f11a253 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1222,7 +1222,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         else:
             temp = np.zeros([d**2,d,d],dtype='complex128')
             for idx in range(temp.shape[0]):
-                temp[idx,:] = np.kron(paulis[np.trunc(idx/d)], self.paulis1Q[idx % 4])
+                temp[idx,:] = np.kron(paulis[idx // 4], self.paulis1Q[idx % 4])
             return self.make_Paulis(temp,d*2)
 
 
-- 
2.43.0


From 206c8679ea1268cc396032cf34c0dcff8b9a012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 56/75] fix: MixtureDistribution accepts a class whose
 distributions have no positional arguments

---
 src/qinfer/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index f11a253..9b1ab60 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -185,7 +185,8 @@ class MixtureDistribution(Distribution):
             self._dist = dist
             self._dist_args = dist_args
             self._dist_kw_args = dist_kw_args
-            assert(self._n_dist == self._dist_args.shape[0])
+            if self._dist_args is not None:
+                assert(self._n_dist == self._dist_args.shape[0])
 
             self._example_dist = self._dist(
                 *self._dist_arg(0),
-- 
2.43.0


From 6a70f2e8712e29ad0f23e126c4d496aac3a5a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 57/75] fix: MixtureDistribution.sample returns no rows for n =
 0

---
 src/qinfer/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 9b1ab60..d520843 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -233,6 +233,9 @@ class MixtureDistribution(Distribution):
         return self._n_dist
 
     def sample(self, n=1):
+        if n == 0:
+            return np.empty((0, self.n_rvs))
+
         # how many samples to take from each dist
         ns = np.random.multinomial(n, self._weights)
         idxs = np.arange(self.n_dist)[ns > 0]
-- 
2.43.0


From bff65dcb53996140d95a538ced27cc3b37902a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 58/75] fix: ALEApproximateModel draws min_samp samples before
 its first estimate

---
 src/qinfer/ale.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/ale.py b/src/qinfer/ale.py
index add7171..764ff12 100644
--- a/src/qinfer/ale.py
+++ b/src/qinfer/ale.py
@@ -148,11 +148,12 @@ class ALEApproximateModel(DerivedModel):
         # problem easier. As such, we will rely on the static method 
         # FiniteOutcomeModel.pr0_to_likelihood_array.
         
-        # Start off with min_samp samples.
+        # Start off with min_samp samples, then add samp_step at a time.
         n = np.zeros((modelparams.shape[0], expparams.shape[0]))
         for N in count(start=self._min_samp, step=self._samp_step):
             sim_data = simulator.simulate_experiment(
-                modelparams, expparams, repeat=self._samp_step
+                modelparams, expparams,
+                repeat=self._min_samp if N == self._min_samp else self._samp_step
             )
             n += np.sum(sim_data, axis=0) # Sum over the outcomes axis to find the
                                           # number of 1s.
-- 
2.43.0


From 8f4deb2b9a0e8fecaf87c61832d6780ae65c347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 59/75] fix: simple_est_prec draws its prior between freq_min
 and freq_max

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index cc9ef1c..589e1c8 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -166,7 +166,7 @@ def simple_est_prec(data, freq_min=0.0, freq_max=1.0, n_particles=6000, return_a
         if ``return_all`` is `True`.
     """
     model = BinomialModel(SimplePrecessionModel(freq_min))
-    prior = UniformDistribution([0, freq_max])
+    prior = UniformDistribution([freq_min, freq_max])
 
     data = load_data_or_txt(data, [
         ('counts', 'uint'),
-- 
2.43.0


From bd169fa46a44eef7b91f03594520086d49857650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 60/75] fix: simple estimators read files with a single row

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 589e1c8..530907d 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -112,7 +112,7 @@ def load_data_or_txt(data, dtype):
         return data.to_records(index=False)
 
     elif hasattr(data, 'read') or isinstance(data, str):
-        data = np.loadtxt(data, dtype=dtype, delimiter=',')
+        data = np.loadtxt(data, dtype=dtype, delimiter=',', ndmin=1)
         return data
     else:
         raise TypeError("Expected a filename, an array or a file-like object.")
-- 
2.43.0


From 696ca2e6b934518b3e3d5f247e54378cfd472403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 61/75] fix: truncate states with degenerate eigenvalues along
 orthogonal eigenvectors

---
 src/qinfer/tomography/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index 1bb2033..df0f15d 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -181,7 +181,7 @@ class TomographyModel(FiniteOutcomeModel):
             set to zero.
         """
         arr = np.tensordot(particle, self._basis.data.conj(), 1)
-        w, v = np.linalg.eig(arr)
+        w, v = np.linalg.eigh(arr)
         if np.all(w >= 0):
             return particle
         else:
-- 
2.43.0


From dac8678fef3e2365cd29a6190b91be7c1bb3a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 62/75] fix: construct TensorProductDistribution

---
 src/qinfer/tomography/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 2e2ef00..0e4ddb7 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -153,9 +153,9 @@ class TensorProductDistribution(DensityOperatorDistribution):
     
     def __init__(self, factors):
         super(TensorProductDistribution, self).__init__(
-            basis=tensor_product_basis(
+            basis=tensor_product_basis(*[
                 factor.basis for factor in factors
-            )
+            ])
         )
         self._factors = tuple(factors)
 
-- 
2.43.0


From 26126bc78a710818901d85081ef3c79e2cf73bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 63/75] fix: RandomStabilizerStateHeuristic draws from its
 group of operators

---
 src/qinfer/tomography/expdesign.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 5daac92..9f621a8 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -124,11 +124,9 @@ class RandomStabilizerStateHeuristic(StateTomographyHeuristic):
         self._hw_group = heisenberg_weyl_operators(self._basis.dim)
     
     def _next_measurement(self):
-        return qt.ket2dm(
-            np.random.choice(np.random.choice(
-                self._hw_group
-            ).eigenstates()[1])
-        )
+        op = self._hw_group[np.random.randint(len(self._hw_group))]
+        states = op.eigenstates()[1]
+        return qt.ket2dm(states[np.random.randint(len(states))])
 
 
 class RandomPauliHeuristic(StateTomographyHeuristic):
-- 
2.43.0


From d95ac42cf5396c08748aea39e846d88d469af91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 64/75] fix: state heuristics take their dimension from the
 basis they are given

---
 src/qinfer/tomography/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 9f621a8..a1238a0 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -88,8 +88,8 @@ class StateTomographyHeuristic(Heuristic):
     def __init__(self, updater, basis=None, other_fields=None):     
         self._up = updater
         self._other_fields = {} if other_fields is None else other_fields
-        self._dim = updater.model.base_model.dim
         self._basis = updater.model.base_model.basis if basis is None else basis
+        self._dim = self._basis.dim
         
     def __call__(self):
         expparams = np.zeros((1,), dtype=self._up.model.expparams_dtype)
-- 
2.43.0


From d8b904591ac52a0ca5740ed621bc0aba3c76c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 65/75] fix: multinomial_pdf never rounds the last probability
 below zero

---
 src/qinfer/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 5714227..790054c 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -147,7 +147,8 @@ def multinomial_pdf(n,p):
     if p.shape[0] == n.shape[0] - 1:
         ep = np.empty(n.shape)
         ep[:p.shape[0],...] = p
-        ep[-1,...] = 1-np.sum(p,axis=0)
+        # Rounding must not leave a negative probability here.
+        ep[-1,...] = np.maximum(1-np.sum(p,axis=0), 0)
     else:
         ep = p
     log_p_sum = np.sum(nlogp(n, ep), axis=0)
-- 
2.43.0


From 06c710e173fd194e8b37f50fda0263ebeadee7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 66/75] fix: sample_multinomial accepts tuples as sizes

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 790054c..610c8d4 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -193,7 +193,7 @@ def sample_multinomial(N, p, size=None):
     samples = samples.reshape(np.concatenate([s, p.shape]))
     # should have shape (p.shape, size)
     samples = samples.transpose(np.concatenate(
-        [np.arange(s.ndim, p.ndim+s.ndim), np.arange(s.ndim)]
+        [np.arange(s.size, p.ndim+s.size), np.arange(s.size)]
     ))
 
     if size is None:
-- 
2.43.0


From c30033907d6c327b30a1612ace42f798fdc4dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 67/75] fix: posterior_mesh assigns each density to its own
 point of the mesh

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index d83a82c..f278139 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -834,7 +834,7 @@ class SMCUpdater(ParticleDistribution):
             np.linspace(np.min(locs[:, 0]), np.max(locs[:, 0]), res1),
             np.linspace(np.min(locs[:, 1]), np.max(locs[:, 1]), res2)
         )
-        plot_locs = np.array([p1s, p2s]).T.reshape((np.prod(p1s.shape), 2))
+        plot_locs = np.stack([p1s.ravel(), p2s.ravel()], axis=-1)
 
         pr = np.sum( # <- sum over the particles in the SMC approximation.
             np.prod( # <- product over model parameters to get a multinormal
-- 
2.43.0


From e13ff7030c025930119bfa85c2f6996b467a7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 68/75] fix: cluster covariances of distributions over a single
 parameter

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index d520843..2a994e3 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -539,8 +539,8 @@ class ParticleDistribution(Distribution):
             dtype=[
                 ('label', 'int'),
                 ('weight', 'float64'),
-                ('mean', '{}float64'.format(self.n_rvs)),
-                ('cov', '{0},{0}float64'.format(self.n_rvs)),
+                ('mean', 'float64', (self.n_rvs,)),
+                ('cov', 'float64', (self.n_rvs, self.n_rvs)),
             ])
 
         ws = cluster_moments['weight'][:, np.newaxis, np.newaxis]
-- 
2.43.0


From 266d36727b9ab7944f8e8450f1d8301799ba2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 69/75] fix: weighted clustering uses the weighted distances
 between particles

---
 src/qinfer/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index f8ac009..72c63a3 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -106,8 +106,9 @@ def particle_clusters(
 
     # Calculate and possibly reweight the metric.
     if weighted:
-        M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
-        M = metrics.weighted_pairwise_distances(M, particle_weights, w_pow=w_pow)
+        M = metrics.weighted_pairwise_distances(
+            particle_locations, particle_weights, metric=metric, w_pow=w_pow
+        )
 
         # Create and run a SciKit-Learn DBSCAN clusterer.
         clusterer = sklearn.cluster.DBSCAN(
-- 
2.43.0


From a291e07d6221e0fda3b03d5db03f2fcc36160e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 70/75] fix: unweighted clustering does not need weights

---
 src/qinfer/clustering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index 72c63a3..3bab0c2 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -100,10 +100,6 @@ def particle_clusters(
     if weighted == True and particle_weights is None:
         raise ValueError("Weights must be specified for weighted clustering.")
 
-    # Allocate new arrays to hold the weights and locations.
-    new_weights = np.empty(particle_weights.shape)
-    new_locs    = np.empty(particle_locations.shape)
-
     # Calculate and possibly reweight the metric.
     if weighted:
         M = metrics.weighted_pairwise_distances(
@@ -134,7 +130,7 @@ def particle_clusters(
     # If more than 10% of the particles were labeled as NOISE,
     # warn.
     n_noise = np.sum(cluster_labels == -1)
-    if n_noise / particle_weights.shape[0] >= 0.1:
+    if n_noise / particle_locations.shape[0] >= 0.1:
         warnings.warn("More than 10% of the particles were classified as NOISE. Consider increasing the neighborhood size ``eps``.", ResamplerWarning)
 
     # Print debugging info.
-- 
2.43.0


From 5fc9b56a6be6558f6899ef7dba69e82dbfe522ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 71/75] fix: particles of zero weight do not contribute to KL
 divergences

---
 src/qinfer/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 2a994e3..a597514 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -476,11 +476,14 @@ class ParticleDistribution(Distribution):
         if kernel is None:
             kernel = st.norm(loc=0, scale=1).pdf
 
-        dist = rescaled_distance_mtx(self, other_locs) / delta
+        # Particles of zero weight do not contribute, even if the smoothed
+        # density of ``other`` vanishes there.
+        nz = self.particle_weights > 0
+        dist = rescaled_distance_mtx(self, other_locs)[nz, :] / delta
         K = kernel(dist)
 
         return -self.est_entropy() - (1 / delta) * np.sum(
-            self.particle_weights *
+            self.particle_weights[nz] *
             np.log(
                 np.sum(
                     other_weights * K,
-- 
2.43.0


From cc0b0a8a3d5e201ace86c458a3a610a5680c9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 72/75] fix: format_uncertainty shows the leading digit of
 uncertainties below one

---
 src/qinfer/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 610c8d4..8ad2027 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -421,9 +421,9 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
         return "{0:f}".format(value)
     else:
         # Return a string of the form "0.00 \pm 0.01".
-        mag_unc = int(np.log10(np.abs(uncertianty)))
+        mag_unc = int(np.floor(np.log10(np.abs(uncertianty))))
         # Zero should be printed as a single digit; that is, as wide as str "1".
-        mag_val = int(np.log10(np.abs(value))) if value != 0 else 0
+        mag_val = int(np.floor(np.log10(np.abs(value)))) if value != 0 else 0
         n_digits = max(mag_val - mag_unc, 0)
 
 
@@ -439,7 +439,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
                 mag_unc
            )
         if abs(mag_val) <= scinotn_break:
-            return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=n_digits).format(value, uncertianty)
+            return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=max(-mag_unc, 0)).format(value, uncertianty)
         else:
             scale = 10**mag_val
             return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
-- 
2.43.0


From 739adbf2000b7fb9fbcb750ffe9793b352dfadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 73/75] fix: format_uncertainty puts braces around exponents

---
 src/qinfer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 8ad2027..347558a 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -431,7 +431,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
             # We're formatting something close to zero, so recale uncertianty
             # accordingly.
             scale = 10**mag_unc
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
@@ -442,7 +442,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
             return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=max(-mag_unc, 0)).format(value, uncertianty)
         else:
             scale = 10**mag_val
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
-- 
2.43.0


From 30759720f0d94600a6f82559088fba106eb47597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 74/75] fix: region_est_ellipsoid returns the covariance matrix
 of the ellipsoid, as documented

---
 src/qinfer/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index a597514..58d7c49 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -675,8 +675,10 @@ class ParticleDistribution(Distribution):
         """
         _, vertices = self.region_est_hull(level=level, modelparam_slice=modelparam_slice)
 
-        A, centroid = u.mvee(vertices, tol)
-        return A, centroid
+        # u.mvee gives the matrix of the quadratic form, which is the inverse
+        # of the covariance matrix of the ellipsoid.
+        precision, centroid = u.mvee(vertices, tol)
+        return la.inv(precision), centroid
 
     def in_credible_region(self, points, level=0.95, modelparam_slice=None, method='hpd-hull', tol=0.0001):
         """
@@ -743,7 +745,7 @@ class ParticleDistribution(Distribution):
         elif method == 'hpd-mvee':
             tol = 0.0001 if tol is None else tol
             A, c = self.region_est_ellipsoid(level=level, tol=tol, modelparam_slice=modelparam_slice)
-            results = u.in_ellipsoid(points, np.linalg.inv(A), c)
+            results = u.in_ellipsoid(points, A, c)
 
         elif method == 'hpd-hull':
             # it would be more natural to call region_est_hull,
-- 
2.43.0


From b94b2c15649796a7ae4097d28faf7471701dcd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 75/75] fix: HilbertSchmidtUniform draws from the
 Hilbert-Schmidt measure, not the Bures measure

---
 src/qinfer/distributions.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 58d7c49..3a946c8 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1203,20 +1203,10 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         return self.dim**2 - 1
 
     def _sample(self):
-        #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
-        g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
-        q,r = la.qr(g)
-        d = np.diag(r)
-
-        ph = d/np.abs(d)
-        ph = np.diag(ph)
-
-        U = np.dot(q,ph)
-
         #Generate random matrix
         z = np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim)
 
-        rho = np.dot(np.dot(np.identity(self.dim)+U,np.dot(z,z.conj().transpose())),np.identity(self.dim)+U.conj().transpose())
+        rho = np.dot(z,z.conj().transpose())
         rho = rho/np.trace(rho)
 
         x = np.zeros([self.n_rvs])
-- 
2.43.0

