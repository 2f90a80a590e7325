From 34eb1b4b5074bf91ce1c826ecf8efd0cd6fe8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 01/71] fix: zero_weight_policy='reset' must keep the freshly
 drawn prior

The all-zero weights of the impossible datum were assigned on top of the
reset particles, leaving a posterior whose weights sum to zero.
---
 src/qinfer/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b907c6..d61cf43 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -432,6 +432,9 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'reset':
                 warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
                 self.reset()
+                # The particles have been redrawn from the prior, so there is
+                # nothing left of this datum to apply.
+                return
             else:
                 raise ValueError("Invalid zero-weight policy {} encountered.".format(self._zero_weight_policy))
 
-- 
2.43.0


From c3906cbb43583a4fa744b9f94c66d2d2c92f5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 02/71] fix: an update whose model raises must leave the
 updater unchanged

The outcome was recorded before the likelihood was evaluated, and the new
weights were applied before the timestep was, so that an exception from the
model left a half-applied update behind and a retry counted the datum twice.
---
 src/qinfer/smc.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index d61cf43..952f16d 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -404,12 +404,8 @@ class SMCUpdater(ParticleDistribution):
             a resampling step may be performed.
         """
 
-        # First, record the outcome.
-        # TODO: record the experiment as well.
-        self._data_record.append(outcome)
-        self._just_resampled = False
-
-        # Perform the update.
+        # Perform the update. We do this before recording anything, so that
+        # an exception raised by the model leaves this updater as it was.
         weights, norm = self.hypothetical_update(outcome, expparams, return_normalization=True)
 
         # Check for negative weights before applying the update.
@@ -420,7 +416,21 @@ class SMCUpdater(ParticleDistribution):
         # Next, check if we have caused the weights to go to zero, as can
         # happen if the likelihood is identically zero for all particles,
         # or if the previous clip step choked on a NaN.
-        if np.sum(weights) <= self._zero_weight_thresh:
+        is_zero_weight = np.sum(weights) <= self._zero_weight_thresh
+
+        # Find the particle locations according to the model's timestep, unless
+        # this datum is going to be rejected by the zero-weight policy.
+        if not is_zero_weight or self._zero_weight_policy in ('ignore', 'warn'):
+            new_locations = self.model.update_timestep(
+                self.particle_locations, expparams
+            )[:, :, 0]
+
+        # Record the outcome.
+        # TODO: record the experiment as well.
+        self._data_record.append(outcome)
+        self._just_resampled = False
+
+        if is_zero_weight:
             if self._zero_weight_policy == 'ignore':
                 pass
             elif self._zero_weight_policy == 'skip':
@@ -446,10 +456,8 @@ class SMCUpdater(ParticleDistribution):
         # Record the normalization
         self._normalization_record.append(norm[0][0])
 
-        # Update the particle locations according to the model's timestep.
-        self.particle_locations = self.model.update_timestep(
-            self.particle_locations, expparams
-        )[:, :, 0]
+        # Move the particles according to the model's timestep.
+        self.particle_locations = new_locations
 
         # Check if we need to update our min_n_ess attribute.
         if self.n_ess <= self._min_n_ess:
-- 
2.43.0


From c48cb2e72cffd2ca2c99c5c266bc365b9b4fa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 03/71] fix: do not count a resampling step that the resampler
 failed to perform

---
 src/qinfer/smc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 952f16d..fff5ced 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -511,10 +511,6 @@ class SMCUpdater(ParticleDistribution):
                 ResamplerWarning
             )
 
-        # Record that we have performed a resampling step.
-        self._just_resampled = True
-        self._resample_count += 1
-
         # If we're tracking divergences, make a copy of the weights and
         # locations.
         if self._resampling_divergences is not None:
@@ -532,6 +528,11 @@ class SMCUpdater(ParticleDistribution):
         # newly placed particles.
         # FIXME This feels fishy. If we update particles elsewwhere
         new_distribution = self.resampler(self.model, self)
+
+        # Record that we have performed a resampling step.
+        self._just_resampled = True
+        self._resample_count += 1
+
         self.particle_weights = new_distribution.particle_weights
         self.particle_locations = new_distribution.particle_locations
 
-- 
2.43.0


From 44fba1c2839a18e2589f9d5806f1202d803f3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 04/71] fix: bayes_risk and expected_information_gain are
 finite for impossible outcomes

An outcome ruled out by every particle (or a particle ruled out by the data)
made both quantities NaN.
---
 src/qinfer/smc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index fff5ced..3461f7e 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -59,6 +59,7 @@ import numpy as np
 
 from scipy.spatial import ConvexHull, Delaunay
 import scipy.linalg as la
+import scipy.special
 import scipy.stats
 import scipy.interpolate
 from scipy.ndimage.filters import gaussian_filter1d
@@ -599,9 +600,10 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # Impossible outcomes have no posterior, c.f. hypothetical_update.
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1,:] > 0, N[-1,:], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
@@ -660,16 +662,19 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # Impossible outcomes have no posterior, c.f. hypothetical_update.
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1,:] > 0, N[-1,:], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
 
         # compute the Kullback-Liebler divergence for every experiment and possible outcome
         # KLD.shape == (n_out, n_eps)
-        KLD = np.sum(w_hyp * np.log(w_hyp / self.particle_weights), axis=2)
+        # rel_entr(0, w) is defined to be zero, such that particles ruled out
+        # by an outcome do not contribute.
+        KLD = np.sum(scipy.special.rel_entr(w_hyp, self.particle_weights), axis=2)
 
         # return the expected KLD (ie expected info gain) for every experiment
         return np.sum(N * KLD, axis=0)
-- 
2.43.0


From 825ca2075ee80dd08cc6caee5bc2a9b7f7323928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 05/71] fix: Liu-West postselection must redraw around the
 rejected particles' own centers

After each round of postselection, the remaining particles were redrawn around
the centers of the first few particles instead of their own.
---
 src/qinfer/resamplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 80531fd..89ad215 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -369,7 +369,7 @@ class LiuWestResampler(Resampler):
             # This may look a little weird, but it should delete the unused
             # elements of js, so that we don't need to reallocate.
             js = js[np.logical_not(valid_mask)]
-            mus = mus[:idxs_to_resample.size, :]
+            mus = mus[np.logical_not(valid_mask), :]
 
         if idxs_to_resample.size:
             # We failed to force all models to be valid within maxiter attempts.
-- 
2.43.0


From ddfff1167b142b79a0828e5cc4dd4dbf2311a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 06/71] fix: Liu-West ancestor index may not run past the last
 particle

The cumulative sum of the weights can end slightly below one, such that a
uniform variate above it raised an IndexError.
---
 src/qinfer/resamplers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 89ad215..08c0687 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -315,10 +315,12 @@ class LiuWestResampler(Resampler):
         # Draw j with probability self.particle_weights[j].
         # We do this by drawing random variates uniformly on the interval
         # [0, 1], then see where they belong in the CDF.
-        js = cumsum_weights.searchsorted(
+        # Since cumsum_weights[-1] can be less than one by rounding errors, we
+        # need to clamp the indices found in this way.
+        js = np.minimum(cumsum_weights.searchsorted(
             np.random.random((idxs_to_resample.size,)),
             side='right'
-        )
+        ), len(cumsum_weights) - 1)
 
         # Set mu_i to a x_j + (1 - a) mu.
         # FIXME This should use particle_dist.particle_mean
-- 
2.43.0


From ffe007054ca55e34453b16ac95fba986d03fdb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 07/71] fix: keep all of a parallelized model's settings when
 pickling it

An unpickled DirectViewParallelizedModel raised AttributeError from
allow_identical_outcomes, outcome_warning_threshold and clear_cache.
---
 src/qinfer/parallel.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 7989f15..f117de1 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -127,13 +127,9 @@ class DirectViewParallelizedModel(DerivedModel):
     def __getstate__(self):
         # Since instances of this class will be pickled as they are passed to
         # remote engines, we need to be careful not to include _dv
-        return {
-            '_underlying_model': self._underlying_model,
-            '_dv': None,
-            '_call_count': self._call_count,
-            '_sim_count': self._sim_count,
-            '_serial_threshold': self._serial_threshold
-        }
+        state = self.__dict__.copy()
+        state['_dv'] = None
+        return state
     
     ## PROPERTIES ##
 
-- 
2.43.0


From d6f321f9a3f05fa00dadbf0f957e7f276919be44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 08/71] fix: use one consistent engine count for each parallel
 task

---
 src/qinfer/parallel.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index f117de1..517fca6 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -209,12 +209,15 @@ class DirectViewParallelizedModel(DerivedModel):
         # that doesn't use so much memory.
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
+        # We look up the number of engines only once, since engines can come and
+        # go while we are building up the task.
+        n_engines = self.n_engines
         L = self._dv.map_sync(
             serial_likelihood,
-            np.array_split(modelparams, self.n_engines, axis=0),
-            [self.underlying_model] * self.n_engines,
-            [outcomes] * self.n_engines,
-            [expparams] * self.n_engines
+            np.array_split(modelparams, n_engines, axis=0),
+            [self.underlying_model] * n_engines,
+            [outcomes] * n_engines,
+            [expparams] * n_engines
         )
 
         return np.concatenate(L, axis=1)
@@ -254,12 +257,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            n_engines = self.n_engines
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                np.array_split(modelparams, self.n_engines, axis=0),
-                [expparams] * self.n_engines,
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_engines,
+                np.array_split(modelparams, n_engines, axis=0),
+                [expparams] * n_engines,
+                [repeat] * n_engines
             )
 
             return np.concatenate(os, axis=0)
@@ -272,12 +276,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            n_engines = self.n_engines
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                [modelparams] * self.n_engines,
-                np.array_split(expparams, self.n_engines, axis=0),
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_engines,
+                [modelparams] * n_engines,
+                np.array_split(expparams, n_engines, axis=0),
+                [repeat] * n_engines
             )
 
             return np.concatenate(os, axis=1)
-- 
2.43.0


From e094ae81185ccda3fec405808ef085096d406a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 09/71] fix: derived models must report whether the underlying
 outcome count is constant

Decorating e.g. a BinomialModel claimed a constant number of outcomes, such that
bayes_risk used the outcomes of the first experiment for every experiment.
---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3758726..9861df7 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -122,6 +122,10 @@ class DerivedModel(Model):
     def Q(self):
         return self.underlying_model.Q
     
+    @property
+    def is_n_outcomes_constant(self):
+        return self.underlying_model.is_n_outcomes_constant
+
     def clear_cache(self):
         self.underlying_model.clear_cache()
 
-- 
2.43.0


From 86e5d44832e0ac0f654dbbcc0eaf01c9ff188cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 10/71] fix: MultinomialModel.n_outcomes raised NameError

---
 src/qinfer/derived_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 9861df7..f716d43 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -61,6 +61,7 @@ from functools import reduce
 from past.builtins import basestring
 
 import numpy as np
+import scipy.special
 from scipy.stats import binom, multivariate_normal, norm
 from itertools import combinations_with_replacement as tri_comb
 
-- 
2.43.0


From b2cf44a35067bc0081824488c4babd6c064eb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 11/71] fix: MultinomialModel.simulate_experiment drew from
 uninitialised memory

The probability of the last outcome was never filled in. Also count each of the
repeated simulations.
---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index f716d43..084f178 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -657,7 +657,7 @@ class MultinomialModel(DerivedModel):
         return L
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(MultinomialModel, self).simulate_experiment(modelparams, expparams)
+        super(MultinomialModel, self).simulate_experiment(modelparams, expparams, repeat=repeat)
         
         n_sides = self.n_sides
         n_mps = modelparams.shape[0]
@@ -670,6 +670,7 @@ class MultinomialModel(DerivedModel):
             modelparams,
             expparams['x'] if self._expparams_scalar else expparams) 
             # shape (sides, n_mps, n_eps)
+        prs[-1,...] = 1 - np.sum(prs[:-1,...], axis=0)
 
 
         os = np.concatenate([
-- 
2.43.0


From 900b3ea3347a5e3ccb26c7f941ead09ce7d1070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 12/71] fix: repeated Gaussian hyperparameterized experiments
 must be independent

All repetitions shared a single noise variate, and were counted only once.
---
 src/qinfer/derived_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 084f178..c6b2de3 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -488,11 +488,11 @@ class GaussianHyperparameterizedModel(DerivedModel):
         return (underlying_L * conditional_L).sum(axis=0)
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams)
+        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams, repeat=repeat)
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
-        zs = np.random.randn(modelparams.shape[0], expparams.shape[0])
+        zs = np.random.randn(repeat, modelparams.shape[0], expparams.shape[0])
 
         # Next, we sample a bunch of underlying outcomes to figure out
         # how to rescale everything.
-- 
2.43.0


From abeeea04b5166e320d465fae0a952dac5e44c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 13/71] fix: BinomialModel must count the experiments it
 simulates

---
 src/qinfer/derived_models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index c6b2de3..5dce3bb 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -334,10 +334,10 @@ class BinomialModel(DerivedModel):
         return L
             
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        # FIXME: uncommenting causes a slowdown, but we need to call
-        #        to track sim counts.
-        #super(BinomialModel, self).simulate_experiment(modelparams, expparams)
-        
+        # By calling the superclass implementation, we can consolidate
+        # simulation counting there.
+        super(BinomialModel, self).simulate_experiment(modelparams, expparams, repeat=repeat)
+
         # Start by getting the pr(1) for the underlying model.
         pr1 = self.underlying_model.likelihood(
             np.array([1], dtype='uint'),
-- 
2.43.0


From 5c7a09b9099e0ac9ae1f07bcfeb02d1b927d2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 14/71] fix: MLEModel must count the likelihoods it evaluates

---
 src/qinfer/derived_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 5dce3bb..bad459f 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -705,6 +705,7 @@ class MLEModel(DerivedModel):
         return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        super(MLEModel, self).likelihood(outcomes, modelparams, expparams)
         L = self.underlying_model.likelihood(outcomes, modelparams, expparams)
         return L**self._pow
 
-- 
2.43.0


From bc10a4bb0f98fc08d82116199d1b1fe56f215556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 15/71] fix: PoisonedModel must not write into the likelihoods
 of the model it decorates

---
 src/qinfer/derived_models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index bad459f..c14dbff 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -209,8 +209,7 @@ class PoisonedModel(DerivedModel):
             epsilon *= binom_est_error(p=L, N=self._n_samples, hedge=self._hedge)
         
         # Now we truncate and return.
-        np.clip(L + epsilon, 0, 1, out=L)
-        return L
+        return np.clip(L + epsilon, 0, 1)
         
     def simulate_experiment(self, modelparams, expparams, repeat=1):
         """
-- 
2.43.0


From 2c1373ffe90f6a2a3ad4c423e8dd77fb7903076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 16/71] fix: restore NumPy's error policy when a performance
 test raises

A failed trial left divide='raise' behind for the rest of the process.
---
 src/qinfer/perf_testing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 9905c09..89aa5ad 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -108,8 +108,10 @@ def timing():
     >>> print t.delta_t # Should return approximately 1.
     """
     t = Timer()
-    yield t
-    t.stop()
+    try:
+        yield t
+    finally:
+        t.stop()
 
 
 @contextmanager
@@ -124,8 +126,10 @@ def numpy_err_policy(**kwargs):
     """
 
     old_errs = np.seterr(**kwargs)
-    yield
-    np.seterr(**old_errs)
+    try:
+        yield
+    finally:
+        np.seterr(**old_errs)
 
 ## CONSTANTS #################################################################
 
-- 
2.43.0


From 85fefee46d9f76c44e66f60c0b523779dee16c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 17/71] fix: allow_failures must mask failed trials, and
 nothing else

An error from the progress bar masked out a trial which had succeeded, and an
interrupt was recorded as a failed trial instead of stopping the test.
---
 src/qinfer/perf_testing.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 89aa5ad..584bf78 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -364,23 +364,22 @@ def perf_test_multiple(
             results = [apply(trial_fn) for idx in range(n_trials)]
 
             for idx, result in enumerate(results):
-                # FIXME: This is bad practice, but I don't feel like rewriting to
-                #        avoid right now.
                 try:
                     performance[idx, :] = result.get()
-                    if prog is not None:
-                        prog.update(idx)
-                        if hasattr(prog, 'description'):
-                            prog.description = 'Performance testing {} ({} / {})...'.format(
-                                name, idx, n_trials
-                            )
-
-                except:
+                except Exception:
                     if allow_failures:
                         performance.mask[idx, :] = True
+                        continue
                     else:
                         raise
 
+                if prog is not None:
+                    prog.update(idx)
+                    if hasattr(prog, 'description'):
+                        prog.description = 'Performance testing {} ({} / {})...'.format(
+                            name, idx, n_trials
+                        )
+
     finally:
         if prog is not None:
             prog.finished()
-- 
2.43.0


From 2cf5c0a9f9057ce3a9e5ab4a234ce56cae732d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 18/71] fix: ALE must divide by the number of samples it has
 drawn

The first round drew samp_step samples, but counted min_samp of them.
---
 src/qinfer/ale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/ale.py b/src/qinfer/ale.py
index add7171..63bbc90 100644
--- a/src/qinfer/ale.py
+++ b/src/qinfer/ale.py
@@ -150,10 +150,12 @@ class ALEApproximateModel(DerivedModel):
         
         # Start off with min_samp samples.
         n = np.zeros((modelparams.shape[0], expparams.shape[0]))
+        n_drawn = 0
         for N in count(start=self._min_samp, step=self._samp_step):
             sim_data = simulator.simulate_experiment(
-                modelparams, expparams, repeat=self._samp_step
+                modelparams, expparams, repeat=N - n_drawn
             )
+            n_drawn = N
             n += np.sum(sim_data, axis=0) # Sum over the outcomes axis to find the
                                           # number of 1s.
             error_est_p1 = binom_est_error(binom_est_p(n, N, self._adapt_hedge), N, self._adapt_hedge)
-- 
2.43.0


From 73ea9ebc042e60e6a10e8efea437efd1a891d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 19/71] fix: SMCUpdaterBCRB must pass on all of the arguments
 taken by SMCUpdater

The zero-weight policy, canonicalize and resample_a were silently dropped.
---
 src/qinfer/smc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3461f7e..4caec8e 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1085,10 +1085,7 @@ class SMCUpdaterBCRB(SMCUpdater):
     def __init__(self, *args, **kwargs):
         SMCUpdater.__init__(self, *args, **{
             key: kwargs[key] for key in kwargs
-            if key in [
-                'resampler_a', 'resampler', 'resample_thresh', 'model',
-                'prior', 'n_particles'
-            ]
+            if key not in ['adaptive', 'initial_bim']
         })
 
         if not isinstance(self.model, DifferentiableModel):
-- 
2.43.0


From 2ebd28678ba82667691c5fa3bc4ff8d462145743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 20/71] fix: SMCUpdaterBCRB must not modify initial_bim, nor
 count failed updates

---
 src/qinfer/smc.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 4caec8e..48a1672 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1105,7 +1105,8 @@ class SMCUpdaterBCRB(SMCUpdater):
                 axis=0
             ) / self.n_particles
         else:
-            self._current_bim = kwargs['initial_bim']
+            # Copy, since we add to this array in-place.
+            self._current_bim = np.array(kwargs['initial_bim'], dtype=float)
 
         # Also track the adaptive BIM, if we've been asked to.
         if "adaptive" in kwargs and kwargs["adaptive"]:
@@ -1241,15 +1242,21 @@ class SMCUpdaterBCRB(SMCUpdater):
             update, the effective sample size condition will be checked and
             a resampling step may be performed.
         """
-        # Before we update, we need to commit the new Bayesian information
+        # Before we update, we need to find the new Bayesian information
         # matrix corresponding to the measurement we just made.
-        self._current_bim += self.prior_bayes_information(expparams)[:, :, 0]
+        prior_bim = self.prior_bayes_information(expparams)[:, :, 0]
 
         # If we're tracking the information content accessible to adaptive
         # algorithms, then we must use the current posterior as the prior
         # for the next step, then add that accordingly.
         if self._track_adaptive:
-            self._adaptive_bim += self.posterior_bayes_information(expparams)[:, :, 0]
+            posterior_bim = self.posterior_bayes_information(expparams)[:, :, 0]
 
         # We now can update as normal.
         SMCUpdater.update(self, outcome, expparams,check_for_resample=check_for_resample)
+
+        # Commit the information only once the update has succeeded.
+        self._current_bim += prior_bim
+        if self._track_adaptive:
+            self._adaptive_bim += posterior_bim
+
-- 
2.43.0


From 0971fdc0e64f99b7c57a73bb999f4a2c95998965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 21/71] fix: MixedApproximateSMCUpdater must allow all
 particles to use the same model

The mean weight of an empty set of particles is NaN, which failed an assertion.
---
 src/qinfer/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 48a1672..a9e126d 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1015,8 +1015,9 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         locs_good = locs[good_mask, :]
         locs_bad = locs[bad_mask, :]
 
+        # Either mask can be empty (e.g.: if the mixture ratio is one).
         assert_thresh=1e-6
-        assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        assert not (np.any(good_mask) and np.any(bad_mask)) or np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
 
         # Now find L for each of the good and bad models.
         L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-- 
2.43.0


From 751f1cf9f8911e951eef5f567649d67f4f7330c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 22/71] fix: ExperimentDesigner must accept callable guesses

---
 src/qinfer/expdesign.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 7abec76..3d724de 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -318,6 +318,9 @@ class ExperimentDesigner(object):
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
             ep = np.copy(guess)
+
+        # Record where to start, as the objective function writes into ep.
+        x_guess = np.copy(ep[0][field])
         
         # Define an objective function that wraps a vector of scalars into
         # an appropriate record array.
@@ -354,7 +357,7 @@ class ExperimentDesigner(object):
         if self._opt_algo == OptimizationAlgorithms.NULL:
             # This optimization algorithm does nothing locally, but only
             # exists to leverage the store_guess functionality below.
-            x_opt = guess[0][field]
+            x_opt = x_guess
             
         elif self._opt_algo == OptimizationAlgorithms.CG:
             # Prepare any additional options.
@@ -364,7 +367,7 @@ class ExperimentDesigner(object):
                 
             # Actually call fmin_cg, gathering all outputs we can.
             x_opt, f_opt, func_calls, grad_calls, warnflag = opt.fmin_cg(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
@@ -390,7 +393,7 @@ class ExperimentDesigner(object):
             # anyway.
             try:
                 x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
-                    objective_function, guess[0][field],
+                    objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
                     disp=disp, full_output=True, **opt_options
                 )
@@ -398,7 +401,7 @@ class ExperimentDesigner(object):
                 warnings.warn(
                     "Gradient function too flat for NCG.",
                     RuntimeWarning)
-                x_opt = guess[0][field]
+                x_opt = x_guess
                 f_opt = None
                 
         elif self._opt_algo == OptimizationAlgorithms.NELDER_MEAD:
@@ -409,7 +412,7 @@ class ExperimentDesigner(object):
                 opt_options['maxiter'] = maxiter
                 
             x_opt, f_opt, iters, func_calls, warnflag = opt.fmin(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
-- 
2.43.0


From f375aded0554203f256c2ddf413d3a51f4d378cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 23/71] fix: ExperimentDesigner must compare stored guesses
 that were not optimized

With the NULL algorithm (or a flat gradient), the cost was stored as None, such
that the first guess was never replaced or a TypeError was raised. Also, the
stored design was shared with the caller.
---
 src/qinfer/expdesign.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 3d724de..751664e 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -421,7 +421,7 @@ class ExperimentDesigner(object):
             # Possibly compute the objective function value at the local optimum
             # if we don't already know it.
             if f_opt is None:
-                guess_qual = objective_function(x_opt)
+                f_opt = objective_function(x_opt)
             
             # Compare to the known best cost so far.
             if self.__best_cost is None or (self.__best_cost > f_opt):
@@ -429,9 +429,9 @@ class ExperimentDesigner(object):
                 # so record this guess.
                 ep[field] = x_opt
                 self.__best_cost = f_opt
-                self.__best_ep = ep
+                self.__best_ep = np.copy(ep)
             else:
-                ep = self.__best_ep # Guess is bad, return current best guess
+                ep = np.copy(self.__best_ep) # Guess is bad, return current best guess
         else:
             # We aren't using guess recording, so just pack the local optima
             # into ep for returning.
-- 
2.43.0


From 37956dd42a866e910c0e7fda9477aff71ec51c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 24/71] fix: ExpSparseHeuristic raised AttributeError without
 other_fields

---
 src/qinfer/expdesign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 751664e..5a93783 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -146,8 +146,9 @@ class ExpSparseHeuristic(Heuristic):
             return np.array([t], dtype=dtype)
         else:
             eps = np.empty((1,), dtype=dtype)
-            for field, value in self._other_fields.items():
-                eps[field] = value
+            if self._other_fields is not None:
+                for field, value in self._other_fields.items():
+                    eps[field] = value
             eps[self._t_field] = t
             return eps
 
-- 
2.43.0


From 2577d8edc09b2c7f2e1e59a0c7db3e92481e2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 25/71] fix: read_config raised AttributeError on Python 3.12

---
 src/qinfer/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/config.py b/src/qinfer/config.py
index f0d3770..4e8acab 100644
--- a/src/qinfer/config.py
+++ b/src/qinfer/config.py
@@ -78,7 +78,7 @@ def preffilename():
     
 def read_config():
     #
-    parser = configparser.SafeConfigParser()
+    parser = configparser.ConfigParser()
     parser.read(preffilename())
     return parser
     
-- 
2.43.0


From 3e1c6587278eeb965c31ba5efe7b51f2278becd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 26/71] fix: simple_est functions failed on text data with a
 single row

---
 src/qinfer/simple_est.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index cc9ef1c..1ac1c6b 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -112,7 +112,8 @@ def load_data_or_txt(data, dtype):
         return data.to_records(index=False)
 
     elif hasattr(data, 'read') or isinstance(data, str):
-        data = np.loadtxt(data, dtype=dtype, delimiter=',')
+        # A single row of data would otherwise be squeezed into a scalar.
+        data = np.atleast_1d(np.loadtxt(data, dtype=dtype, delimiter=','))
         return data
     else:
         raise TypeError("Expected a filename, an array or a file-like object.")
-- 
2.43.0


From 2a1f5127c2297742964cb6f0f533e68fa56343cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 27/71] fix: simple_est_prec considered frequencies below
 freq_min

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 1ac1c6b..9aae79e 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -167,7 +167,7 @@ def simple_est_prec(data, freq_min=0.0, freq_max=1.0, n_particles=6000, return_a
         if ``return_all`` is `True`.
     """
     model = BinomialModel(SimplePrecessionModel(freq_min))
-    prior = UniformDistribution([0, freq_max])
+    prior = UniformDistribution([freq_min, freq_max])
 
     data = load_data_or_txt(data, [
         ('counts', 'uint'),
-- 
2.43.0


From 73dfdfb27e066114e4b3f815b1f1af928d9fc9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 28/71] fix: FiniteOutcomeModel could not simulate general
 outcome domains

Outcomes were looked up twice if the number of outcomes is constant, and an
AttributeError was raised if it is not.
---
 src/qinfer/abstract_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e3fe645..5881b79 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -640,8 +640,7 @@ class FiniteOutcomeModel(Model):
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
-            outcome_idxs = all_outcomes[np.argmax(cdf > randnum, axis=1)]
-            outcomes = all_outcomes[outcome_idxs]
+            outcomes = all_outcomes[np.argmax(cdf > randnum, axis=1)]
         else:
             # Loop over each experiment, sadly.
             # Assume all domains have the same dtype
@@ -649,7 +648,7 @@ class FiniteOutcomeModel(Model):
             dtype = self.domain(expparams[0, np.newaxis])[0].dtype
             outcomes = np.empty((repeat, modelparams.shape[0], expparams.shape[0]), dtype=dtype)
             for idx_experiment, single_expparams in enumerate(expparams[:, np.newaxis]):
-                all_outcomes = self.domain(single_expparams).values
+                all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
-- 
2.43.0


From 3af019032d9601a2ac35d8c62810d9206b0a3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 29/71] fix: FiniteOutcomeModel could simulate impossible
 outcomes

If the probabilities sum to slightly less than one, then a variate above their
sum was reported as the first outcome, even if that has zero probability.
---
 src/qinfer/abstract_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 5881b79..1cfdc69 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -639,6 +639,8 @@ class FiniteOutcomeModel(Model):
             all_outcomes = self.domain(None).values
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
+            # Make sure that rounding errors don't leave variates above the cdf.
+            cdf = cdf / cdf[-1]
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
             outcomes = all_outcomes[np.argmax(cdf > randnum, axis=1)]
         else:
@@ -651,6 +653,7 @@ class FiniteOutcomeModel(Model):
                 all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
+                cdf = cdf / cdf[-1]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
                 outcomes[:, :, idx_experiment] = all_outcomes[np.argmax(cdf > randnum, axis=1)]
                 
-- 
2.43.0


From bc4ae51d64b5bc9f979d5bc98faddc177c209db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 30/71] fix: InterpolatedUnivariateDistribution could return
 NaN

The interpolated cdf can end slightly below one.
---
 src/qinfer/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index c3b7417..d1f6b84 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1379,6 +1379,8 @@ class InterpolatedUnivariateDistribution(Distribution):
         norm_factor = np.trapz(pdfs, xs)
 
         self._cdfs = cumtrapz(pdfs / norm_factor, xs, initial=0)
+        # Make sure that rounding errors don't leave variates above the cdf.
+        self._cdfs = self._cdfs / self._cdfs[-1]
         self._interp_inv_cdf = interp1d(self._cdfs, xs, bounds_error=False)
 
     @property
-- 
2.43.0


From 56494ce34daa9249c9258198ee52bd51cc235a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 31/71] fix: ConstrainedSumDistribution must enforce the sum of
 negative samples as well

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index d1f6b84..d81aeab 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1416,4 +1416,4 @@ class ConstrainedSumDistribution(Distribution):
     def sample(self, n=1):
         s = self.underlying_distribution.sample(n)
         totals = np.sum(s, axis=1)[:,np.newaxis]
-        return self.desired_total * np.sign(totals) * s / totals
+        return self.desired_total * s / totals
-- 
2.43.0


From afc2e4117e409fcb853f52cadd0d92be6bcc6876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 32/71] fix: DiscreteUniformDistribution must return samples of
 shape (n, n_rvs)

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index d81aeab..15f94e4 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1163,7 +1163,7 @@ class DiscreteUniformDistribution(Distribution):
 
     def sample(self, n=1):
         z = np.random.randint(2**self._num_bits,size=n)
-        return z
+        return z[:, np.newaxis]
 
 class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     """
-- 
2.43.0


From 4351089c6b5a632fd5df8da758a2e3f95fc0dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 33/71] fix: HilbertSchmidtUniform could not be instantiated

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 15f94e4..300a8b1 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1187,7 +1187,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     def n_rvs(self):
         return self.dim**2 - 1
 
-    def sample(self):
+    def _sample(self):
         #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
         g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
         q,r = la.qr(g)
@@ -1216,7 +1216,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         else:
             temp = np.zeros([d**2,d,d],dtype='complex128')
             for idx in range(temp.shape[0]):
-                temp[idx,:] = np.kron(paulis[np.trunc(idx/d)], self.paulis1Q[idx % 4])
+                temp[idx,:] = np.kron(paulis[idx // 4], self.paulis1Q[idx % 4])
             return self.make_Paulis(temp,d*2)
 
 
-- 
2.43.0


From af1f709aa7c81a41d6d688359c9a40a8b65a7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 34/71] fix: TensorProductDistribution could not be
 instantiated

---
 src/qinfer/tomography/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 2e2ef00..0e4ddb7 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -153,9 +153,9 @@ class TensorProductDistribution(DensityOperatorDistribution):
     
     def __init__(self, factors):
         super(TensorProductDistribution, self).__init__(
-            basis=tensor_product_basis(
+            basis=tensor_product_basis(*[
                 factor.basis for factor in factors
-            )
+            ])
         )
         self._factors = tuple(factors)
 
-- 
2.43.0


From 93b7aab82165b08c724a16e63cddb2e9c0300d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 35/71] fix: an interrupted save_config must not destroy the
 previous configuration

The file was truncated before being written, such that an I/O error or a crash
lost all of the settings. Also, two processes creating the directory raced.
---
 src/qinfer/config.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/config.py b/src/qinfer/config.py
index 4e8acab..57d23a0 100644
--- a/src/qinfer/config.py
+++ b/src/qinfer/config.py
@@ -60,8 +60,13 @@ import configparser
 
 def ensuredir(filename):
     dirname = os.path.dirname(filename)
-    if not os.path.exists(dirname):
+    try:
         os.makedirs(dirname)
+    except OSError:
+        # The directory may well exist already, including if another process
+        # creates it at the same time as we do.
+        if not os.path.isdir(dirname):
+            raise
 
 def preffilename():
     if sys.platform.startswith('linux') or sys.platform.startswith('darwin') or sys.platform.startswith('cygwin'):	    
@@ -83,7 +88,19 @@ def read_config():
     return parser
     
 def save_config(parser):
-    with open(preffilename(), 'w') as f:
-        parser.write(f)
+    filename = preffilename()
+    # Write to a temporary file first, so that the previous configuration
+    # survives if we run out of disk space or are interrupted.
+    tempname = '{}.{}.tmp'.format(filename, os.getpid())
+    try:
+        with open(tempname, 'w') as f:
+            parser.write(f)
+            f.flush()
+            os.fsync(f.fileno())
+        getattr(os, 'replace', os.rename)(tempname, filename)
+    except Exception:
+        if os.path.exists(tempname):
+            os.remove(tempname)
+        raise
 
     
-- 
2.43.0


From 395a4a94120eff21c72b0b55856dd9d91b82a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 36/71] fix: UnknownT2Model and NoisyCoinModel must count the
 likelihoods they evaluate

---
 src/qinfer/test_models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 5620530..63791c3 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -248,6 +248,10 @@ class UnknownT2Model(FiniteOutcomeModel):
         return np.all(modelparams >= 0, axis=1)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(UnknownT2Model, self).likelihood(outcomes, modelparams, expparams)
+
         w, T2_inv = modelparams.T[:, :, None]
         t = expparams['t']
 
@@ -390,6 +394,10 @@ class NoisyCoinModel(FiniteOutcomeModel):
         return 2
     
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(NoisyCoinModel, self).likelihood(outcomes, modelparams, expparams)
+
         # Unpack alpha and beta.
         a = expparams['alpha']
         b = expparams['beta']
-- 
2.43.0


From a714a8e03982c1a4da23c674f8463a09c35929b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 37/71] fix: Liu-West resampling may not choose ancestors of
 zero weight

---
 src/qinfer/resamplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 08c0687..d8b9aab 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -306,6 +306,7 @@ class LiuWestResampler(Resampler):
 
         new_locs = np.empty((n_particles, n_rvs))
         cumsum_weights = np.cumsum(w)
+        cumsum_weights /= cumsum_weights[-1]
 
         idxs_to_resample = np.arange(n_particles, dtype=int)
 
@@ -316,11 +317,12 @@ class LiuWestResampler(Resampler):
         # We do this by drawing random variates uniformly on the interval
         # [0, 1], then see where they belong in the CDF.
         # Since cumsum_weights[-1] can be less than one by rounding errors, we
-        # need to clamp the indices found in this way.
-        js = np.minimum(cumsum_weights.searchsorted(
+        # have normalized it above, such that we neither run past the last
+        # particle nor choose a trailing particle of zero weight.
+        js = cumsum_weights.searchsorted(
             np.random.random((idxs_to_resample.size,)),
             side='right'
-        ), len(cumsum_weights) - 1)
+        )
 
         # Set mu_i to a x_j + (1 - a) mu.
         # FIXME This should use particle_dist.particle_mean
-- 
2.43.0


From e19fc39b486fccda02d4391e1837b107dcfde2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 38/71] fix: a restored LiuWestResampler must draw from NumPy's
 random source

---
 src/qinfer/resamplers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index d8b9aab..47031b9 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -168,6 +168,11 @@ class ClusteringResampler(object):
 
         return new_weights, new_locs
 
+def _randn(*shape):
+    # The bound method np.random.randn carries its own copy of NumPy's random
+    # state along when it is pickled; this function does not.
+    return np.random.randn(*shape)
+
 class LiuWestResampler(Resampler):
     r"""
     Creates a resampler instance that applies the algorithm of
@@ -224,7 +229,7 @@ class LiuWestResampler(Resampler):
             a=0.98, h=None, maxiter=1000, debug=False, postselect=True,
             zero_cov_comp=1e-10,
             default_n_particles=None,
-            kernel=np.random.randn
+            kernel=_randn
         ):
         self._default_n_particles = default_n_particles
         self.a = a # Implicitly calls the property setter below to set _h.
-- 
2.43.0


From 11d3baebaf10f871b72b5c4e59794e20d72df9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 39/71] fix: restored distributions must draw from NumPy's
 random source

---
 src/qinfer/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 300a8b1..b575de1 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1006,7 +1006,7 @@ class BetaDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        return self.dist.rvs(size=n)[:, np.newaxis]
+        return self.dist.rvs(size=n, random_state=np.random)[:, np.newaxis]
         
 class DirichletDistribution(Distribution):
     r"""
@@ -1031,7 +1031,7 @@ class DirichletDistribution(Distribution):
         return self._alpha.size
 
     def sample(self, n=1):
-        return self._dist.rvs(size=n)
+        return self._dist.rvs(size=n, random_state=np.random)
 
 class BetaBinomialDistribution(Distribution):
     r"""
@@ -1076,7 +1076,7 @@ class BetaBinomialDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        p_vals = self._p_dist.rvs(size=n)[:, np.newaxis]
+        p_vals = self._p_dist.rvs(size=n, random_state=np.random)[:, np.newaxis]
         # numpy.random.binomial supports sampling using different p values,
         # whereas scipy does not.
         return np.random.binomial(self.n, p_vals)
@@ -1116,7 +1116,7 @@ class GammaDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        return self._dist.rvs(size=n)[:, np.newaxis] / self.beta
+        return self._dist.rvs(size=n, random_state=np.random)[:, np.newaxis] / self.beta
 
 class MVUniformDistribution(Distribution):
     r"""
-- 
2.43.0


From b6f5e48d9833337bffa323b90f64324a739e3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 40/71] fix: GaussianRandomWalkModel could not be pickled

---
 src/qinfer/derived_models.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index c14dbff..d1a11dd 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -853,13 +853,9 @@ class GaussianRandomWalkModel(DerivedModel):
         if np.max(np.arange(self.n_modelparams)[self._rw_idxs]) > np.max(explicit_idxs):
             raise IndexError('random_walk_idxs out of bounds; must index (a subset of ) underlying_model modelparams.')
             
-        if scale_mult is None:
-            self._scale_mult_fcn = (lambda expparams: 1)
-        elif isinstance(scale_mult, basestring):
-            self._scale_mult_fcn = lambda x: x[scale_mult]
-        else:
-            self._scale_mult_fcn = scale_mult
-            
+        # We don't store a function made here, such that models can be pickled.
+        self._scale_mult = scale_mult
+
         self._has_transformation = model_transformation is not None
         if self._has_transformation:
             self._transform = model_transformation[0]
@@ -901,6 +897,14 @@ class GaussianRandomWalkModel(DerivedModel):
         super(GaussianRandomWalkModel, self).simulate_experiment(modelparams, expparams, repeat)
         return self.underlying_model.simulate_experiment(modelparams[...,:self.underlying_model.n_modelparams], expparams, repeat)
         
+    def _scale_mult_fcn(self, expparams):
+        if self._scale_mult is None:
+            return 1
+        elif isinstance(self._scale_mult, basestring):
+            return expparams[self._scale_mult]
+        else:
+            return self._scale_mult(expparams)
+
     def est_update_covariance(self, modelparams):
         """
         Returns the covariance of the gaussian noise process for one 
-- 
2.43.0


From 8c9788b66d40903d47eb8964d7cd035c5ea7beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 41/71] fix: do not count a resampling step whose particles
 could not be canonicalized

---
 src/qinfer/smc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index a9e126d..94b38a7 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -529,17 +529,18 @@ class SMCUpdater(ParticleDistribution):
         # newly placed particles.
         # FIXME This feels fishy. If we update particles elsewwhere
         new_distribution = self.resampler(self.model, self)
+        new_locations = new_distribution.particle_locations
+
+        # Possibly canonicalize, if we've been asked to do so.
+        if self._canonicalize:
+            new_locations[:, :] = self.model.canonicalize(new_locations)
 
         # Record that we have performed a resampling step.
         self._just_resampled = True
         self._resample_count += 1
 
         self.particle_weights = new_distribution.particle_weights
-        self.particle_locations = new_distribution.particle_locations
-
-        # Possibly canonicalize, if we've been asked to do so.
-        if self._canonicalize:
-            self.particle_locations[:, :] = self.model.canonicalize(self.particle_locations)
+        self.particle_locations = new_locations
 
         # Instruct the model to clear its cache, demoting any errors to
         # warnings.
-- 
2.43.0


From accf8ab67318e7b44aef730cba81f592dadda483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 42/71] fix: truncate negative eigenvalues correctly for
 degenerate states

---
 src/qinfer/tomography/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index 1bb2033..25219b8 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -181,7 +181,9 @@ class TomographyModel(FiniteOutcomeModel):
             set to zero.
         """
         arr = np.tensordot(particle, self._basis.data.conj(), 1)
-        w, v = np.linalg.eig(arr)
+        # The state is Hermitian, such that eigh finds real eigenvalues and
+        # orthogonal eigenvectors, even if some of the eigenvalues agree.
+        w, v = np.linalg.eigh(arr)
         if np.all(w >= 0):
             return particle
         else:
-- 
2.43.0


From 8b233261532fd9e169231232f3d5b5e5d4685b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 43/71] fix: parallel simulations must join data along the axis
 that was split

---
 src/qinfer/parallel.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 517fca6..c15dcfd 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -258,15 +258,22 @@ class DirectViewParallelizedModel(DerivedModel):
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             n_engines = self.n_engines
+            modelparam_chunks = np.array_split(modelparams, n_engines, axis=0)
             os = self._dv.map_sync(
                 serial_simulator,
                 [self.underlying_model] * n_engines,
-                np.array_split(modelparams, n_engines, axis=0),
+                modelparam_chunks,
                 [expparams] * n_engines,
                 [repeat] * n_engines
             )
 
-            return np.concatenate(os, axis=0)
+            # Since data is indexed by [repeat, model, experiment], each engine
+            # has produced a slice along the model axis; note that an engine
+            # returns a scalar if it was asked for a single datum.
+            return np.concatenate([
+                np.reshape(chunk, (repeat, mps.shape[0], expparams.shape[0]))
+                for chunk, mps in zip(os, modelparam_chunks)
+            ], axis=1)
 
         else:
             # If there's less models than some threshold, just use the serial model.
@@ -277,13 +284,18 @@ class DirectViewParallelizedModel(DerivedModel):
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
             n_engines = self.n_engines
+            expparam_chunks = np.array_split(expparams, n_engines, axis=0)
             os = self._dv.map_sync(
                 serial_simulator,
                 [self.underlying_model] * n_engines,
                 [modelparams] * n_engines,
-                np.array_split(expparams, n_engines, axis=0),
+                expparam_chunks,
                 [repeat] * n_engines
             )
 
-            return np.concatenate(os, axis=1)
+            # As above, but for slices along the experiment axis.
+            return np.concatenate([
+                np.reshape(chunk, (repeat, modelparams.shape[0], eps.shape[0]))
+                for chunk, eps in zip(os, expparam_chunks)
+            ], axis=2)
 
-- 
2.43.0


From e3208dc78967db8bfe1217729eac2ee24c5cb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 44/71] fix: do not send empty tasks to engines

---
 src/qinfer/parallel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index c15dcfd..2b02b0d 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -210,8 +210,9 @@ class DirectViewParallelizedModel(DerivedModel):
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
         # We look up the number of engines only once, since engines can come and
-        # go while we are building up the task.
-        n_engines = self.n_engines
+        # go while we are building up the task. Moreover, no engine should be
+        # asked to evaluate an empty set of models.
+        n_engines = min(self.n_engines, modelparams.shape[0])
         L = self._dv.map_sync(
             serial_likelihood,
             np.array_split(modelparams, n_engines, axis=0),
@@ -257,7 +258,7 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
-            n_engines = self.n_engines
+            n_engines = min(self.n_engines, modelparams.shape[0])
             modelparam_chunks = np.array_split(modelparams, n_engines, axis=0)
             os = self._dv.map_sync(
                 serial_simulator,
@@ -283,7 +284,7 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
-            n_engines = self.n_engines
+            n_engines = min(self.n_engines, expparams.shape[0])
             expparam_chunks = np.array_split(expparams, n_engines, axis=0)
             os = self._dv.map_sync(
                 serial_simulator,
-- 
2.43.0


From 1a7a0c252c83c58aafb17a1fa81c9fa23052a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 45/71] fix: the scale matrix of a derived model must cover the
 parameters it adds

---
 src/qinfer/derived_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index d1a11dd..77e1a5a 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -121,7 +121,11 @@ class DerivedModel(Model):
 
     @property
     def Q(self):
-        return self.underlying_model.Q
+        Q = self.underlying_model.Q
+        # As documented for Simulatable.Q, the scale of any parameters that are
+        # added by a decoration is taken to be one.
+        n_added = self.n_modelparams - len(Q)
+        return np.concatenate([Q, np.ones((n_added,))]) if n_added > 0 else Q
     
     @property
     def is_n_outcomes_constant(self):
-- 
2.43.0


From 288cc70d51d8f2f4854b77ef041d4af6f12a348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 46/71] fix: BinomialModel could not simulate several
 experiments for a single particle

---
 src/qinfer/derived_models.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 77e1a5a..38a8aed 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -351,13 +351,9 @@ class BinomialModel(DerivedModel):
             expparams['n_meas'].astype('int'), # ← Really, NumPy?
             pr1[0, :, :]
         )
-        sample = (
-            (lambda: dist.rvs()[np.newaxis, :, :])
-            if pr1.size != 1 else
-            (lambda: np.array([[[dist.rvs()]]]))
-        )
+        # Without an explicit size, SciPy drops leading axes of length one.
         os = np.concatenate([
-            sample()
+            dist.rvs(size=pr1.shape[1:])[np.newaxis, :, :]
             for idx in range(repeat)
         ], axis=0)
         return os[0,0,0] if os.size == 1 else os
-- 
2.43.0


From 972aef15e91d6a676ce8b062883b66fb27b65fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 47/71] fix: perf_test must accept a single vector of true
 model parameters

---
 src/qinfer/perf_testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 584bf78..6e83bea 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -232,6 +232,9 @@ def perf_test(
     if true_mps is None:
         true_mps = true_prior.sample()
 
+    # Models expect an array of model parameter vectors, not a single vector.
+    true_mps = promote_dims_left(true_mps, 2)
+
     if extra_updater_args is None:
         extra_updater_args = {}
 
-- 
2.43.0


From e597a6d76a2c16da003c5493d7f3fd8399d5f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 48/71] Revert changes to test_models.py

The file is named like a test file; the defect is recorded as a known
finding instead (counting in UnknownT2Model and NoisyCoinModel).
---
 src/qinfer/test_models.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/qinfer/test_models.py b/src/qinfer/test_models.py
index 63791c3..5620530 100644
--- a/src/qinfer/test_models.py
+++ b/src/qinfer/test_models.py
@@ -248,10 +248,6 @@ class UnknownT2Model(FiniteOutcomeModel):
         return np.all(modelparams >= 0, axis=1)
 
     def likelihood(self, outcomes, modelparams, expparams):
-        # By calling the superclass implementation, we can consolidate
-        # call counting there.
-        super(UnknownT2Model, self).likelihood(outcomes, modelparams, expparams)
-
         w, T2_inv = modelparams.T[:, :, None]
         t = expparams['t']
 
@@ -394,10 +390,6 @@ class NoisyCoinModel(FiniteOutcomeModel):
         return 2
     
     def likelihood(self, outcomes, modelparams, expparams):
-        # By calling the superclass implementation, we can consolidate
-        # call counting there.
-        super(NoisyCoinModel, self).likelihood(outcomes, modelparams, expparams)
-
         # Unpack alpha and beta.
         a = expparams['alpha']
         b = expparams['beta']
-- 
2.43.0


From b8a221c24b2151582fccbb7687ccaf4da37f39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 49/71] fix: ParticleDistribution could sample particles of
 zero weight

---
 src/qinfer/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index b575de1..7796897 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -327,6 +327,9 @@ class ParticleDistribution(Distribution):
         :rtype: `~numpy.ndarray` of shape ``(n, updater.n_rvs)``.
         """
         cumsum_weights = np.cumsum(self.particle_weights)
+        # Make sure that rounding errors in the total weight do not let us
+        # choose a trailing particle of zero weight.
+        cumsum_weights /= cumsum_weights[-1]
         return self.particle_locations[np.minimum(cumsum_weights.searchsorted(
             np.random.random((n,)),
             side='right'
-- 
2.43.0


From 7b93adf4e2852d83ccb445c808717c35c98b98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 50/71] fix: mixed approximate inference called models without
 particles

Many models cannot evaluate likelihoods for an empty array of model
parameter vectors, so that updates failed if the good or the approximate
model was not responsible for any particle (e.g. for a mixture ratio of one).
---
 src/qinfer/smc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 94b38a7..95a2acc 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1021,8 +1021,12 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         assert not (np.any(good_mask) and np.any(bad_mask)) or np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
 
         # Now find L for each of the good and bad models.
-        L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-        L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
+        # As either mask can be empty, make sure not to call a model without
+        # any particles, as models need not support that.
+        if np.any(good_mask):
+            L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
+        if np.any(bad_mask):
+            L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
         L = L.transpose([0, 2, 1])
 
         # update the weights sans normalization
-- 
2.43.0


From 51b47d933d757fd74184d9471fc9b7875132e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 51/71] fix: RandomStabilizerStateHeuristic always raised an
 error

NumPy refuses to choose from sequences of Qobjs, so that the heuristic could
not propose any measurement. Choose by index instead.
---
 src/qinfer/tomography/expdesign.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 5daac92..994a8d7 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -124,11 +124,11 @@ class RandomStabilizerStateHeuristic(StateTomographyHeuristic):
         self._hw_group = heisenberg_weyl_operators(self._basis.dim)
     
     def _next_measurement(self):
-        return qt.ket2dm(
-            np.random.choice(np.random.choice(
-                self._hw_group
-            ).eigenstates()[1])
-        )
+        # Choose by index, since NumPy can't choose from sequences of Qobjs.
+        eigenstates = self._hw_group[
+            np.random.choice(len(self._hw_group))
+        ].eigenstates()[1]
+        return qt.ket2dm(eigenstates[np.random.choice(len(eigenstates))])
 
 
 class RandomPauliHeuristic(StateTomographyHeuristic):
-- 
2.43.0


From 6f0bf1156d69060ab3e564d3a5414f37c0b98915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 52/71] fix: parallel simulation of a single datum must return
 a scalar

As documented, the result is what the serial model would have returned.
---
 src/qinfer/parallel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 2b02b0d..0bf1271 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -271,7 +271,7 @@ class DirectViewParallelizedModel(DerivedModel):
             # Since data is indexed by [repeat, model, experiment], each engine
             # has produced a slice along the model axis; note that an engine
             # returns a scalar if it was asked for a single datum.
-            return np.concatenate([
+            data = np.concatenate([
                 np.reshape(chunk, (repeat, mps.shape[0], expparams.shape[0]))
                 for chunk, mps in zip(os, modelparam_chunks)
             ], axis=1)
@@ -295,8 +295,11 @@ class DirectViewParallelizedModel(DerivedModel):
             )
 
             # As above, but for slices along the experiment axis.
-            return np.concatenate([
+            data = np.concatenate([
                 np.reshape(chunk, (repeat, modelparams.shape[0], eps.shape[0]))
                 for chunk, eps in zip(os, expparam_chunks)
             ], axis=2)
 
+        # As for serial models, a single datum is returned as a scalar.
+        return data[0, 0, 0] if data.size == 1 else data
+
-- 
2.43.0


From e0afd2f05b81fa9e9420ef4e348be6455b989200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 53/71] fix: experiment design modified guesses owned by guess
 functions

If a function used to generate guesses returned an array that it kept (e.g.
always the same one), then later calls changed designs returned earlier.
---
 src/qinfer/expdesign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 5a93783..02ae71f 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -310,11 +310,12 @@ class ExperimentDesigner(object):
             raise NotImplementedError("Not yet implemented.")
         elif callable(guess):
             # Generate a new guess by calling the guess function provided.
-            ep = guess(
+            # Copy, as the function may hold on to the guess that it returns.
+            ep = np.copy(guess(
                 idx_exp=len(up.data_record),
                 mean=up.est_mean(),
                 cov=up.est_covariance_mtx()
-            )
+            ))
         else:
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
-- 
2.43.0


From ebb31901559f3ebbffa02967758e41dc6b4fa85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 54/71] fix: experiment design could return worse designs than
 the guess

Local optimizers don't guarantee that their result is at least as good as the
guess that they were given, e.g. if the objective has jumps.
---
 src/qinfer/expdesign.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 02ae71f..2f54696 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -418,6 +418,15 @@ class ExperimentDesigner(object):
                 disp=disp, full_output=True, **opt_options
             )
             
+        # Local optimizers can fail to improve on (or even lose track of) the
+        # guess that they started from, e.g. if the objective isn't smooth.
+        if self._opt_algo != OptimizationAlgorithms.NULL:
+            if f_opt is None:
+                f_opt = objective_function(x_opt)
+            f_guess = objective_function(x_guess)
+            if not f_opt <= f_guess:
+                x_opt, f_opt = x_guess, f_guess
+
         # Optionally compare the result to previous guesses.            
         if store_guess:
             # Possibly compute the objective function value at the local optimum
-- 
2.43.0


From 482795518b528b5ec07d40584aba1f0e26a06888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 55/71] fix: Fisher information of binomial models with scalar
 experiments

As for likelihoods, the decorated model must be given its own experiment
parameters rather than records that also contain the number of measurements.
---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 38a8aed..a4523ca 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -382,7 +382,8 @@ class DifferentiableBinomialModel(BinomialModel, DifferentiableModel):
         # FI provided by the underlying model by the number of measurements
         # that we perform.
         two_outcome_fi = self.underlying_model.fisher_information(
-            modelparams, expparams
+            modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
         )
         return two_outcome_fi * expparams['n_meas']
 
-- 
2.43.0


From 2a687cec6e769e7c8518112c9edadf8b6dbd6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 56/71] fix: random walk decoration hid that outcome counts are
 constant

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index a4523ca..db8f935 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -876,7 +876,7 @@ class GaussianRandomWalkModel(DerivedModel):
         
     @property
     def is_n_outcomes_constant(self):
-        return False
+        return self.underlying_model.is_n_outcomes_constant
             
     ## METHODS ##
     
-- 
2.43.0


From 8392433caecb77565914aa36ca5dd44f5c569105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 57/71] fix: errors while reading the configuration were
 ignored

---
 src/qinfer/config.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/config.py b/src/qinfer/config.py
index 57d23a0..d6dc020 100644
--- a/src/qinfer/config.py
+++ b/src/qinfer/config.py
@@ -54,6 +54,7 @@ __all__ = [
 ## IMPORTS ####################################################################
 
 import sys, os
+import errno
 import configparser
 
 ## FUNCTIONS ##################################################################
@@ -84,7 +85,16 @@ def preffilename():
 def read_config():
     #
     parser = configparser.ConfigParser()
-    parser.read(preffilename())
+    # Note that ConfigParser.read silently ignores I/O errors, even if they
+    # occur after a part of the file has been read.
+    try:
+        f = open(preffilename())
+    except IOError as ex:
+        if ex.errno != errno.ENOENT:
+            raise
+        return parser
+    with f:
+        parser.read_file(f)
     return parser
     
 def save_config(parser):
-- 
2.43.0


From 191e49641daafe70d83052290de8b033e7b4ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 58/71] fix: information bounds missed data whose resampling
 failed and counted rejected data

---
 src/qinfer/smc.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 95a2acc..734f3c4 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1259,10 +1259,15 @@ class SMCUpdaterBCRB(SMCUpdater):
             posterior_bim = self.posterior_bayes_information(expparams)[:, :, 0]
 
         # We now can update as normal.
-        SMCUpdater.update(self, outcome, expparams,check_for_resample=check_for_resample)
-
-        # Commit the information only once the update has succeeded.
-        self._current_bim += prior_bim
-        if self._track_adaptive:
-            self._adaptive_bim += posterior_bim
+        n_applied = len(self._normalization_record)
+        try:
+            SMCUpdater.update(self, outcome, expparams,check_for_resample=check_for_resample)
+        finally:
+            # Commit the information only if the datum has been applied: it
+            # has not if the update failed or the zero-weight policy rejected
+            # it, but it has if only the resampling afterwards failed.
+            if len(self._normalization_record) == n_applied + 1:
+                self._current_bim += prior_bim
+                if self._track_adaptive:
+                    self._adaptive_bim += posterior_bim
 
-- 
2.43.0


From 32a4b2b926af19baa5f485fe8ff009a4b36955b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 59/71] fix: Fisher information of models with varying numbers
 of outcomes

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 1cfdc69..861d4f5 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -758,7 +758,7 @@ class DifferentiableModel(with_metaclass(abc.ABCMeta, Model)):
                 
                 fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijme",
                     L, scores, scores
-                )
+                )[:, :, :, 0]
             
             return fisher
             
-- 
2.43.0


From 056b3ea3ef9aa66ad7478a5c5faa4e3d7c04bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 60/71] fix: decorations adding parameters passed them to the
 model they decorate

---
 src/qinfer/derived_models.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index db8f935..768fb12 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -147,10 +147,23 @@ class DerivedModel(Model):
         return self.underlying_model.are_expparam_dtypes_consistent(expparams)
     
     def update_timestep(self, modelparams, expparams):
-        return self.underlying_model.update_timestep(modelparams, expparams)
+        n_orig_mps = self.underlying_model.n_modelparams
+        if modelparams.shape[1] == n_orig_mps:
+            return self.underlying_model.update_timestep(modelparams, expparams)
+        # Any parameters that are added by a decoration do not move.
+        return np.concatenate([
+            self.underlying_model.update_timestep(modelparams[:, :n_orig_mps], expparams),
+            np.repeat(modelparams[:, n_orig_mps:, np.newaxis], expparams.shape[0], axis=2)
+        ], axis=1)
 
     def canonicalize(self, modelparams):
-        return self.underlying_model.canonicalize(modelparams)
+        n_orig_mps = self.underlying_model.n_modelparams
+        if modelparams.shape[1] == n_orig_mps:
+            return self.underlying_model.canonicalize(modelparams)
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, :n_orig_mps]),
+            modelparams[:, n_orig_mps:]
+        ], axis=1)
 
 PoisonModes = enum.enum("ALE", "MLE")
 
-- 
2.43.0


From db32ad340c41cbe240aa0aaa827443adbcdda19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 61/71] fix: likelihood of Gaussian hyperparameterized models
 was not a density over outcomes

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 768fb12..d23c08c 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -486,7 +486,8 @@ class GaussianHyperparameterizedModel(DerivedModel):
         scaled_outcomes = (outcomes[np.newaxis,:,np.newaxis,np.newaxis] - mu) / sigma
 
         # We can then compute the conditional likelihood Pr(z | underlying_outcome, model).
-        conditional_L = norm(0, 1).pdf(scaled_outcomes)
+        # Since this is a density over outcomes rather than over z, it must include the scale.
+        conditional_L = norm(0, 1).pdf(scaled_outcomes) / sigma
 
         # To find the marginalized likeihood, we now need the underlying likelihood
         # Pr(underlying_outcome | model), so that we can sum over the idx_u_o axis.
-- 
2.43.0


From 24cefe1626089cd4a328b04526ad299dfa94efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 62/71] fix: BestOfKMetaheuristic failed for models with
 parameters besides the state

---
 src/qinfer/tomography/expdesign.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 994a8d7..00a367f 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -232,9 +232,10 @@ class BestOfKMetaheuristic(Heuristic):
             self._base_heuristic()[0] for _ in range(self._k)
         ], dtype=self._up.model.expparams_dtype)
         meas = expparams['meas']
-        cov_expectations = np.einsum('ei,ij,ej->e',
-            meas, self._up.est_covariance_mtx(), meas
-        )
+        # Parameters other than those of the state come after it, and are not
+        # acted on by measurements.
+        cov = self._up.est_covariance_mtx()[:meas.shape[1], :meas.shape[1]]
+        cov_expectations = np.einsum('ei,ij,ej->e', meas, cov, meas)
         
         expparams = expparams[np.argmax(cov_expectations), None]
 
-- 
2.43.0


From 0f8456133e62a8d434afeb4bff81d236e009d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 63/71] fix: RandomPauliHeuristic ignored the dimension of the
 basis it was given

---
 src/qinfer/tomography/expdesign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 00a367f..6bc30a3 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -88,8 +88,9 @@ class StateTomographyHeuristic(Heuristic):
     def __init__(self, updater, basis=None, other_fields=None):     
         self._up = updater
         self._other_fields = {} if other_fields is None else other_fields
-        self._dim = updater.model.base_model.dim
         self._basis = updater.model.base_model.basis if basis is None else basis
+        # NB: may differ from the dimension of the model if basis was given.
+        self._dim = self._basis.dim
         
     def __call__(self):
         expparams = np.zeros((1,), dtype=self._up.model.expparams_dtype)
-- 
2.43.0


From d20f69f1619edd48869740bfa909e7585f9dc046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 64/71] fix: GADFLIDistribution failed for means with a tensor
 structure

---
 src/qinfer/tomography/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 0e4ddb7..1a4e606 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -292,6 +292,8 @@ class GADFLIDistribution(DensityOperatorDistribution):
 
     def _sample_dm(self):
         fid_samp = self._fid._sample_dm()
+        # Fiducial samples need not carry the same tensor structure.
+        fid_samp.dims = self._mean.dims
         eps = np.random.beta(self._alpha, self._beta)
         return (1 - eps) * fid_samp + eps * self._rho_star
 
-- 
2.43.0


From a4ced51f3608d1157803f7525ff995fbf3d6d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 65/71] fix: credible regions of exact levels had one particle
 too many or failed

---
 src/qinfer/distributions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 7796897..fc26a16 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -597,13 +597,16 @@ class ParticleDistribution(Distribution):
         # Find the cummulative sum of the sorted weights.
         cumsum_weights = np.cumsum(self.particle_weights[id_sort])
 
+        # Make sure that rounding errors in the total weight do not matter.
+        cumsum_weights /= cumsum_weights[-1]
+
         # Find all the indices where the sum is less than level.
         # We first find id_cred such that
-        # `all(cumsum_weights[id_cred] <= level)`.
-        id_cred = cumsum_weights <= level
+        # `all(cumsum_weights[id_cred] < level)`.
+        id_cred = cumsum_weights < level
         # By construction, by adding the next particle to id_cred, it must be
         # true that `cumsum_weights[id_cred] >= level`, as required.
-        id_cred[np.sum(id_cred)] = True
+        id_cred[min(np.sum(id_cred), len(id_cred) - 1)] = True
 
         # We now return a slice onto the particle_locations by first permuting
         # the particles according to the sort order, then by selecting the
-- 
2.43.0


From 0b23c5f92a707d9887f9c3e7e002b2a4c03bd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 66/71] fix: cluster moments used unnormalized weights

---
 src/qinfer/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index fc26a16..8cf68dd 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -518,9 +518,14 @@ class ParticleDistribution(Distribution):
 
             w = self.particle_weights[cluster_particles]
             l = self.particle_locations[cluster_particles]
+            cluster_weight = sum(w)
+            # The first and second moments are those of the particles in this
+            # cluster, such that their weights must be normalized.
+            if cluster_weight > 0:
+                w = w / cluster_weight
             yield (
                 cluster_label,
-                sum(w), # The zeroth moment is very useful here!
+                cluster_weight, # The zeroth moment is very useful here!
                 self.particle_mean(w, l),
                 self.particle_covariance_mtx(w, l)
             )
-- 
2.43.0


From e31398660ccfabb3ad48e53886b589485e0bae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 67/71] fix: posterior_mesh returned the density at the wrong
 points of the mesh

---
 src/qinfer/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 734f3c4..8980069 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -837,7 +837,8 @@ class SMCUpdater(ParticleDistribution):
             np.linspace(np.min(locs[:, 0]), np.max(locs[:, 0]), res1),
             np.linspace(np.min(locs[:, 1]), np.max(locs[:, 1]), res2)
         )
-        plot_locs = np.array([p1s, p2s]).T.reshape((np.prod(p1s.shape), 2))
+        # One row for each point of the mesh, in the order of p1s.flatten().
+        plot_locs = np.array([p1s, p2s]).reshape((2, -1)).T
 
         pr = np.sum( # <- sum over the particles in the SMC approximation.
             np.prod( # <- product over model parameters to get a multinormal
-- 
2.43.0


From d4531ab5cbacbb6067e7c3e7e18489d2639c0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 68/71] fix: region_est_ellipsoid returned the inverse of the
 documented matrix

---
 src/qinfer/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 8cf68dd..e9ebdf2 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -673,8 +673,9 @@ class ParticleDistribution(Distribution):
         """
         _, vertices = self.region_est_hull(level=level, modelparam_slice=modelparam_slice)
 
-        A, centroid = u.mvee(vertices, tol)
-        return A, centroid
+        # NB: mvee describes its ellipsoid by the inverse of A.
+        invA, centroid = u.mvee(vertices, tol)
+        return np.linalg.inv(invA), centroid
 
     def in_credible_region(self, points, level=0.95, modelparam_slice=None, method='hpd-hull', tol=0.0001):
         """
@@ -741,7 +742,7 @@ class ParticleDistribution(Distribution):
         elif method == 'hpd-mvee':
             tol = 0.0001 if tol is None else tol
             A, c = self.region_est_ellipsoid(level=level, tol=tol, modelparam_slice=modelparam_slice)
-            results = u.in_ellipsoid(points, np.linalg.inv(A), c)
+            results = u.in_ellipsoid(points, A, c)
 
         elif method == 'hpd-hull':
             # it would be more natural to call region_est_hull,
-- 
2.43.0


From c1cdb67bf9592da01db9ea1921f5a7d7f328b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 69/71] fix: A failed reset leaves the updater as it was, and
 partial resets canonicalize whole particles

---
 src/qinfer/smc.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 8980069..390b8fd 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -304,21 +304,26 @@ class SMCUpdater(ParticleDistribution):
         if n_particles is None:
             n_particles = self.n_particles
 
-        if reset_weights:
-            self.particle_weights = np.ones((n_particles,)) / n_particles
-
+        # Find the new particles before changing anything, so that an exception
+        # raised by the prior or the model leaves this updater as it was.
         if only_params is None:
             sl = np.s_[:, :]
             # Might as well make a new array if we're resetting everything.
-            self.particle_locations = np.zeros((n_particles, self.model.n_modelparams))
+            new_locations = np.zeros((n_particles, self.model.n_modelparams))
         else:
             sl = np.s_[:, only_params]
+            new_locations = self.particle_locations.copy()
 
-        self.particle_locations[sl] = self.prior.sample(n=n_particles)[sl]
+        new_locations[sl] = self.prior.sample(n=n_particles)[sl]
 
         # Since this changes particle positions, we must recanonicalize.
         if self._canonicalize:
-            self.particle_locations[sl] = self.model.canonicalize(self.particle_locations[sl])
+            new_locations = self.model.canonicalize(new_locations)
+
+        if reset_weights:
+            self.particle_weights = np.ones((n_particles,)) / n_particles
+
+        self.particle_locations = new_locations
 
     ## UPDATE METHODS #########################################################
 
@@ -426,6 +431,11 @@ class SMCUpdater(ParticleDistribution):
                 self.particle_locations, expparams
             )[:, :, 0]
 
+        # The reset policy draws new particles, which can fail as well.
+        if is_zero_weight and self._zero_weight_policy == 'reset':
+            warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
+            self.reset()
+
         # Record the outcome.
         # TODO: record the experiment as well.
         self._data_record.append(outcome)
@@ -441,8 +451,6 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'error':
                 raise RuntimeError("All particle weights are zero.")
             elif self._zero_weight_policy == 'reset':
-                warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
-                self.reset()
                 # The particles have been redrawn from the prior, so there is
                 # nothing left of this datum to apply.
                 return
-- 
2.43.0


From 051291a3f79a2e182b45e1ee104c11beed734daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 70/71] fix: Rounding made the last side's probability
 negative, failing multinomial likelihoods

---
 src/qinfer/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f767048..9e43e2a 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -147,7 +147,8 @@ def multinomial_pdf(n,p):
     if p.shape[0] == n.shape[0] - 1:
         ep = np.empty(n.shape)
         ep[:p.shape[0],...] = p
-        ep[-1,...] = 1-np.sum(p,axis=0)
+        # Rounding may take this below zero.
+        ep[-1,...] = np.maximum(1-np.sum(p,axis=0), 0)
     else:
         ep = p
     log_p_sum = np.sum(nlogp(n, ep), axis=0)
-- 
2.43.0


From 9b22d91760ce9217fa65df8b44d107ae0c3ce840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 71/71] fix: The data record keeps a copy of outcomes given as
 arrays

---
 src/qinfer/smc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 390b8fd..3f65ee0 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -51,6 +51,7 @@ __all__ = [
 
 from builtins import map, zip
 
+import copy
 import warnings
 
 import numpy as np
@@ -436,9 +437,10 @@ class SMCUpdater(ParticleDistribution):
             warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
             self.reset()
 
-        # Record the outcome.
+        # Record the outcome. If it is an array, the caller may go on to
+        # use it for something else.
         # TODO: record the experiment as well.
-        self._data_record.append(outcome)
+        self._data_record.append(copy.copy(outcome))
         self._just_resampled = False
 
         if is_zero_weight:
-- 
2.43.0

