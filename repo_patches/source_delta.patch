From a6932a5f7f8b0b64ec63c7cd6b0ca55e65090887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 01/42] fix: save_cdict writes to a temporary file and
 replaces, so a failed save never loses or truncates a file

---
 mocat/src/core.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index fd327a6..620b482 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -5,10 +5,12 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
+import os
 import pickle
 import copy
 from typing import Union, Callable, Tuple
 from pathlib import Path
+from uuid import uuid4
 from warnings import warn
 
 import jax.numpy as jnp
@@ -95,13 +97,20 @@ def save_cdict(in_cdict: cdict,
     if path.suffix != '.cdict':
         path = path.with_suffix('.cdict')
     path.parent.mkdir(parents=True, exist_ok=True)
-    if path.exists():
-        if overwrite:
-            path.unlink()
-        else:
-            raise RuntimeError(f'File {path} already exists.')
-    with open(path, 'wb') as file:
-        pickle.dump(in_cdict, file)
+    if path.exists() and not overwrite:
+        raise RuntimeError(f'File {path} already exists.')
+
+    # Write to a temporary file first so that a failed save never leaves path missing or incomplete
+    tmp_path = path.with_name(f'.{path.name}.{uuid4().hex}.tmp')
+    try:
+        with open(tmp_path, 'wb') as file:
+            pickle.dump(in_cdict, file)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(tmp_path, path)
+    finally:
+        if tmp_path.exists():
+            tmp_path.unlink()
 
 
 def load_cdict(path: Union[str, Path]) -> cdict:
-- 
2.43.0


From 1524c2dc7665624ad782d3c870224d91298cda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 02/42] fix: tempered SMC gives zero weight to particles with
 infinite or undefined likelihood potential

---
 mocat/src/transport/smc.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 625b814..c4a0bd8 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -283,7 +283,7 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
             initial_state.grad_potential = initial_state.grad_prior_potential \
                                            + first_temp * initial_state.grad_likelihood_potential
 
-        initial_state.log_weight = - first_temp * initial_state.likelihood_potential
+        initial_state.log_weight = self.log_weight_increment(first_temp, initial_state.likelihood_potential)
         initial_state.ess = jnp.repeat(jnp.exp(log_ess_log_weight(initial_state.log_weight)), n)
         initial_state.log_norm_constant = logsumexp(initial_state.log_weight, b=1 / n) * jnp.ones(n)
 
@@ -300,12 +300,21 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                            extra: cdict) -> bool:
         return ensemble_state.ess[0] <= (extra.parameters.ess_threshold_resample * len(ensemble_state.value))
 
+    @staticmethod
+    def log_weight_increment(temperature_increment: float,
+                             likelihood_potential: jnp.ndarray) -> jnp.ndarray:
+        # Zero weight where likelihood_potential is infinite or nan (whatever the temperature_increment)
+        return jnp.where(likelihood_potential < jnp.inf,
+                         - temperature_increment * likelihood_potential, -jnp.inf)
+
     @staticmethod
     def log_ess(previous_log_weight: jnp.ndarray,
                 current_temperature: float,
                 new_temperature: float,
                 likelihood_potential: jnp.ndarray) -> float:
-        log_weight = previous_log_weight - (new_temperature - current_temperature) * likelihood_potential
+        log_weight = previous_log_weight \
+                     + MetropolisedSMCSampler.log_weight_increment(new_temperature - current_temperature,
+                                                                   likelihood_potential)
         return log_ess_log_weight(log_weight)
 
     def next_temperature_adaptive(self,
@@ -313,7 +322,10 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                                   extra: cdict) -> float:
         temperature_bounds = jnp.array([ensemble_state.temperature[0], self.max_temperature])
         likelihood_potential = ensemble_state.likelihood_potential
-        log_n_samp_threshold = jnp.log(ensemble_state.ess[0] * self.parameters.ess_threshold_retain)
+        log_n_samp_threshold = self.log_ess(ensemble_state.log_weight,
+                                            temperature_bounds[0],
+                                            temperature_bounds[0],
+                                            likelihood_potential) + jnp.log(self.parameters.ess_threshold_retain)
 
         bisect_out_bounds, bisect_out_evals, bisect_out_iter \
             = bisect(lambda x: self.log_ess(ensemble_state.log_weight,
@@ -369,8 +381,8 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                    previous_extra: cdict,
                    new_ensemble_state: cdict,
                    new_extra: cdict) -> jnp.ndarray:
-        return - (new_ensemble_state.temperature[0] - previous_ensemble_state.temperature[0]) \
-               * new_ensemble_state.likelihood_potential
+        return self.log_weight_increment(new_ensemble_state.temperature[0] - previous_ensemble_state.temperature[0],
+                                         new_ensemble_state.likelihood_potential)
 
 
 class RMMetropolisedSMCSampler(MetropolisedSMCSampler):
-- 
2.43.0


From b0c0d8960edf28b24389900a8890a24c2f1447b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 03/42] fix: adaptive tempered SMC goes to the maximum
 temperature when that keeps enough effective samples

---
 mocat/src/transport/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index c4a0bd8..31e6cde 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -335,7 +335,10 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                      temperature_bounds,
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # Straight to max_temperature if that retains enough effective samples
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         self.max_temperature,
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
 
     def clean_mcmc_chain(self,
                          chain_state: cdict,
-- 
2.43.0


From 7ce943c9dcd1cc909bb307666ca153398c60265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 04/42] fix: ABC acceptance rate counts failed (nan)
 simulations as infinitely distant

---
 mocat/src/abc/importance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/importance.py b/mocat/src/abc/importance.py
index 5099c21..d828ba8 100644
--- a/mocat/src/abc/importance.py
+++ b/mocat/src/abc/importance.py
@@ -113,7 +113,9 @@ class VanillaABC(ImportanceABC):
     def clean_chain_ar(self,
                        abc_scenario: ABCScenario,
                        chain_state: cdict):
-        threshold = jnp.quantile(chain_state.distance, self.parameters.acceptance_rate)
+        # A failed simulation (nan) is further away than any other
+        distance = jnp.nan_to_num(chain_state.distance, nan=jnp.finfo(chain_state.distance.dtype).max)
+        threshold = jnp.quantile(distance, self.parameters.acceptance_rate)
         self.parameters.threshold = float(threshold)
         chain_state.log_weight = jnp.where(chain_state.distance < threshold,
                                            0.,
-- 
2.43.0


From d626e741425cb50d32e79fab877202aa19796863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 05/42] fix: ABC SMC gives no weight to failed (nan)
 simulations and keeps them out of the adaptive threshold

---
 mocat/src/abc/smc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 68d8feb..2686aea 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -163,14 +163,16 @@ class MetropolisedABCSMCSampler(ABCSMCSampler):
     def next_threshold_adaptive(self,
                                 state: cdict,
                                 extra: cdict) -> float:
-        return jnp.quantile(state.distance, extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size)
+        # A failed simulation (nan) is further away than any other
+        distance = jnp.nan_to_num(state.distance, nan=jnp.finfo(state.distance.dtype).max)
+        return jnp.quantile(distance, extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size)
 
     def log_weight(self,
                    previous_ensemble_state: cdict,
                    previous_extra: cdict,
                    new_ensemble_state: cdict,
                    new_extra: cdict) -> jnp.ndarray:
-        return jnp.where(new_ensemble_state.distance > new_extra.parameters.threshold, -jnp.inf, 0.)
+        return jnp.where(new_ensemble_state.distance <= new_extra.parameters.threshold, 0., -jnp.inf)
 
     def clean_mcmc_chain(self,
                          chain_state: cdict,
-- 
2.43.0


From ce87b18c77fa86d7ad96c9a52169478e6bc5077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 06/42] fix: adaptive ABC SMC threshold never rises above the
 current one

---
 mocat/src/abc/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 2686aea..9f1af57 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -165,7 +165,10 @@ class MetropolisedABCSMCSampler(ABCSMCSampler):
                                 extra: cdict) -> float:
         # A failed simulation (nan) is further away than any other
         distance = jnp.nan_to_num(state.distance, nan=jnp.finfo(state.distance.dtype).max)
-        return jnp.quantile(distance, extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size)
+        next_threshold = jnp.quantile(distance,
+                                      extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size)
+        # Interpolating between particles with and without weight could exceed the current threshold
+        return jnp.minimum(next_threshold, state.threshold[0])
 
     def log_weight(self,
                    previous_ensemble_state: cdict,
-- 
2.43.0


From dbe21dbcc48aa0e1bd51eafb1a54d32ec90e5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 07/42] fix: online particle filter keeps the observation axis
 of y

---
 mocat/src/ssm/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 8e2efe9..a22aa66 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -246,7 +246,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.log_weight = jnp.append(out_particles.log_weight, log_weight_new[jnp.newaxis], axis=0)
-    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis])
+    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis], axis=0)
     out_particles.t = jnp.append(out_particles.t, t_new)
     out_particles.ess = jnp.append(out_particles.ess, ess_log_weight(log_weight_new))
     return out_particles
-- 
2.43.0


From 67e5154d103ce8e716731ed04acc6ba0990818a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 08/42] fix: particle filters give no weight to particles with
 an undefined weight

---
 mocat/src/ssm/filtering.py        | 11 +++++++++--
 mocat/src/ssm/online_smoothing.py |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index a22aa66..7a0d980 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -17,6 +17,11 @@ from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.metrics import ess_log_weight
 
 
+def _nan_to_no_weight(log_weight: jnp.ndarray) -> jnp.ndarray:
+    # A particle with an undefined weight is treated as impossible
+    return jnp.where(jnp.isnan(log_weight), -jnp.inf, log_weight)
+
+
 class ParticleFilter:
     name = 'Particle Filter'
 
@@ -182,6 +187,8 @@ def initiate_particles(ssm_scenario: StateSpaceModel,
 
     init_vals, init_log_weight = particle_filter.initial_sample_and_weight_vectorised(ssm_scenario, y, t, sub_keys)
 
+    init_log_weight = _nan_to_no_weight(init_log_weight)
+
     if init_vals.ndim == 1:
         init_vals = init_vals[..., jnp.newaxis]
 
@@ -242,7 +249,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
                                                                                        x_previous, t_previous,
                                                                                        y_new, t_new, split_keys)
 
-    log_weight_new = log_weight_previous + log_weight_new
+    log_weight_new = _nan_to_no_weight(log_weight_previous + log_weight_new)
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.log_weight = jnp.append(out_particles.log_weight, log_weight_new[jnp.newaxis], axis=0)
@@ -300,7 +307,7 @@ def run_particle_filter_for_marginals(ssm_scenario: StateSpaceModel,
                                                                                            t[iter_ind],
                                                                                            split_keys)
 
-        log_weight_new = log_weight_res + log_weight_new
+        log_weight_new = _nan_to_no_weight(log_weight_res + log_weight_new)
 
         samps_new = samps_previous.copy()
         samps_new.value = x_new
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 3269826..3267032 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -13,7 +13,8 @@ from jax.lax import while_loop, cond, map
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
-from mocat.src.ssm.filtering import ParticleFilter, resample_particles, propagate_particle_filter
+from mocat.src.ssm.filtering import ParticleFilter, resample_particles, propagate_particle_filter, \
+    _nan_to_no_weight
 from mocat.src.ssm.backward import backward_simulation
 from mocat.src.metrics import ess_log_weight
 
@@ -240,6 +241,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                                                                                  x_previous, t_previous,
                                                                                                  y_new, t_new,
                                                                                                  split_keys)
+    out_particles.log_weight = _nan_to_no_weight(out_particles.log_weight)
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis], axis=0)
-- 
2.43.0


From 96132bdaf3742bc7ed2bf492b08403354550fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 09/42] fix: backward simulation and stitching never accept a
 transition with zero or undefined density

---
 mocat/src/ssm/backward.py         | 27 ++++++++++++++++++++-------
 mocat/src/ssm/online_smoothing.py | 17 ++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/mocat/src/ssm/backward.py b/mocat/src/ssm/backward.py
index ff332ba..8d6a691 100644
--- a/mocat/src/ssm/backward.py
+++ b/mocat/src/ssm/backward.py
@@ -14,7 +14,19 @@ from jax.lax import while_loop, scan, cond, map
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
-from mocat.src.ssm.filtering import ParticleFilter, run_particle_filter_for_marginals
+from mocat.src.ssm.filtering import ParticleFilter, run_particle_filter_for_marginals, _nan_to_no_weight
+
+
+def _transition_density(transition_potential: jnp.ndarray) -> jnp.ndarray:
+    # An undefined transition potential is treated as an impossible transition
+    return jnp.where(jnp.isnan(transition_potential), 0., jnp.exp(-transition_potential))
+
+
+def _rejected(uniforms: jnp.ndarray,
+              dens: jnp.ndarray,
+              bound: float) -> jnp.ndarray:
+    # Never accept a transition with zero density, whatever the bound (which itself may still be zero)
+    return jnp.logical_or(dens <= 0., uniforms > dens / bound)
 
 
 def full_resample_single(ssm_scenario: StateSpaceModel,
@@ -26,7 +38,7 @@ def full_resample_single(ssm_scenario: StateSpaceModel,
                          random_key: jnp.ndarray) -> jnp.ndarray:
     log_weight = x0_log_weight - vmap(ssm_scenario.transition_potential, (0, None, None, None))(x0_all, t,
                                                                                                 x1_single, tplus1)
-    return x0_all[random.categorical(random_key, log_weight)]
+    return x0_all[random.categorical(random_key, _nan_to_no_weight(log_weight))]
 
 
 def full_resampling(ssm_scenario: StateSpaceModel,
@@ -66,8 +78,8 @@ def rejection_proposal_single(ssm_scenario: StateSpaceModel,
         -> Tuple[jnp.ndarray, float, bool, jnp.ndarray]:
     random_key, choice_key, uniform_key = random.split(random_key, 3)
     x0_single = x0_all[random.categorical(choice_key, x0_log_weight)]
-    conditional_dens = jnp.exp(-ssm_scenario.transition_potential(x0_single, t, x1_single, tplus1))
-    return x0_single, conditional_dens, random.uniform(uniform_key) > conditional_dens / bound, random_key
+    conditional_dens = _transition_density(ssm_scenario.transition_potential(x0_single, t, x1_single, tplus1))
+    return x0_single, conditional_dens, _rejected(random.uniform(uniform_key), conditional_dens, bound), random_key
 
 
 def rejection_proposal_single_cond(not_yet_accepted: bool,
@@ -139,11 +151,12 @@ def rejection_resampling(ssm_scenario: StateSpaceModel,
 
     # Prerun to initiate bound
     x0_initial = x0_all[random.categorical(rejection_initial_keys[0], x0_log_weight, shape=(n,))]
-    initial_cond_dens = jnp.exp(-vmap(ssm_scenario.transition_potential,
-                                      (0, None, 0, None))(x0_initial, t, x1_all, tplus1))
+    initial_cond_dens = _transition_density(vmap(ssm_scenario.transition_potential,
+                                                 (0, None, 0, None))(x0_initial, t, x1_all, tplus1))
     max_cond_dens = jnp.max(initial_cond_dens)
     initial_bound = jnp.where(max_cond_dens > init_bound_param, max_cond_dens * bound_inflation, init_bound_param)
-    initial_not_yet_accepted_arr = random.uniform(rejection_initial_keys[1], (n,)) > initial_cond_dens / initial_bound
+    initial_not_yet_accepted_arr = _rejected(random.uniform(rejection_initial_keys[1], (n,)),
+                                             initial_cond_dens, initial_bound)
 
     out_tup = while_loop(lambda tup: jnp.logical_and(tup[0].sum() > 0, tup[-2] < maximum_rejections),
                          lambda tup: rejection_proposal_all(ssm_scenario, x0_all, t, x1_all, tplus1, x0_log_weight,
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 3267032..b673e82 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -15,7 +15,7 @@ from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.ssm.filtering import ParticleFilter, resample_particles, propagate_particle_filter, \
     _nan_to_no_weight
-from mocat.src.ssm.backward import backward_simulation
+from mocat.src.ssm.backward import backward_simulation, _transition_density, _rejected
 from mocat.src.metrics import ess_log_weight
 
 
@@ -28,7 +28,7 @@ def full_stitch_single(ssm_scenario: StateSpaceModel,
                        random_key: jnp.ndarray) -> jnp.ndarray:
     log_weight = x1_log_weight - vmap(ssm_scenario.transition_potential, (None, None, 0, None))(x0_single, t,
                                                                                                 x1_all, tplus1)
-    return random.categorical(random_key, log_weight)
+    return random.categorical(random_key, _nan_to_no_weight(log_weight))
 
 
 def full_stitch(ssm_scenario: StateSpaceModel,
@@ -68,8 +68,9 @@ def rejection_stitch_proposal_single(ssm_scenario: StateSpaceModel,
         -> Tuple[jnp.ndarray, float, bool, jnp.ndarray]:
     random_key, choice_key, uniform_key = random.split(random_key, 3)
     x1_single_ind = random.categorical(choice_key, x1_log_weight)
-    conditional_dens = jnp.exp(-ssm_scenario.transition_potential(x0_single, t, x1_all[x1_single_ind], tplus1))
-    return x1_single_ind, conditional_dens, random.uniform(uniform_key) > conditional_dens / bound, random_key
+    conditional_dens = _transition_density(ssm_scenario.transition_potential(x0_single, t,
+                                                                             x1_all[x1_single_ind], tplus1))
+    return x1_single_ind, conditional_dens, _rejected(random.uniform(uniform_key), conditional_dens, bound), random_key
 
 
 def rejection_stitch_proposal_single_cond(not_yet_accepted: bool,
@@ -142,11 +143,12 @@ def rejection_stitching(ssm_scenario: StateSpaceModel,
 
     # Prerun to initiate bound
     x1_initial_inds = random.categorical(rejection_initial_keys[0], x1_log_weight, shape=(n,))
-    initial_cond_dens = jnp.exp(-vmap(ssm_scenario.transition_potential,
-                                      (0, None, 0, None))(x0_all, t, x1_all[x1_initial_inds], tplus1))
+    initial_cond_dens = _transition_density(vmap(ssm_scenario.transition_potential,
+                                                 (0, None, 0, None))(x0_all, t, x1_all[x1_initial_inds], tplus1))
     max_cond_dens = jnp.max(initial_cond_dens)
     initial_bound = jnp.where(max_cond_dens > init_bound_param, max_cond_dens * bound_inflation, init_bound_param)
-    initial_not_yet_accepted_arr = random.uniform(rejection_initial_keys[1], (n,)) > initial_cond_dens / initial_bound
+    initial_not_yet_accepted_arr = _rejected(random.uniform(rejection_initial_keys[1], (n,)),
+                                             initial_cond_dens, initial_bound)
 
     out_tup = while_loop(lambda tup: jnp.logical_and(tup[0].sum() > 0, tup[-2] < maximum_rejections),
                          lambda tup: rejection_stitch_proposal_all(ssm_scenario, x0_all, t, x1_all, tplus1,
@@ -194,6 +196,7 @@ def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
     non_interacting_log_weight = recent_block_log_weight \
                                  + vmap(ssm_scenario.transition_potential, (0, None, 0, None))(x0_vary_all, t,
                                                                                                x1_vary_all, tplus1)
+    non_interacting_log_weight = _nan_to_no_weight(non_interacting_log_weight)
 
     recent_stitched_inds, num_transition_evals \
         = cond(maximum_rejections > 0,
-- 
2.43.0


From 525771824021cf62bbc7fa41dd0867842150fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 10/42] fix: particle filter resumed from given particles runs
 its startup

---
 mocat/src/ssm/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 7a0d980..2fcd715 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -277,6 +277,8 @@ def run_particle_filter_for_marginals(ssm_scenario: StateSpaceModel,
 
         initial_sample = initiate_particles(ssm_scenario, particle_filter, n, sub_key, init_y, t[0])
         t = t[1:]
+    else:
+        particle_filter.startup(ssm_scenario)
 
     if n is None:
         n = initial_sample.value.shape[1]
-- 
2.43.0


From 02c72246c5bd3cf7ecc1d3b48ae18ee35c34a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:30 +0000
Subject: [PATCH 11/42] fix: tempered EKI follows a schedule that does not
 start at zero from its first entry

---
 mocat/src/transport/teki.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index a2240f0..daf1f70 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -64,7 +64,9 @@ class TemperedEKI(TransportSampler):
             if value is not None:
                 self.max_temperature = value[-1]
                 self.max_iter = len(value)
-                self.next_temperature = lambda state, extra: self.temperature_schedule[extra.iter]
+                # A leading zero is the temperature of the initial ensemble
+                offset = 0 if value[0] == 0. else 1
+                self.next_temperature = lambda state, extra: self.temperature_schedule[extra.iter - offset]
 
     def startup(self,
                 scenario: Scenario,
-- 
2.43.0


From 98a32898180a2864370d45a1d4c00710e14f6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 12/42] fix: adaptive tempered EKI goes to the maximum
 temperature when that keeps enough effective samples

---
 mocat/src/transport/teki.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index daf1f70..7cd4e1d 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -184,4 +184,7 @@ class AdaptiveTemperedEKI(TemperedEKI):
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
 
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # Straight to max_temperature if that retains enough effective samples
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         self.max_temperature,
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
-- 
2.43.0


From 8985c28bbeb1bf1bc0511bc3f2d09a88d0ed0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 13/42] fix: IMQ kernel gradient in x accounts for the
 bandwidth

---
 mocat/src/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 5e962ea..a36ed87 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -191,7 +191,7 @@ class IMQ(Kernel):
                 beta: Union[float, jnp.ndarray],
                 bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
-        return diff * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
+        return diff / bandwidth * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
 
     @partial(jit, static_argnums=(0,))
     def _grad_y(self,
-- 
2.43.0


From 7d3f8ad2cfda1cd867ed5e7bc3d8269247f408b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 14/42] fix: event simulators report the populations in force,
 never let an impossible event happen or time go backwards

---
 mocat/src/abc/scenarios/SIR.py            |  9 +++++---
 mocat/src/abc/scenarios/lotka_volterra.py | 27 ++++++++++++++---------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/mocat/src/abc/scenarios/SIR.py b/mocat/src/abc/scenarios/SIR.py
index da3afa4..4fd4985 100644
--- a/mocat/src/abc/scenarios/SIR.py
+++ b/mocat/src/abc/scenarios/SIR.py
@@ -23,13 +23,16 @@ def sir_single_step(carry: Tuple[jnp.ndarray, float], extra: Tuple[jnp.ndarray,
     hazards = jnp.array([params[0] / population_size * si[0] * si[1],
                          params[1] * si[1]])
     sum_hazards = hazards.sum()
-    t_increment = -jnp.log(exponential_sample_buffer + random.uniform(t_key)) / sum_hazards
+    event_possible = sum_hazards > 0
+    t_increment = jnp.where(event_possible,
+                            jnp.maximum(-jnp.log(exponential_sample_buffer + random.uniform(t_key)), 0.) / sum_hazards,
+                            jnp.inf)
     hazard_probs = hazards / sum_hazards
 
     possibilities = jnp.array([[si[0] - 1, si[1] + 1],
                                [si[0], si[1] - 1]])
-    return (possibilities[random.choice(haz_key, 2, p=hazard_probs)], current_time + t_increment), \
-           (params, population_size, random_key)
+    new_si = jnp.where(event_possible, possibilities[random.choice(haz_key, 2, p=hazard_probs)], si)
+    return (new_si, current_time + t_increment), (params, population_size, random_key)
 
 
 def sir_simulate(initial_si: jnp.ndarray,
diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 1c66730..7be2303 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -24,13 +24,17 @@ def lotka_volterra_single_step(carry: Tuple[jnp.ndarray, float], extra: Tuple[jn
                          params[1] * prey_pred[0] * prey_pred[1],
                          params[2] * prey_pred[1]])
     sum_hazards = hazards.sum()
-    t_increment = -jnp.log(exponential_sample_buffer + random.uniform(t_key)) / sum_hazards
+    event_possible = sum_hazards > 0
+    t_increment = jnp.where(event_possible,
+                            jnp.maximum(-jnp.log(exponential_sample_buffer + random.uniform(t_key)), 0.) / sum_hazards,
+                            jnp.inf)
     hazard_probs = hazards / sum_hazards
 
     possibilities = jnp.array([[prey_pred[0] + 1, prey_pred[1]],
                                [prey_pred[0] - 1, prey_pred[1] + 1],
                                [prey_pred[0], prey_pred[1] - 1]])
-    return (possibilities[random.choice(haz_key, 3, p=hazard_probs)], current_time + t_increment), (params, random_key)
+    new_prey_pred = jnp.where(event_possible, possibilities[random.choice(haz_key, 3, p=hazard_probs)], prey_pred)
+    return (new_prey_pred, current_time + t_increment), (params, random_key)
 
 
 def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
@@ -40,14 +44,17 @@ def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
                             max_iter: int = 10000) -> jnp.ndarray:
     max_time = jnp.max(times)
 
-    (simulated_pred_prey, simulated_times), _, _ = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
-                                                                       lotka_volterra_single_step,
-                                                                       ((initial_prey_pred, times[0]),
-                                                                        (params, random_key)),
-                                                                       max_iter)
-
-    simulated_times = jnp.where(simulated_times == 0, jnp.inf, simulated_times)
-    return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:]) - 1]
+    (simulated_prey_pred, simulated_times), _, num_events \
+        = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
+                              lotka_volterra_single_step,
+                              ((initial_prey_pred, times[0]),
+                               (params, random_key)),
+                              max_iter)
+
+    # Rows beyond num_events are not part of the simulation
+    simulated_times = jnp.where(jnp.arange(max_iter) < num_events, simulated_times, jnp.inf)
+    all_prey_pred = jnp.append(initial_prey_pred[jnp.newaxis], simulated_prey_pred, axis=0)
+    return all_prey_pred[jnp.searchsorted(simulated_times, times[1:])]
 
 
 class LotkaVolterra(ABCScenario):
-- 
2.43.0


From ce773f8c1f686f290cffe090bc7f545169165a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 15/42] fix: particle filters and online smoothers draw
 resampling, proposals and stitching from separate keys

---
 mocat/src/ssm/filtering.py        | 12 +++++++-----
 mocat/src/ssm/online_smoothing.py | 10 ++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 2fcd715..8edf08e 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -233,9 +233,11 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
                               ess_threshold: float = 0.5,
                               resample_full: bool = True) -> cdict:
     n = particles.value.shape[1]
+    resample_key, proposal_key = random.split(random_key)
+
     ess_previous = particles.ess[-1]
     out_particles = cond(ess_previous < ess_threshold * n,
-                         lambda p: resample_particles(p, random_key, resample_full),
+                         lambda p: resample_particles(p, resample_key, resample_full),
                          lambda p: p,
                          particles)
 
@@ -243,7 +245,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
     log_weight_previous = out_particles.log_weight[-1]
     t_previous = out_particles.t[-1]
 
-    split_keys = random.split(random_key, n)
+    split_keys = random.split(proposal_key, n)
 
     x_new, log_weight_new = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                        x_previous, t_previous,
@@ -290,17 +292,17 @@ def run_particle_filter_for_marginals(ssm_scenario: StateSpaceModel,
                              iter_ind: int) -> Tuple[cdict, cdict]:
         x_previous = samps_previous.value
         log_weight_previous = samps_previous.log_weight
-        int_rand_key = int_rand_keys[iter_ind]
+        resample_key, proposal_key = random.split(int_rand_keys[iter_ind])
 
         ess_previous = samps_previous.ess
         resample_bool = ess_previous < (ess_threshold * n)
         x_res = cond(resample_bool,
                      _resample,
                      lambda tup: tup[0],
-                     (x_previous, log_weight_previous, int_rand_key))
+                     (x_previous, log_weight_previous, resample_key))
         log_weight_res = jnp.where(resample_bool, jnp.zeros(n), log_weight_previous)
 
-        split_keys = random.split(int_rand_key, len(x_previous))
+        split_keys = random.split(proposal_key, len(x_previous))
 
         x_new, log_weight_new = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                            x_res,
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index b673e82..d6c3155 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -228,9 +228,11 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
 
     n = particles.value.shape[1]
 
+    resample_key, proposal_key, stitch_key = random.split(random_key, 3)
+
     # Check particles are unweighted
     out_particles = cond(ess_log_weight(jnp.atleast_2d(particles.log_weight)[-1]) < (n - 1e-3),
-                         lambda p: resample_particles(p, random_key, True),
+                         lambda p: resample_particles(p, resample_key, True),
                          lambda p: p.copy(),
                          particles)
     out_particles.log_weight = jnp.zeros(n)
@@ -238,7 +240,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     x_previous = out_particles.value[-1]
     t_previous = out_particles.t[-1]
 
-    split_keys = random.split(random_key, len(x_previous))
+    split_keys = random.split(proposal_key, len(x_previous))
 
     x_new, out_particles.log_weight = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                                  x_previous, t_previous,
@@ -277,7 +279,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                                                         out_particles.value[stitch_ind_min_1:],
                                                                         out_particles.log_weight,
                                                                         out_particles.t[stitch_ind],
-                                                                        random_key,
+                                                                        stitch_key,
                                                                         maximum_rejections,
                                                                         init_bound_param,
                                                                         bound_inflation)
@@ -351,7 +353,7 @@ def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                                backward_sim.value,
                                                jnp.zeros(n),
                                                out_particles.t[stitch_ind],
-                                               random_key,
+                                               split_keys[3],
                                                maximum_rejections,
                                                init_bound_param,
                                                bound_inflation)
-- 
2.43.0


From 81cb5e008fe6fc26aa7892a26bbb8dddd8a7b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 16/42] fix: durations are measured with a clock that cannot be
 stepped, chaining adds the parts of a duration too

---
 mocat/src/core.py         | 2 +-
 mocat/src/sample.py       | 6 +++---
 mocat/src/ssm/backward.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index 620b482..156b254 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -71,7 +71,7 @@ class cdict:
                                                           jnp.atleast_1d(other_attr_atl), axis=0))
                 elif ((isinstance(attr, cdict) and not isinstance(attr, static_cdict)) \
                       and isinstance(other_attr_atl, cdict) and not isinstance(other_attr_atl, static_cdict)) \
-                        or key == 'time':
+                        or key in ('time', 'pf_time', 'bsi_time'):
                     out_cdict.__setattr__(key, attr_atl + other_attr_atl)
         return out_cdict
 
diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index 9fdd73a..af02aa4 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -8,7 +8,7 @@
 import copy
 from typing import Tuple, Union, Type
 from functools import partial
-from time import time
+from time import perf_counter
 from inspect import isclass
 
 from jax import numpy as jnp, jit
@@ -132,7 +132,7 @@ def run(scenario: Scenario,
 
     transport_kernel = partial(sampler.update, scenario)
 
-    start = time()
+    start = perf_counter()
     chain = while_loop_stacked(lambda state, extra: ~sampler.termination_criterion(state, extra),
                                transport_kernel,
                                (initial_state, initial_extra),
@@ -140,7 +140,7 @@ def run(scenario: Scenario,
     chain = initial_state[jnp.newaxis] + chain
     chain = sampler.clean_chain(scenario, chain)
     chain.value.block_until_ready()
-    end = time()
+    end = perf_counter()
     chain.time = end - start
 
     chain.summary = summary
diff --git a/mocat/src/ssm/backward.py b/mocat/src/ssm/backward.py
index 8d6a691..583063d 100644
--- a/mocat/src/ssm/backward.py
+++ b/mocat/src/ssm/backward.py
@@ -6,7 +6,7 @@
 ########################################################################################################################
 
 from typing import Tuple
-from time import time
+from time import perf_counter
 from functools import partial
 
 from jax import numpy as jnp, random, vmap, jit
@@ -299,7 +299,7 @@ def forward_filtering_backward_simulation(ssm_scenario: StateSpaceModel,
     if n_pf is None:
         n_pf = n_samps
 
-    pf_start = time()
+    pf_start = perf_counter()
     pf_samps = run_particle_filter_for_marginals(ssm_scenario,
                                                  particle_filter,
                                                  y,
@@ -308,7 +308,7 @@ def forward_filtering_backward_simulation(ssm_scenario: StateSpaceModel,
                                                  n=n_pf,
                                                  ess_threshold=ess_threshold)
     pf_samps.value.block_until_ready()
-    pf_end = time()
+    pf_end = perf_counter()
 
     bsi_samps = backward_simulation(ssm_scenario,
                                     pf_samps,
@@ -319,7 +319,7 @@ def forward_filtering_backward_simulation(ssm_scenario: StateSpaceModel,
                                     bound_inflation)
 
     bsi_samps.value.block_until_ready()
-    bsi_end = time()
+    bsi_end = perf_counter()
 
     bsi_samps.time = bsi_end - pf_start
     bsi_samps.pf_time = pf_end - pf_start
-- 
2.43.0


From 6f867a0a5534ffb6452ee55fd1cbcca519db27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 17/42] fix: a run leaves its initial state and extra and the
 sampler's batch size untouched

---
 mocat/src/sample.py         |  5 +++++
 mocat/src/transport/svgd.py | 12 +++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index af02aa4..ad5aae4 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -12,6 +12,7 @@ from time import perf_counter
 from inspect import isclass
 
 from jax import numpy as jnp, jit
+from jax.tree_util import tree_map
 from mocat.src.core import cdict, static_cdict, Scenario
 from mocat.utils import while_loop_stacked
 
@@ -120,6 +121,10 @@ def run(scenario: Scenario,
 
     sampler.n = n
 
+    # Leave the given initial_state and initial_extra untouched
+    initial_state = tree_map(lambda x: x, initial_state)
+    initial_extra = tree_map(lambda x: x, initial_extra)
+
     if initial_extra is None:
         initial_extra = cdict()
     if random_key is not None:
diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 18f41d7..96167fb 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -82,14 +82,16 @@ class SVGD(TransportSampler):
                 **kwargs) -> Tuple[cdict, cdict]:
         initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
 
-        if self.parameters.ensemble_batchsize is None:
-            self.parameters.ensemble_batchsize = n
-            initial_extra.parameters.ensemble_batchsize = n
+        ensemble_batchsize = n if self.parameters.ensemble_batchsize is None else self.parameters.ensemble_batchsize
+        initial_extra.parameters.ensemble_batchsize = ensemble_batchsize
 
-        if self.parameters.ensemble_batchsize == n:
+        if ensemble_batchsize == n:
             self.get_batch_inds = lambda _: jnp.repeat(jnp.arange(n)[None], n, axis=0)
         else:
-            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, self.parameters.ensemble_batchsize,))
+            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, ensemble_batchsize,))
+
+        # Adapted during the run
+        initial_extra.parameters.kernel_params = initial_extra.parameters.kernel_params.copy()
 
         del initial_extra.parameters.stepsize
 
-- 
2.43.0


From 2a32268ba468a969c1650a8a4a7e71ac958ceccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 18/42] fix: a run that fails leaves the scenario at its
 temperature

---
 mocat/src/sample.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index ad5aae4..eda8c7d 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -130,23 +130,30 @@ def run(scenario: Scenario,
     if random_key is not None:
         initial_extra.random_key = random_key
 
-    initial_state, initial_extra = sampler.startup(scenario, n, initial_state, initial_extra,
-                                                   **kwargs)
-
-    summary = sampler.summary(scenario, initial_state, initial_extra)
-
-    transport_kernel = partial(sampler.update, scenario)
-
-    start = perf_counter()
-    chain = while_loop_stacked(lambda state, extra: ~sampler.termination_criterion(state, extra),
-                               transport_kernel,
-                               (initial_state, initial_extra),
-                               sampler.max_iter)
-    chain = initial_state[jnp.newaxis] + chain
-    chain = sampler.clean_chain(scenario, chain)
-    chain.value.block_until_ready()
-    end = perf_counter()
-    chain.time = end - start
+    temperature = getattr(scenario, 'temperature', None)
+    try:
+        initial_state, initial_extra = sampler.startup(scenario, n, initial_state, initial_extra,
+                                                       **kwargs)
+
+        summary = sampler.summary(scenario, initial_state, initial_extra)
+
+        transport_kernel = partial(sampler.update, scenario)
+
+        start = perf_counter()
+        chain = while_loop_stacked(lambda state, extra: ~sampler.termination_criterion(state, extra),
+                                   transport_kernel,
+                                   (initial_state, initial_extra),
+                                   sampler.max_iter)
+        chain = initial_state[jnp.newaxis] + chain
+        chain = sampler.clean_chain(scenario, chain)
+        chain.value.block_until_ready()
+        end = perf_counter()
+        chain.time = end - start
+    except BaseException:
+        # Samplers that temper the scenario are not to leave it at an intermediate temperature
+        if temperature is not None:
+            scenario.temperature = temperature
+        raise
 
     chain.summary = summary
 
-- 
2.43.0


From e3ee76f08671c4dcb21db39bd3567921340f4bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 19/42] fix: leapfrog follows changes of the scenario's
 settings

---
 mocat/src/mcmc/qn_underdamped.py | 4 +---
 mocat/src/utils.py               | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/mocat/src/mcmc/qn_underdamped.py b/mocat/src/mcmc/qn_underdamped.py
index 6f1e3e6..8955187 100644
--- a/mocat/src/mcmc/qn_underdamped.py
+++ b/mocat/src/mcmc/qn_underdamped.py
@@ -5,11 +5,10 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Tuple, Union, Callable
 
 import jax.numpy as jnp
-from jax import random, jit, vmap
+from jax import random, vmap
 from jax.lax import scan
 
 from mocat.src.core import cdict, Scenario
@@ -223,7 +222,6 @@ class QNUnderdamped(MCMCSampler):
         return alpha
 
 
-@partial(jit, static_argnums=(0, 1))
 def _bfgs_leapfrog(prior_potential_and_grad: Callable,
                    likelihood_potential_and_grad: Callable,
                    state: cdict,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 15aead8..5f14feb 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -105,7 +105,6 @@ def gaussian_potential(x: jnp.ndarray,
     return out_val + neg_log_z
 
 
-@partial(jit, static_argnums=(0, 1))
 def _leapfrog(prior_potential_and_grad: Callable,
               likelihood_potential_and_grad: Callable,
               state: cdict,
-- 
2.43.0


From b66253189f8171a84ccb06297a48bc785141cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 20/42] fix: compiled state-space routines follow changes of
 the settings of model and filter

---
 mocat/src/ssm/backward.py           |  7 ++---
 mocat/src/ssm/filtering.py          | 11 ++++----
 mocat/src/ssm/nonlinear_gaussian.py |  8 +++---
 mocat/src/ssm/online_smoothing.py   |  9 ++++---
 mocat/src/utils.py                  | 40 ++++++++++++++++++++++++++++-
 5 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/mocat/src/ssm/backward.py b/mocat/src/ssm/backward.py
index 583063d..4d02ee0 100644
--- a/mocat/src/ssm/backward.py
+++ b/mocat/src/ssm/backward.py
@@ -9,12 +9,13 @@ from typing import Tuple
 from time import perf_counter
 from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, scan, cond, map
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.ssm.filtering import ParticleFilter, run_particle_filter_for_marginals, _nan_to_no_weight
+from mocat.src.utils import jit_settings
 
 
 def _transition_density(transition_potential: jnp.ndarray) -> jnp.ndarray:
@@ -184,7 +185,7 @@ def rejection_resampling(ssm_scenario: StateSpaceModel,
     return final_particles, num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 2))
+@partial(jit_settings, settings_argnums=(0,), static_argnums=(2,))
 def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
                                   marginal_particles: cdict,
                                   n_samps: int,
@@ -224,7 +225,7 @@ def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
     return out_samps
 
 
-@partial(jit, static_argnums=(0, 2))
+@partial(jit_settings, settings_argnums=(0,), static_argnums=(2,))
 def backward_simulation_full(ssm_scenario: StateSpaceModel,
                              marginal_particles: cdict,
                              n_samps: int,
diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 8edf08e..3d61365 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -9,12 +9,13 @@ from functools import partial
 from typing import Union, Tuple
 
 import jax.numpy as jnp
-from jax import random, vmap, jit
+from jax import random, vmap
 from jax.lax import cond, scan
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.metrics import ess_log_weight
+from mocat.src.utils import jit_settings
 
 
 def _nan_to_no_weight(log_weight: jnp.ndarray) -> jnp.ndarray:
@@ -58,7 +59,7 @@ class ParticleFilter:
                            t: float) -> Union[float, jnp.ndarray]:
         return -ssm_scenario.likelihood_potential(x, y, t)
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def initial_sample_vectorised(self,
                                   ssm_scenario: StateSpaceModel,
                                   y: jnp.ndarray,
@@ -67,7 +68,7 @@ class ParticleFilter:
         init_vals = vmap(self.initial_sample, (None, None, None, 0))(ssm_scenario, y, t, random_keys)
         return init_vals
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def initial_sample_and_weight_vectorised(self,
                                              ssm_scenario: StateSpaceModel,
                                              y: jnp.ndarray,
@@ -112,7 +113,7 @@ class ParticleFilter:
                - ssm_scenario.likelihood_potential(x_new, y_new, t_new) \
                + self.proposal_potential(ssm_scenario, x_previous, t_previous, x_new, y_new, t_new)
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def proposal_sample_vectorised(self,
                                    ssm_scenario: StateSpaceModel,
                                    x_previous: jnp.ndarray,
@@ -126,7 +127,7 @@ class ParticleFilter:
                                                                            random_keys)
         return x_new
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: StateSpaceModel,
                                                    x_previous: jnp.ndarray,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index c5f1f9d..0324228 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -9,10 +9,10 @@
 from functools import partial
 from typing import Union, Any, Tuple
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 
 from mocat.src.ssm.ssm import StateSpaceModel
-from mocat.src.utils import gaussian_potential, extract_dimension, reset_covariance, kalman_gain
+from mocat.src.utils import gaussian_potential, extract_dimension, reset_covariance, kalman_gain, jit_settings
 from mocat.src.ssm.filtering import ParticleFilter
 
 
@@ -261,7 +261,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                                    sqrt_prec=self.weight_precision_sqrt,
                                    det_prec=self.weight_precision_det)
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
@@ -322,7 +322,7 @@ class EnsembleKalmanFilter(ParticleFilter):
                  + random.normal(random_keys[0], shape=rand_shape) @ self.initial_conditioned_covariance_sqrt
         return init_x, jnp.zeros(len(random_keys))
 
-    @partial(jit, static_argnums=(0, 1))
+    @partial(jit_settings, settings_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index d6c3155..9c8861a 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -8,7 +8,7 @@
 from typing import Tuple
 from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, cond, map
 
 from mocat.src.core import cdict
@@ -17,6 +17,7 @@ from mocat.src.ssm.filtering import ParticleFilter, resample_particles, propagat
     _nan_to_no_weight
 from mocat.src.ssm.backward import backward_simulation, _transition_density, _rejected
 from mocat.src.metrics import ess_log_weight
+from mocat.src.utils import jit_settings
 
 
 def full_stitch_single(ssm_scenario: StateSpaceModel,
@@ -177,7 +178,7 @@ def rejection_stitching(ssm_scenario: StateSpaceModel,
     return x1_final_inds, num_transition_evals
 
 
-@partial(jit, static_argnums=(0,))
+@partial(jit_settings, settings_argnums=(0,))
 def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
                         early_block: jnp.ndarray,
                         t: float,
@@ -212,7 +213,7 @@ def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
     return jnp.append(early_block, recent_block[1:, recent_stitched_inds], axis=0), num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 1, 6, 7))
+@partial(jit_settings, settings_argnums=(0, 1), static_argnums=(6, 7))
 def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
@@ -288,7 +289,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     return out_particles
 
 
-@partial(jit, static_argnums=(0, 1, 6, 8))
+@partial(jit_settings, settings_argnums=(0, 1), static_argnums=(6, 8))
 def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 5f14feb..082e6ec 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -5,7 +5,8 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
+from functools import partial, wraps
+from inspect import signature
 from typing import Any, Union, Callable, Tuple
 from warnings import warn
 
@@ -14,6 +15,43 @@ from jax.lax import scan, while_loop, cond
 from mocat.src.core import cdict
 
 
+class _CurrentSettings:
+    # Static argument of a compiled function, recognised by its identity and present attributes
+    def __init__(self, obj: Any):
+        self.obj = obj
+        self.settings = dict(vars(obj))
+
+    def __hash__(self) -> int:
+        return hash((id(self.obj), frozenset((key, id(value)) for key, value in self.settings.items())))
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _CurrentSettings) and self.obj is other.obj \
+            and self.settings.keys() == other.settings.keys() \
+            and all(value is other.settings[key] for key, value in self.settings.items())
+
+
+def jit_settings(func: Callable,
+                 settings_argnums: Tuple[int, ...],
+                 static_argnums: Tuple[int, ...] = ()) -> Callable:
+    # jit where the arguments settings_argnums are objects (e.g. scenarios) whose attributes enter as constants,
+    # compiled again when an attribute of one of them has been changed
+    settings_names = [list(signature(func).parameters)[i] for i in settings_argnums]
+
+    @wraps(func)
+    def unwrapped_func(*args, **kwargs):
+        return func(*(a.obj if isinstance(a, _CurrentSettings) else a for a in args),
+                    **{k: a.obj if isinstance(a, _CurrentSettings) else a for k, a in kwargs.items()})
+
+    jit_func = jit(unwrapped_func, static_argnums=settings_argnums + static_argnums)
+
+    @wraps(func)
+    def wrapped_func(*args, **kwargs):
+        return jit_func(*(_CurrentSettings(a) if i in settings_argnums else a for i, a in enumerate(args)),
+                        **{k: _CurrentSettings(a) if k in settings_names else a for k, a in kwargs.items()})
+
+    return wrapped_func
+
+
 @partial(jit, static_argnums=(0,))
 def leave_one_out_indices(n: int,
                           remove_index: int) -> jnp.ndarray:
-- 
2.43.0


From d18e9f491680fa3a54fef3d91a5e80830d14a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 21/42] fix: Gaussian and Gaussian mixture scenarios follow
 changes of their settings

---
 mocat/src/scenarios/toy_examples.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 40242b6..d059a9d 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -46,7 +46,7 @@ class Gaussian(Scenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
@@ -59,7 +59,7 @@ class GaussianMixture(Scenario):
                  covariances: jnp.ndarray = None,
                  weights: jnp.ndarray = None,
                  **kwargs):
-        self.means = means[:, jnp.newaxis] if means.ndim == 1 else means
+        self.means = means
         self.dim = self.means.shape[-1]
         if weights is None:
             # Default: equal mixture weights
@@ -71,7 +71,9 @@ class GaussianMixture(Scenario):
         super().__init__(**kwargs)
 
     def __setattr__(self, key, value):
-        self.__dict__[key] = value
+        if key == 'means' and value.ndim == 1:
+            value = value[:, jnp.newaxis]
+        super().__setattr__(key, value)
         if key == 'covariances':
             if value is None:
                 # Default: identity covariances
@@ -83,11 +85,13 @@ class GaussianMixture(Scenario):
             self.precision_sqrts = vmap(jnp.linalg.cholesky)(self.precisions)
             self.precision_dets = vmap(jnp.linalg.det)(self.precisions)
 
-            self.component_potential = jit(self.component_potential)
+        if key in ('means', 'weights', 'covariances'):
+            # Compile anew, the settings are constants of the compiled functions
+            cls = self.__class__
+            self.component_potential = jit(lambda x, component_index: cls.component_potential(self, x, component_index))
             self.component_potentials = jit(vmap(self.component_potential, (None, 0), 0))
-            self.component_dens = jit(self.component_dens)
-            self.dens = jit(self.dens)
-            self.component_potential = jit(self.component_potential)
+            self.component_dens = jit(lambda x, component_index: cls.component_dens(self, x, component_index))
+            self.dens = jit(lambda x: cls.dens(self, x))
 
     @property
     def n_components(self) -> int:
-- 
2.43.0


From d56a3a6f58e1ceeabc904eb8df290f1f6b690e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 22/42] fix: dim_obs follows the likelihood matrix, linear
 Gaussian scenario's gradients follow its potentials

---
 mocat/src/abc/scenarios/linear_gaussian.py       | 5 +++--
 mocat/src/ssm/linear_gaussian/linear_gaussian.py | 4 ++--
 mocat/src/ssm/nonlinear_gaussian.py              | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mocat/src/abc/scenarios/linear_gaussian.py b/mocat/src/abc/scenarios/linear_gaussian.py
index 0f29311..5158b2d 100644
--- a/mocat/src/abc/scenarios/linear_gaussian.py
+++ b/mocat/src/abc/scenarios/linear_gaussian.py
@@ -49,7 +49,6 @@ class LinearGaussian(ABCScenario):
 
         if isinstance(likelihood_matrix, float):
             likelihood_matrix = jnp.eye(self.dim) * likelihood_matrix
-        self.dim_obs = likelihood_matrix.shape[0]
         self.likelihood_matrix = likelihood_matrix
 
         if isinstance(likelihood_covariance, float):
@@ -61,7 +60,9 @@ class LinearGaussian(ABCScenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
+        if key == 'likelihood_matrix':
+            self.dim_obs = value.shape[0]
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
diff --git a/mocat/src/ssm/linear_gaussian/linear_gaussian.py b/mocat/src/ssm/linear_gaussian/linear_gaussian.py
index 038e16f..3ed2491 100644
--- a/mocat/src/ssm/linear_gaussian/linear_gaussian.py
+++ b/mocat/src/ssm/linear_gaussian/linear_gaussian.py
@@ -195,8 +195,6 @@ class TimeHomogenousLinearGaussian(LinearGaussian):
             likelihood_matrix = jnp.eye(self.dim)
         self.likelihood_matrix = likelihood_matrix
 
-        self.dim_obs = self.likelihood_matrix.shape[0]
-
         if likelihood_covariance is None:
             likelihood_covariance = jnp.eye(self.dim_obs)
         self.likelihood_covariance = likelihood_covariance
@@ -205,6 +203,8 @@ class TimeHomogenousLinearGaussian(LinearGaussian):
                     key: str,
                     value: Any):
         self.__dict__[key] = value
+        if key == 'likelihood_matrix':
+            self.dim_obs = value.shape[0]
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 0324228..e98dbf4 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -62,7 +62,6 @@ class NonLinearGaussian(StateSpaceModel):
             likelihood_matrix = jnp.eye(self.dim, dtype='float32')
 
         self.likelihood_matrix = likelihood_matrix
-        self.dim_obs = self.likelihood_matrix.shape[0]
 
         if likelihood_covariance is None:
             likelihood_covariance = jnp.eye(self.dim_obs)
@@ -74,6 +73,8 @@ class NonLinearGaussian(StateSpaceModel):
                     key: str,
                     value: Any):
         self.__dict__[key] = value
+        if key == 'likelihood_matrix':
+            self.dim_obs = value.shape[0]
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
-- 
2.43.0


From da0c9cddeecc13009554a62d7b55a9cf03abaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 23/42] fix: TemperedEKI returns to its temperature rule when
 the schedule is removed

---
 mocat/src/transport/teki.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 7cd4e1d..c940b4c 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -59,9 +59,16 @@ class TemperedEKI(TransportSampler):
         self.prior_stds = None
 
     def __setattr__(self, key, value):
+        previous_schedule = getattr(self, 'temperature_schedule', None)
         super().__setattr__(key, value)
         if key == 'temperature_schedule':
-            if value is not None:
+            if value is None:
+                if previous_schedule is not None:
+                    # Back to next_temperature of the class or the default
+                    self.__dict__.pop('next_temperature', None)
+                    if self.max_iter == len(previous_schedule):
+                        self.max_iter = int(1e4)
+            else:
                 self.max_temperature = value[-1]
                 self.max_iter = len(value)
                 # A leading zero is the temperature of the initial ensemble
-- 
2.43.0


From 922b657eade6d3d14a14f84f9172e49a2a040d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 24/42] fix: ABC SMC threshold_schedule can be set to None when
 it is None

---
 mocat/src/abc/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 9f1af57..6d84326 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -33,7 +33,8 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
     def __setattr__(self, key, value):
         if key == 'threshold_schedule':
             if value is None:
-                if hasattr(self, 'threshold_schedule') and self.max_iter == len(self.threshold_schedule):
+                if hasattr(self, 'threshold_schedule') and self.threshold_schedule is not None \
+                        and self.max_iter == len(self.threshold_schedule):
                     self.max_iter = int(1e4)
                 self.next_threshold = self.next_threshold_adaptive
             else:
-- 
2.43.0


From 07f8bc23d2551f35efa7ca1bbea8533a5d2ad1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 25/42] fix: gradients of a state-space model follow changes of
 its potentials, likelihood_potential_and_grad is that of the likelihood

---
 mocat/src/ssm/ssm.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index 6891181..ed9113e 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -29,17 +29,22 @@ class StateSpaceModel:
         for key, value in kwargs.items():
             setattr(self, key, value)
 
+        # Potentials are looked up when evaluated, so that gradients follow any change to them
+        initial_potential = lambda *args, **kwargs: self.initial_potential(*args, **kwargs)
+        transition_potential = lambda *args, **kwargs: self.transition_potential(*args, **kwargs)
+        likelihood_potential = lambda *args, **kwargs: self.likelihood_potential(*args, **kwargs)
+
         if not hasattr(self, 'grad_initial_potential'):
-            self.grad_initial_potential = grad(self.initial_potential)
-            self.initial_potential_and_grad = value_and_grad(self.initial_potential)
+            self.grad_initial_potential = grad(initial_potential)
+            self.initial_potential_and_grad = value_and_grad(initial_potential)
 
         if not hasattr(self, 'grad_transition_potential'):
-            self.grad_transition_potential = grad(self.transition_potential, argnums=(0, 2))
-            self.transition_potential_and_grad = value_and_grad(self.transition_potential, argnums=(0, 2))
+            self.grad_transition_potential = grad(transition_potential, argnums=(0, 2))
+            self.transition_potential_and_grad = value_and_grad(transition_potential, argnums=(0, 2))
 
         if not hasattr(self, 'grad_likelihood_potential'):
-            self.grad_likelihood_potential = grad(self.likelihood_potential)
-            self.likelihood_potential_and_grad = value_and_grad(self.initial_potential)
+            self.grad_likelihood_potential = grad(likelihood_potential)
+            self.likelihood_potential_and_grad = value_and_grad(likelihood_potential)
 
     def __repr__(self):
         return f"mocat.StateSpaceModel.{self.__class__.__name__}"
-- 
2.43.0


From 231b20c7643bff35387839bd29f63140303bb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 26/42] fix: TemperedEKI takes the ensemble spread on the scale
 of the scenario it is run on

---
 mocat/src/transport/teki.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index c940b4c..765fc38 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -86,12 +86,14 @@ class TemperedEKI(TransportSampler):
         if not hasattr(scenario, 'data') or scenario.data is None:
             raise AttributeError(f'{self.name} requires scenario to have data attribute != None')
 
-        if self.ensemble_std is None:
+        # ensemble_std of this run, self.ensemble_std takes precedence if given
+        self.run_ensemble_std = self.ensemble_std
+        if self.run_ensemble_std is None:
             ensemble_std = lambda vals: jnp.std(vals, axis=0, ddof=1)
             if hasattr(scenario, 'constrain'):
-                self.ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
+                self.run_ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
             else:
-                self.ensemble_std = ensemble_std
+                self.run_ensemble_std = ensemble_std
 
         if not hasattr(self, 'next_temperature'):
             # gamm = scenario.dim ** -0.5
@@ -119,7 +121,7 @@ class TemperedEKI(TransportSampler):
                               extra: cdict) -> bool:
         return jnp.any(jnp.array([ensemble_state.temperature >= self.max_temperature,
                                   extra.iter >= self.max_iter,
-                                  jnp.all(self.ensemble_std(ensemble_state.value) <
+                                  jnp.all(self.run_ensemble_std(ensemble_state.value) <
                                           (extra.parameters.term_std * self.prior_stds)),
                                   jnp.any(jnp.isnan(ensemble_state.value))]))
 
-- 
2.43.0


From 2dd15a88555a47ed26db6b70768e8341bf657b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 27/42] fix: TemperedEKI compares the ensemble spread with the
 initial spread on the same scale

---
 mocat/src/transport/teki.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 765fc38..61e9c17 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -108,7 +108,7 @@ class TemperedEKI(TransportSampler):
             initial_state.simulated_data = vmap(scenario.likelihood_sample)(initial_state.value,
                                                                             random_keys[:n])
 
-        self.prior_stds = jnp.std(initial_state.value, axis=0, ddof=1)
+        self.prior_stds = self.run_ensemble_std(initial_state.value)
 
         initial_state.temperature = 0.
         initial_extra.data = scenario.data
-- 
2.43.0


From 494d9b08070ce919d06c278f3f00b693e59c580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 28/42] fix: gradients and tempering follow a potential
 assigned to a scenario

---
 mocat/src/core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index 156b254..431af09 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -141,15 +141,16 @@ def is_implemented(func):
 
 def clean_1d(scen, attr):
     if hasattr(scen, attr) and is_implemented(getattr(scen, attr)):
-        setattr(scen, '_' + attr, getattr(scen, attr))
+        func = getattr(scen, attr)
+        setattr(scen, '_' + attr, func)
 
         def cleaned_func(x: Union[jnp.ndarray, float],
                          random_key: jnp.ndarray) -> float:
             x = jnp.atleast_1d(x)
             x = jnp.reshape(x, (x.size, 1))
-            return jnp.squeeze(getattr(scen, '_' + attr)(x, random_key))
+            return jnp.squeeze(func(x, random_key))
 
-        setattr(scen, attr, cleaned_func)
+        scen.__dict__[attr] = cleaned_func
 
 
 class Scenario:
@@ -200,7 +201,7 @@ class Scenario:
                 = lambda x, temperature, random_key=None: self.prior_potential(x, random_key) \
                                                           + temperature * self.likelihood_potential(x, random_key)
 
-            self.potential = lambda x, random_key=None: self.tempered_potential(x, self.temperature, random_key)
+            self.init_potential()
 
         if init_grad:
             self.init_grad()
@@ -208,8 +209,19 @@ class Scenario:
     def __setattr__(self, key, value):
         self.__dict__[key] = value
         if key in ('potential', 'prior_potential', 'likelihood_potential') and hasattr(self, 'grad_potential'):
+            if key == 'potential':
+                # As at initiation, a potential given on its own is a likelihood without prior
+                key = 'likelihood_potential'
+                self.__dict__[key] = value
+                self.__dict__['prior_potential'] = lambda x, random_key=None: jnp.array(0.)
+                self.init_potential()
+            if self.dim == 1:
+                clean_1d(self, key)
             self.init_grad()
 
+    def init_potential(self):
+        self.__dict__['potential'] = lambda x, random_key=None: self.tempered_potential(x, self.temperature, random_key)
+
     def init_grad(self):
         self.grad_prior_potential = grad(self.prior_potential)
         self.prior_potential_and_grad = value_and_grad(self.prior_potential)
-- 
2.43.0


From d1fac293e1177286a13a52751c281ec9566c0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 29/42] fix: SVGD kernel parameters follow a kernel assigned to
 the sampler

---
 mocat/src/transport/svgd.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 96167fb..f23546d 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -61,19 +61,26 @@ class SVGD(TransportSampler):
             if not is_implemented(self.adapt):
                 self.adapt = adapt_bandwidth_mean
 
-        if kernel_params is None:
-            kernel_params = kernel.parameters
-
         self.parameters.stepsize = stepsize
 
         self.kernel = kernel
-        self.parameters.kernel_params = kernel_params
+        if kernel_params is not None:
+            self.parameters.kernel_params = kernel_params
 
         self.parameters.ensemble_batchsize = ensemble_batchsize
 
         self.optimiser = optimiser
         self.parameters.optim_params = optim_params
 
+    @property
+    def kernel(self) -> Kernel:
+        return self._kernel
+
+    @kernel.setter
+    def kernel(self, kernel: Kernel):
+        self._kernel = kernel
+        self.parameters.kernel_params = kernel.parameters
+
     def startup(self,
                 scenario: Scenario,
                 n: int,
-- 
2.43.0


From a3679fa50b4bcb4e4c874c518e9d73dbdecbb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 30/42] fix: VanillaABC follows changes of its acceptance rate

---
 mocat/src/abc/importance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mocat/src/abc/importance.py b/mocat/src/abc/importance.py
index d828ba8..0c5c90d 100644
--- a/mocat/src/abc/importance.py
+++ b/mocat/src/abc/importance.py
@@ -88,9 +88,7 @@ class VanillaABC(ImportanceABC):
                  **kwargs):
         super().__init__(**kwargs)
         self.parameters.threshold = threshold
-        if acceptance_rate is not None:
-            self.parameters.acceptance_rate = acceptance_rate
-            self.clean_chain = self.clean_chain_ar
+        self.parameters.acceptance_rate = acceptance_rate
 
     def importance_proposal(self,
                             abc_scenario: ABCScenario,
@@ -110,6 +108,13 @@ class VanillaABC(ImportanceABC):
                          0.,
                          -jnp.inf)
 
+    def clean_chain(self,
+                    abc_scenario: ABCScenario,
+                    chain_state: cdict):
+        if self.parameters.acceptance_rate is None:
+            return chain_state
+        return self.clean_chain_ar(abc_scenario, chain_state)
+
     def clean_chain_ar(self,
                        abc_scenario: ABCScenario,
                        chain_state: cdict):
-- 
2.43.0


From eaa11f2cdc84c5b5281c66d3953ce48b262ff9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 31/42] fix: precision_sqrt is a square root of the precision
 for correlated covariances

---
 mocat/src/scenarios/toy_examples.py | 2 +-
 mocat/src/ssm/nonlinear_gaussian.py | 4 ++--
 mocat/src/utils.py                  | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index d059a9d..b131d7e 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -40,7 +40,7 @@ class Gaussian(Scenario):
     def likelihood_potential(self,
                              x: jnp.ndarray,
                              random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt.T)
+        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt)
         return 0.5 * jnp.square(x_diff).sum(axis=-1)
 
     def __setattr__(self,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index e98dbf4..87858fe 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -163,7 +163,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         self.initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(self.initial_conditioned_precision_sqrt)
@@ -305,7 +305,7 @@ class EnsembleKalmanFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(initial_conditioned_precision_sqrt)
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 082e6ec..04ad63c 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -289,12 +289,13 @@ def reset_covariance(obj: Any,
         sqrt_val = jnp.sqrt(value)
         setattr(obj, key + '_sqrt', sqrt_val)
         setattr(obj, prec_key + '_sqrt', 1 / sqrt_val)
-        setattr(obj, prec_key + '_det', 1 / value)
+        setattr(obj, prec_key + '_det', jnp.prod(1 / value))
         setattr(obj, prec_key + '_mul', lambda a, b: a * b)
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
         setattr(obj, key + '_sqrt', sqrt_mat)
-        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat))
+        # precision = precision_sqrt @ precision_sqrt.T
+        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat).T)
         setattr(obj, prec_key + '_det', 1 / jnp.linalg.det(value))
         setattr(obj, prec_key + '_mul', lambda a, b: a @ b)
 
-- 
2.43.0


From affc4e48b2ea8ee038ff134a4dddf546ab2acc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 32/42] fix: nonlinear Gaussian transitions are drawn with the
 transition covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 87858fe..6c938ea 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -111,7 +111,7 @@ class NonLinearGaussian(StateSpaceModel):
                           t_new: float,
                           random_key: jnp.ndarray) -> jnp.ndarray:
         return self.transition_function(x_previous, t_previous, t_new) \
-               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt
+               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt.T
 
     def likelihood_potential(self,
                              x: jnp.ndarray,
-- 
2.43.0


From 938c754785e8c47504a74069f07daf6c785c4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 33/42] fix: Gaussian mixture components have the given
 covariances and weights

---
 mocat/src/scenarios/toy_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index b131d7e..4654662 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -101,9 +101,9 @@ class GaussianMixture(Scenario):
                             x: jnp.ndarray,
                             component_index: int) -> Union[float, jnp.ndarray]:
         return 0.5 * jnp.sum(jnp.square((x - self.means[component_index]) @
-                                      self.precision_sqrts[component_index].T), axis=-1) \
+                                      self.precision_sqrts[component_index]), axis=-1) \
                - jnp.log(self.weights[component_index]
-                        * self.precision_dets[component_index]
+                        * jnp.sqrt(self.precision_dets[component_index])
                         / jnp.power(2 * jnp.pi, self.dim * 0.5))
 
     def component_dens(self,
-- 
2.43.0


From 0f0f9859c172fcb6dc0eaed1b249d69cdd3bdca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 34/42] fix: stochastic volatility transition potential scales
 with the time step as its samples do

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index bf5c69e..b97d144 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -82,7 +82,7 @@ class StochasticVolatility(StateSpaceModel):
                              t_new: float) -> Union[float, jnp.ndarray]:
         return gaussian_potential(x_new,
                                   x_previous @ self.transition_matrix.T,
-                                  sqrt_prec=self.transition_precision_sqrt * jnp.sqrt(t_new - t_previous))
+                                  sqrt_prec=self.transition_precision_sqrt / jnp.sqrt(t_new - t_previous))
 
     def transition_sample(self,
                           x_previous: jnp.ndarray,
-- 
2.43.0


From ecbe1726de2751c309ddcacd9a5de4a16f009cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 35/42] fix: stochastic volatility default observation
 variances are a vector

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index b97d144..e2d928c 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -49,7 +49,7 @@ class StochasticVolatility(StateSpaceModel):
         self.transition_covariance = transition_covariance
 
         if likelihood_covariance_diag is None:
-            likelihood_covariance_diag = jnp.eye(self.dim)
+            likelihood_covariance_diag = jnp.ones(self.dim)
         self.likelihood_covariance_diag = likelihood_covariance_diag
 
         super().__init__(name=name)
-- 
2.43.0


From 75c34ea54fbb8c40024a07516bbe728a454c1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 36/42] fix: smoothing potential of two times is a single
 number as for any other

---
 mocat/src/ssm/ssm.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index ed9113e..dc1e29b 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -103,11 +103,6 @@ class StateSpaceModel:
         if len(t_all) == 1:
             return self.initial_potential(x_all[0], t_all[0]) \
                    + self.likelihood_potential(x_all[0], y_all[0], t_all[0])
-        elif len(t_all) == 2:
-            trans_pot = self.transition_potential(x_all[0], t_all[0], x_all[1], t_all[1])
-            return jnp.vstack([self.initial_potential(x_all[0], t_all[0]) + trans_pot[0] \
-                              + self.likelihood_potential(x_all[0], y_all[0], t_all[0]),
-                              trans_pot[1] + self.likelihood_potential(x_all[1], y_all[1], t_all[1])])
         else:
             return self._smoothing_potential(x_all, y_all, t_all)
 
-- 
2.43.0


From e03a9cac3dcfe8104a86b071ec2b5e96a0972619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 37/42] fix: rates of Lotka-Volterra and SIR are positive in
 prior potential and prior samples

---
 mocat/src/abc/scenarios/SIR.py            | 4 ++--
 mocat/src/abc/scenarios/lotka_volterra.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mocat/src/abc/scenarios/SIR.py b/mocat/src/abc/scenarios/SIR.py
index 4fd4985..b241162 100644
--- a/mocat/src/abc/scenarios/SIR.py
+++ b/mocat/src/abc/scenarios/SIR.py
@@ -61,12 +61,12 @@ class SIR(ABCScenario):
 
     def prior_sample(self,
                      random_key: jnp.ndarray) -> jnp.ndarray:
-        return -jnp.log(exponential_sample_buffer + random.uniform(random_key, (self.dim,))) / self.prior_rates
+        return -jnp.log(random.uniform(random_key, (self.dim,), minval=exponential_sample_buffer)) / self.prior_rates
 
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        return (self.prior_rates * x).sum()
+        return jnp.where(jnp.all(x >= 0), (self.prior_rates * x).sum(), jnp.inf)
 
     def simulate_times_and_si(self,
                               x: jnp.ndarray,
diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 7be2303..a4577e0 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -69,12 +69,12 @@ class LotkaVolterra(ABCScenario):
 
     def prior_sample(self,
                      random_key: jnp.ndarray) -> jnp.ndarray:
-        return -jnp.log(exponential_sample_buffer + random.uniform(random_key, (self.dim,))) / self.prior_rates
+        return -jnp.log(random.uniform(random_key, (self.dim,), minval=exponential_sample_buffer)) / self.prior_rates
 
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        return (self.prior_rates * x).sum()
+        return jnp.where(jnp.all(x >= 0), (self.prior_rates * x).sum(), jnp.inf)
 
     def likelihood_sample(self,
                           x: jnp.ndarray,
-- 
2.43.0


From ba923d03b68f949f7729954d6a03575be6d64b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 38/42] fix: uniform GK priors include the bounds their samples
 can reach

---
 mocat/src/abc/scenarios/gk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mocat/src/abc/scenarios/gk.py b/mocat/src/abc/scenarios/gk.py
index b404691..ba9a00f 100644
--- a/mocat/src/abc/scenarios/gk.py
+++ b/mocat/src/abc/scenarios/gk.py
@@ -56,8 +56,8 @@ class GKUniformPrior(_GK, AbsBaseClass):
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        out = jnp.where(jnp.all(x > self.prior_mins), 1., jnp.inf)
-        out = jnp.where(jnp.all(x < self.prior_maxs), out, jnp.inf)
+        out = jnp.where(jnp.all(x >= self.prior_mins), 1., jnp.inf)
+        out = jnp.where(jnp.all(x <= self.prior_maxs), out, jnp.inf)
         return out
 
     def prior_sample(self,
@@ -117,8 +117,8 @@ class GKOnlyAUniformPrior(_GK, AbsBaseClass):
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        out = jnp.where(jnp.all(x > self.prior_mins), 1., jnp.inf)
-        out = jnp.where(jnp.all(x < self.prior_maxs), out, jnp.inf)
+        out = jnp.where(jnp.all(x >= self.prior_mins), 1., jnp.inf)
+        out = jnp.where(jnp.all(x <= self.prior_maxs), out, jnp.inf)
         return out
 
     def prior_sample(self,
-- 
2.43.0


From d7e2de665105c2dd36f663eeb3c897da579b641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 39/42] fix: Gaussian mixture potential does not overflow far
 from its components

---
 mocat/src/scenarios/toy_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 4654662..fac3360 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -9,6 +9,7 @@ from typing import Union, Any, Callable
 
 import jax.numpy as jnp
 from jax import vmap, jit
+from jax.scipy.special import logsumexp
 
 from mocat.src.core import Scenario
 from mocat.utils import reset_covariance, gaussian_potential
@@ -117,7 +118,7 @@ class GaussianMixture(Scenario):
     def likelihood_potential(self,
                              x: jnp.ndarray,
                              random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        return -jnp.log(self.dens(x))
+        return -logsumexp(-self.component_potentials(x, jnp.arange(self.n_components)), axis=0)
 
 
 class DoubleWell(Scenario):
-- 
2.43.0


From 35995445f2d9ffc108aa11e19cb6d7f0d4516b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 40/42] fix: Kalman filter starts from the initial covariance

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index 65676d5..f039a6b 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -17,7 +17,8 @@ def run_kalman_filter_for_marginals(lgssm_scenario: LinearGaussian,
                                     y: jnp.ndarray,
                                     t: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     mu_0 = lgssm_scenario.get_initial_mean(t[0])
-    cov_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_sqrt_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_0 = cov_sqrt_0 @ cov_sqrt_0.T
 
     l_mat_0 = lgssm_scenario.get_likelihood_matrix(t[0])
     l_cov_sqrt_0 = lgssm_scenario.get_likelihood_covariance_sqrt(t[0])
-- 
2.43.0


From 57a444ab27254175cefc3ad487d1f951e491935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 41/42] fix: Kalman smoother lag-one moments

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index f039a6b..f7eba57 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -82,7 +82,8 @@ def run_kalman_smoother_for_marginals_and_lag_ones(lgssm_scenario: LinearGaussia
         mu_t = f_mu_t + back_kal_gain @ (mu_tplus1 - t_mat @ f_mu_t)
         cov_t = f_cov_t + back_kal_gain @ (cov_tplus1 - t_mat @ f_cov_t @ t_mat.T - t_cov) @ back_kal_gain.T
 
-        e_xt_xtp1 = f_mu_t @ mu_tplus1.T + back_kal_gain @ (cov_tplus1 + (mu_tplus1 - f_mus[i + 1]) @ mu_tplus1.T)
+        e_xt_xtp1 = jnp.outer(f_mu_t, mu_tplus1) \
+                    + back_kal_gain @ (cov_tplus1 + jnp.outer(mu_tplus1 - t_mat @ f_mu_t, mu_tplus1))
 
         return (mu_t, cov_t), (mu_t, cov_t, e_xt_xtp1)
 
-- 
2.43.0


From 4b549723db116a7e22fa6511d9af92e3beff05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 42/42] fix: optimal filter proposal potential uses a square
 root of the proposal precision

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 6c938ea..167ba65 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -178,7 +178,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                        - self.proposal_kalman_gain @ ssm_scenario.likelihood_matrix \
                        @ ssm_scenario.transition_covariance
         self.proposal_covariance_sqrt = jnp.linalg.cholesky(proposal_cov)
-        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt)
+        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt).T
         self.proposal_precision_det = 1 / jnp.linalg.det(proposal_cov)
 
         self.weight_precision_sqrt = jnp.linalg.cholesky(weight_precision)
-- 
2.43.0

