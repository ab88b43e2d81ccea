From 2ab03694630e162b0eedfb24eafac2ac302b803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 01/27] fix: scalar random walk proposal summed a float and
 always raised TypeError

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 54758c448423a1238933c1874ac6e9145c1c9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 02/27] fix: random walk proposals drew from the global numpy
 state instead of the given generator

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 9f4d7a0f32a7b4366d72b188fcef2f660802c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 03/27] fix: sequential mean and covariance update disagreed
 with the batch moments

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..32d377f 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = cov + (np.outer(dev, dev) * n / (n + 1) - cov) / n
 
     return mean, cov
 
-- 
2.43.0


From 42f350150dfdb0929b876c3e3d98fd7d1a720341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 04/27] fix: parameter precoin of the Ito sampler left out the
 likelihood of the data

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From b1940ce44b98df8151f58665f211284925f5f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 05/27] fix: every EM iteration of the Ito estimator restarted
 from the initial parameter

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..da35297 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -33,11 +33,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From c80fad55cc513be32a8ca6d78ae7cf2acf76a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 06/27] fix: regime proposal dropped the outer observation
 times twice and crashed on short data

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From 361d903367f190d2ec86be8768907a06e676e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 07/27] fix: splitting and pasting the hidden state moved
 observation times by rounding until sections no longer matched

---
 ctbayes/switching/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..8819a69 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -225,7 +225,7 @@ def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
 
     break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
-    h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
+    h_part = [types.Anchorage(h.t[r0:r1+1], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
     return z_part, h_part
 
@@ -236,7 +236,7 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     z = sum(z_part, [])
     h = h_part[0]
     for h_ in h_part[1:]:
-        h = types.Anchorage(np.append(h.t, h_.t[1:] + h.t[-1]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
+        h = types.Anchorage(np.append(h.t, h_.t[1:]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
     return z, h
 
 
-- 
2.43.0


From 980c145fbfde5ea9709aee0546b8450fe26d3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 08/27] fix: querying only known times of a layered path forgot
 its crossing indicators

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From eac46f2b1710a8598e46a61b95c7ac97c8d2da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 09/27] fix: later batches of a Poisson point process ignored
 the points already drawn and could leave the region

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..f557a3d 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -56,7 +56,8 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
 
     ub = 0
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_points + 1 - i)
+        n_points -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From f4e348177ac15a05e9e8c20a6cef0f96fb9ad493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 10/27] fix: generator inference left out the time spent in the
 last state

---
 ctbayes/mjplib/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..2ebc14f 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +57,8 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    hold = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    return (np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]])) + np.sum(hold * np.diag(gen)[skel.xt])).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From ac3d4415a5adc9eb0e22d78fec802256270723c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 11/27] fix: drift of the third switching model mixed up
 regimes and its primitive and derivative were halved

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..987981d 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], -1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], -1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], -1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From c982c4c97071b6c4d1637df7b5f011c4cd2873d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 12/27] fix: proposals for parameters bounded on both sides
 could leave the bounds

---
 ctbayes/misc/adapt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 32d377f..cb5e7ff 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -1,6 +1,7 @@
 from typing import Iterator
 
 import numpy as np
+from scipy.special import expit
 
 from ctbayes.mjplib import skeleton as mjp_skel
 
@@ -31,22 +32,24 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
 
 def transform_to_reals(x: float, lb: float, ub: float) -> (float, float):
 
-    if np.isinf(lb) and np.isinf(ub) or (not np.isinf(lb) and not np.isinf(ub)):
+    if np.isinf(lb) and np.isinf(ub):
         return x, 0
     if np.isinf(lb):
         return np.log(ub - x), -np.log(ub - x)
     if np.isinf(ub):
         return np.log(x - lb), -np.log(x - lb)
+    return np.log(x - lb) - np.log(ub - x), np.log(ub - lb) - np.log(x - lb) - np.log(ub - x)
 
 
 def transform_to_const(y: float, lb: float, ub: float) -> (float, float):
 
-    if np.isinf(lb) and np.isinf(ub) or (not np.isinf(lb) and not np.isinf(ub)):
+    if np.isinf(lb) and np.isinf(ub):
         return y, 0
     if np.isinf(lb):
         return ub - np.exp(y), -y
     if np.isinf(ub):
         return lb + np.exp(y), -y
+    return lb + (ub - lb) * expit(y), np.logaddexp(0, y) + np.logaddexp(0, -y) - np.log(ub - lb)
 
 
 class MyopicMvRwSampler(object):
-- 
2.43.0


From fd444df8f30c1aef93fc4d3b6d3ee453bc3be866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 13/27] fix: escaping from the two-coin algorithm forgot what
 the failed flips of the second coin had revealed

---
 ctbayes/misc/bfactories.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctbayes/misc/bfactories.py b/ctbayes/misc/bfactories.py
index d753411..c6b30f5 100755
--- a/ctbayes/misc/bfactories.py
+++ b/ctbayes/misc/bfactories.py
@@ -56,6 +56,7 @@ def sample_twocoin(w1: float,
             success, prop = next(c2)
             if success:
                 return False, False, prop
+            prop0 = prop
 
         # attempt escape or abort pathological proposal
         if ome.uniform() < pr_portkey:
-- 
2.43.0


From 7a160c2311dfdfd5ef24425f6cdf32491753221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 14/27] fix: backward simulation of a regime path ignored the
 stationary law of the initial state

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index f557a3d..9060634 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -159,7 +159,8 @@ def sample_backwards(fin_t: float, fin_x: int, gen: np.ndarray, ome: np.random.G
     """
 
     ftrans = get_trans(fin_t, gen)
-    btrans = ftrans[:, fin_x] / np.sum(ftrans[:, fin_x])
+    joint = get_stat(gen) * ftrans[:, fin_x]
+    btrans = joint / np.sum(joint)
     init_x = ome.choice(np.arange(len(btrans)), 1, p=btrans).item()
 
     return sample_bridge(fin_t, init_x, fin_x, gen, ome)
-- 
2.43.0


From 544012472664e85387093ce53723c48f863a65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 15/27] fix: initial generator of the switching estimator had
 rows that did not sum to zero for unequal rates

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..e2f9ed9 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -37,7 +37,7 @@ def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np
                        ) -> Iterator[Tuple[float, np.ndarray, np.ndarray, List[sde_seed.Partition], List[types.Anchorage]]]:
 
     lam = mod.hyper_lam[0] / mod.hyper_lam[1]
-    lam[np.isnan(lam)] = -np.nansum(lam, 0)
+    lam[np.isnan(lam)] = -np.nansum(lam, 1)
     thi = np.repeat(init_thi[np.newaxis], lam.shape[0], 0)
     y = mjp_skel.sample_forwards(mod.t[-1], None, lam, ome)
     zz, hh = zip(mod.sample_aug(thi, y, mod.t, mod.vt, ome))
-- 
2.43.0


From d5825ad9bd614884c418dcd5a1e7b7878f9c03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 16/27] fix: times of simulated Euler paths did not match the
 number of states

---
 ctbayes/misc/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/testing.py b/ctbayes/misc/testing.py
index eb50db1..205b5c6 100755
--- a/ctbayes/misc/testing.py
+++ b/ctbayes/misc/testing.py
@@ -38,4 +38,4 @@ def euler_simulate(ndraws: int,
     for e in noise:
         trajectory.append(trajectory[-1] + dfunc(trajectory[-1]) * res + vfunc(trajectory[-1]) * e)
 
-    return np.arange(0, fin_t, res), np.array(trajectory).T
+    return res * np.arange(len(trajectory)), np.array(trajectory).T
-- 
2.43.0


From 698307a5a65697d16b57bf34b04d88168ff12b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 17/27] fix: bridge sampling truncated acceptance weights above
 one and drew from the wrong law

---
 ctbayes/ea3lib/seed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..8d92460 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,14 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    inf_disc, _, _ = eval_bounds_disc(*bounds_x)
+    fin_t, = denorm_rsde(np.ones(1), None)[0]
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + fin_t * inf_disc:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From f67f60a1f71378d90a938fd2a756981548086baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 18/27] fix: bracing points missed the mode of densities that
 vanish at a finite bound

---
 ctbayes/misc/ars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..21839e1 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -84,7 +84,8 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
 
     x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
     bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
-    mode = minimize(lambda x: -f(x[0]), np.array([x0]), bounds=(bounds,)).x[0]
+    mode = minimize(lambda x: -f(x[0]), np.array([x0]), method='Nelder-Mead', bounds=(bounds,),
+                    options={'xatol': 1e-8, 'fatol': 1e-8}).x[0]
 
     if np.isinf(lb):
         linit = mode - 1
-- 
2.43.0


From d84c50e4733831e802422c685fda9343c606fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 19/27] fix: conditional crossing series decided before the
 bound on the condition was informative

---
 ctbayes/sdelib/hitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..7d0ce23 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -382,7 +382,7 @@ def series_brownbr_esc(fin_t: float,
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf  # no bound on the ratio yet
 
     # handle unbounded case
     s = 0
@@ -427,7 +427,7 @@ def series_bessel3br_esc(fin_t: float,
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf  # no bound on the ratio yet
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From c962b40ba9ba8b8e851dbccca1ab38a187ef37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 20/27] fix: rejection sampler failed on horizontal or parallel
 hull pieces

---
 ctbayes/misc/ars.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 21839e1..0dc52cb 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -113,7 +113,11 @@ def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
     array([-0.5,  1. ])
     """
 
-    return np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+    # parallel pieces coincide, so any point between the supports will do
+    ddfx = dfx[:-1] - dfx[1:]
+    y = np.divide(np.diff(fx - x * dfx), ddfx, out=(x[:-1] + x[1:]) / 2, where=ddfx > 0)
+
+    return np.clip(y, x[:-1], x[1:])
 
 
 def eval_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarray, x_new: float) -> float:
@@ -182,14 +186,19 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     # prevent over/underflows
     offset = np.max(dfx * (y[1:] - x) + fx)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # horizontal pieces integrate to a rectangle
+    flat = np.abs(dfx) * np.minimum(np.diff(y), 1e300) < 1e-8
+    slope = np.where(flat, 1, dfx)
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / slope
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / slope
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    cdf = np.array([0, *np.cumsum(np.where(flat, np.exp(fx - offset) * np.diff(y), vol_upper - vol_lower))])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if flat[i]:
+        return y[i] + (norm * z - cdf[i]) / np.exp(fx[i] - offset)
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From 6713e008972f0fac242854325a1f535e14f3a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 21/27] fix: bracing points could collapse onto a finite bound
 away from the mode

---
 ctbayes/misc/ars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 0dc52cb..8b036c0 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -82,9 +82,9 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
     True
     """
 
-    x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
-    bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
-    mode = minimize(lambda x: -f(x[0]), np.array([x0]), method='Nelder-Mead', bounds=(bounds,),
+    # bounds are left to the objective, since clipped simplices may collapse onto a bound
+    x0 = np.mean([lb, ub]) if np.isfinite(ub - lb) else lb + 1 if np.isfinite(lb) else ub - 1 if np.isfinite(ub) else 0
+    mode = minimize(lambda x: -f(x[0]) if lb <= x[0] <= ub else np.inf, np.array([x0]), method='Nelder-Mead',
                     options={'xatol': 1e-8, 'fatol': 1e-8}).x[0]
 
     if np.isinf(lb):
-- 
2.43.0


From 92d96987e2bd46b42bc180c0c4e3810729c1fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 22/27] fix: rounding carried extreme bounded proposals onto
 their bounds

---
 ctbayes/misc/adapt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index cb5e7ff..ca1e5f2 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -45,11 +45,15 @@ def transform_to_const(y: float, lb: float, ub: float) -> (float, float):
 
     if np.isinf(lb) and np.isinf(ub):
         return y, 0
+
+    # rounding must not carry extreme values onto the bounds
+    inner = np.nextafter(lb, np.inf), np.nextafter(ub, -np.inf)
     if np.isinf(lb):
-        return ub - np.exp(y), -y
+        return np.clip(ub - np.exp(min(y, 709.)), *inner), -y
     if np.isinf(ub):
-        return lb + np.exp(y), -y
-    return lb + (ub - lb) * expit(y), np.logaddexp(0, y) + np.logaddexp(0, -y) - np.log(ub - lb)
+        return np.clip(lb + np.exp(min(y, 709.)), *inner), -y
+    return (np.clip(lb + (ub - lb) * expit(y), *inner),
+            np.logaddexp(0, y) + np.logaddexp(0, -y) - np.log(ub - lb))
 
 
 class MyopicMvRwSampler(object):
-- 
2.43.0


From e7afb9a7ac4addd2080c972188de817d95890ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 23/27] fix: anchors of the hidden state were transformed back
 twice

---
 ctbayes/switching/static.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..6b63c27 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,11 +48,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
+        vtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
                          in zip(y_part, xt, xt[1:])] + [vt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
-        vtt = dereduce(xtt)
         z = [sde_seed.sample_raw_seed(bounds_x, normop, inv_normop, ome)
              for (normop, inv_normop) in gen_normops(thi, tt, ytt, vtt)]
         return z, types.Anchorage(tt, ytt, vtt)
-- 
2.43.0


From f977aba6ae036b4ceb146189f21c3581e385b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 24/27] fix: thinned particles left the regime proposals out of
 step with the hidden state

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index e2f9ed9..48ff3a0 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -89,7 +89,7 @@ def update_particles(thi: np.ndarray, lam: np.ndarray, init_z: sde_seed.Partitio
     z, h, zz, hh = init_z, init_h, [], []
     for i in range(n_particles * ctrl.n_thin_mcmc):
         z, h = mcmc.update_hidden(thi, lam, z, h, mcmc.Model(*mod, None), mcmc.Controls(), regime_sampler, ome, pool)
-        if not i % ctrl.n_thin_mcmc:
+        if not (i + 1) % ctrl.n_thin_mcmc:
             zz.append(z), hh.append(h)
     return zz, hh
 
-- 
2.43.0


From 1e6d432458c65f3fd68fc0e7ec12611078cf9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 25/27] fix: bounds of the CIR rate missed its minimum when the
 boundary is strongly attracting

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..698c40e 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -31,7 +31,7 @@ def dereduce(thi, vt):
 @curry
 def eval_bounds_disc(thi, le_x, ue_x):
     edges_phi = eval_disc(thi, le_x), eval_disc(thi, ue_x)
-    if 4 * thi[0] * thi[1] < 3 * thi[2] ** 2:
+    if thi[2] ** 2 <= 4 * thi[0] * thi[1] <= 3 * thi[2] ** 2:
         return np.nan, min(edges_phi), max(edges_phi)
     argmin_phi = f_argmin_disc(thi)
     min_phi = eval_disc(thi, argmin_phi)
-- 
2.43.0


From 5615df547d3d98abbd0f1a93652f6c3d788d13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 26/27] fix: generator update accounts for the stationary law
 of the first regime

---
 ctbayes/switching/mcmc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8819a69..1b0e949 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -60,7 +60,7 @@ def update_joint(thi: np.ndarray, lam: np.ndarray, z: sde_seed.Partition, h: typ
                  regime_sampler: MyopicMjpSampler, ome: np.random.Generator
                  ) -> (np.ndarray, np.ndarray, sde_seed.Partition, types.Anchorage):
 
-    lam = update_generator(h, mod.hyper_lam, ome)
+    lam = update_generator(lam, h, mod.hyper_lam, ome)
     with Parallel(ctrl.n_cores, 'loky') as pool:
         thi, z = update_params(thi, z, h, mod, ctrl, param_samplers, ome, pool)
         z, h = update_hidden(thi, lam, z, h, mod, ctrl, regime_sampler, ome, pool)
@@ -240,7 +240,12 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     return z, h
 
 
-def update_generator(h: types.Anchorage, lam0: (np.ndarray, np.ndarray), ome: np.random.Generator) -> np.ndarray:
+def update_generator(lam_nil: np.ndarray, h: types.Anchorage, lam0: (np.ndarray, np.ndarray), ome: np.random.Generator
+                     ) -> np.ndarray:
 
     y = types.prune_anchorage(h)
-    return mjp_inf.sample_param(*mjp_inf.update(y, *lam0), ome)
+    lam_prime = mjp_inf.sample_param(*mjp_inf.update(y, *lam0), ome)
+    # the conjugate update leaves out that the first regime has the stationary law of the generator
+    if ome.uniform() * mjp_skel.get_stat(lam_nil)[y.xt[0]] < mjp_skel.get_stat(lam_prime)[y.xt[0]]:
+        return lam_prime
+    return lam_nil
-- 
2.43.0


From 58f06500d1364f016075d293040844d76c3b3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 27/27] fix: minima close to an end of a bridge keep their time
 strictly inside it

---
 ctbayes/sdelib/hitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 7d0ce23..959cb3d 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -148,9 +148,11 @@ def sample_brownbr_min(fin_t: float, init_x: float, fin_x: float, lb_min_x: floa
     if ome.uniform() < 1 / (1 + par3):
         min_t = fin_t / (1 + ome.wald(par3, 2 * par1))
     else:
-        min_t = fin_t / (1 + 1 / ome.wald(1 / par3, 2 * par2))
+        odds = ome.wald(1 / par3, 2 * par2)
+        min_t = fin_t * odds / (1 + odds)
 
-    return min_t, min_x
+    # rounding must not carry the time of a minimum close to one of the ends onto that end
+    return np.clip(min_t, fin_t * np.finfo(float).eps, fin_t * (1 - np.finfo(float).eps)), min_x
 
 
 def sample_layerbr_min(fin_t: float, init_x: float, fin_x: float,
-- 
2.43.0

