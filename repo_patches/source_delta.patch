From 451dcc8facb7cb626bd2d8f8f3775db0ce069709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 01/31] fix: only switch the backend once everything it needs
 has been loaded

A failure while importing a registered module or function left the package
with a mix of backends and made the next attempt a silent no-op.
---
 gwpopulation/backend.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..0bdf0b3 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -142,15 +142,18 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (
             import_module(module),
             func.split(".")[-1],
             _load_arbitrary(func, backend),
         )
+        for module, func in others.items()
+    ]
+    # everything has been loaded, so the switch below cannot fail half way
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From c8af8cc1f042df47e85e8c792973055f3c20c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 02/31] fix: keep every function registered for a module in
 gwpopulation.other

The entries were keyed by module, so all but the last were never updated.
---
 gwpopulation/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 0bdf0b3..57cde05 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -59,7 +59,7 @@ def modules_to_update():
         (:code:`scipy.special`).
     others: dict
         Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        from :code:`scipy`, each with the list of its functions.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for key, value in other_entries:
+        others.setdefault(key, list()).append(value)
     return all_with_xp, all_with_scs, others
 
 
@@ -151,7 +153,8 @@ def set_backend(backend="numpy"):
             func.split(".")[-1],
             _load_arbitrary(func, backend),
         )
-        for module, func in others.items()
+        for module, funcs in others.items()
+        for func in funcs
     ]
     # everything has been loaded, so the switch below cannot fail half way
     for module, name, value in updates:
-- 
2.43.0


From 344a2fb104e411633e9db269c368b7d7ad138085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 03/31] fix: do not rescale the caller's arrays in
 mu_var_max_to_alpha_beta_max

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From a3138836f02e961fe17cf522ff4ef51f598f6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 04/31] fix: GridVT no longer removes the sensitivity from the
 caller's data

---
 gwpopulation/vt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..8553dc5 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,6 +85,7 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
+        data = data.copy()
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-- 
2.43.0


From 983ef35f7d1a9282a19154c0086d2343e74844d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:29 +0000
Subject: [PATCH 05/31] fix: GridVT handles grid axes of equal length

Axes were identified by their length, so two axes with the same number of
points collapsed into one and the result was not fully integrated.
---
 gwpopulation/vt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 8553dc5..dce8a98 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -91,7 +91,13 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = dict()
+        for key in self.data:
+            values = xp.broadcast_to(self.data[key], tuple(shape))
+            # lengths need not be unique, so use the axis along which this key varies
+            matches = [int(ii) for ii in np.where(shape == lens[key])[0]]
+            varying = [ii for ii in matches if xp.any(xp.diff(values, axis=ii))]
+            self.axes[(varying + matches)[0]] = key
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From fc3e9550659b5895a808fe520b4a98260532ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:29 +0000
Subject: [PATCH 06/31] fix: make detector_frame_to_source_frame independent of
 the key order

A detector-frame quantity listed before the redshift raised KeyError, or was
converted with a different redshift than the one returned.
---
 gwpopulation/experimental/cosmo_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..3f7ca22 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -106,6 +106,8 @@ class CosmoMixin:
             )
         else:
             jacobian = xp.ones(data["redshift"].shape)
+        if "redshift" in data:
+            samples["redshift"] = data["redshift"]
 
         for key in list(data.keys()):
             if key.endswith("_detector"):
-- 
2.43.0


From a34a1bb0b86a82e4980ad06f79a0a593a1b43b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 07/31] fix: allow a power law with spectral index one

The index that needs special treatment is -1, which is handled; +1 was
rejected under numpy although it is perfectly regular.
---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..d535a02 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From 7fce49eff5590eef4da724cf14bae99af0341b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 08/31] fix: allow a power law that extends to zero

The unused logarithmic branch raised ZeroDivisionError for low=0.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index d535a02..4391894 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -121,7 +121,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / xp.log(xp.divide(high, low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From d004d74f6d5e79f82e3cb59989e3edf9b71824e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 09/31] fix: power-law density is zero rather than NaN outside
 of its range

Multiplying by the mask gave NaN where the unmasked value is not finite,
e.g., for vanishing arguments with a negative index, or when low == high.
---
 gwpopulation/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 4391894..2439063 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -124,10 +124,9 @@ def powerlaw(xx, alpha, high, low):
         1 / xp.log(xp.divide(high, low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
-    prob = xp.power(xx, alpha)
-    prob *= norm
-    prob *= (xx <= high) & (xx >= low)
-    return prob
+    in_bounds = (xx <= high) & (xx >= low)
+    prob = xp.power(xp.where(in_bounds, xx, 1.0), alpha) * norm
+    return xp.where(in_bounds, prob, 0.0)
 
 
 @apply_conditions(dict(sigma=(gt, 0)))
-- 
2.43.0


From b23536d4fac9ddb2764b1aac28432b4e7fdda79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 10/31] fix: determinant of the two-dimensional Gaussian
 covariance matrix

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 2439063..eedc4a6 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -216,7 +216,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From f89cab86f9cc4b5f9c5fb3fa2b0ec0708e18b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:19 +0000
Subject: [PATCH 11/31] fix: Beta distribution with unit shape is not zero at
 its edges

0 * log(0) made the density of, e.g., the uniform distribution vanish at
exactly zero and at exactly the maximum.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index eedc4a6..16c12c5 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From 0c7b87a0980b63d5bff4396025498e58695de98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 12/31] fix: compare the variance with the squared maximum
 uncertainty

The limit is on the uncertainty (standard deviation) but was compared with
the variance.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..8ba8cc0 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From eac9ee7fba06f5f42686a607982ee6a013c2a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 13/31] fix: reject points with a vanishing detection
 probability

They were given the largest, rather than the smallest, possible likelihood.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 8ba8cc0..46bf8be 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -179,7 +179,7 @@ class HyperparameterLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
-        ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
+        ln_l = xp.nan_to_num(ln_l, nan=-xp.inf, posinf=-xp.inf)
         ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
-- 
2.43.0


From 6a269dd598672899c7ed19f196ed1dd09de2eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 14/31] fix: variance of the expected number of events in
 RateLikelihood

Var[R P] = R^2 Var[P]; the expected number entered linearly.
---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 46bf8be..b9fef87 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -454,7 +454,7 @@ class RateLikelihood(HyperparameterLikelihood):
 
         .. math::
 
-            \sigma^2 = \frac{N_{\rm exp}(\Lambda) \sigma^2_{\rm det}}{P_{\rm det}^2}
+            \sigma^2 = \frac{N_{\rm exp}^2(\Lambda) \sigma^2_{\rm det}}{P_{\rm det}^2}
 
         Parameters
         ----------
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = parameters["rate"] ** 2 * variance
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 0ec4f0436fa440935fba275e85373ea350e1084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 15/31] fix: extra statistics report the variance the
 likelihood uses

The total variance ignored the likelihood's own selection term, e.g., for
RateLikelihood, and the array returned by the selection function was modified.
---
 gwpopulation/hyperpe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index b9fef87..16edc0c 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,10 +266,9 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
-        selection_variance = variance * self.n_posteriors**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
-        sample["selection_variance"] = variance
+        sample["selection_variance"] = xp.divide(variance, selection**2)
         total_variance += selection_variance
         sample["variance"] = to_number(total_variance, float)
         return sample
-- 
2.43.0


From 1f2b99487f25f8c90b436ca9ed9ac929cc45ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 16/31] fix: rate samples for converted parameters and
 uncertain selection functions

The conversion function was not applied and selection functions that return
an uncertainty raised TypeError.
---
 gwpopulation/hyperpe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 16edc0c..5de8f6f 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -300,13 +300,14 @@ class HyperparameterLikelihood(Likelihood):
         """
         from scipy.stats import gamma
 
+        parameters, added_keys = self.conversion_function(parameters.copy())
         if hasattr(self.selection_function, "detection_efficiency") and hasattr(
             self.selection_function, "surveyed_hypervolume"
         ):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From b0cec13dd7d4edf5c758876647592f94d316d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 17/31] fix: marginalized vt_factor with vanishing variance

numpy raised ZeroDivisionError, and NaN rather than inf was returned when no
injection has support.
---
 gwpopulation/vt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index dce8a98..63aadf2 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -233,11 +233,10 @@ class ResamplingVT(_BaseVT):
             The uncertainty-marginalized vt_factor
         """
         mu, var = self.detection_efficiency(parameters)
-        _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
+        converged, _ = self.check_convergence(mu, var)
+        n_effective = xp.divide(mu**2, var)
         vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
-        vt_factor += correction
-        return vt_factor
+        return xp.where(converged, vt_factor, xp.inf)
 
     def detection_efficiency(self, parameters):
         r"""
-- 
2.43.0


From 6e54ca0b38962676eabebe6279f8033d38c4a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 18/31] fix: use an event's own weights in the numpyro
 predictive resampling

The weights have shape (n_events, n_samples).
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..d001cbd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From 1cc02873ca0f30733f167da1aee448681a78aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 19/31] fix: rate parameter of the Gamma distribution in the
 numpyro model

numpyro's Gamma takes the inverse scale, matching generate_rate_posterior_sample.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index d001cbd..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From ad0ff1418749efa1c70f61ed2154a59b55bec70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 20/31] fix: do not extend the primary model's variable names
 in place

---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..5cf6c9b 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,7 +551,7 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
+        vars = list(vars) + ["beta", "delta_m"]
         vars = set(vars).difference(self.kwargs.keys())
         return vars
 
-- 
2.43.0


From a00e36e8bf50a8de106a4523fbce64d302f5ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 21/31] fix: refresh the mass-ratio normalisation for a new
 dataset

The cached interpolant was only replaced if the shapes were incompatible, so
the normalisation at the masses of an earlier dataset could be used.
---
 gwpopulation/models/mass.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 5cf6c9b..4fcbb6f 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -543,6 +543,7 @@ class BaseSmoothedMassDistribution:
     """
 
     primary_model = None
+    _cached_masses = None
 
     @property
     def variable_names(self):
@@ -621,11 +622,9 @@ class BaseSmoothedMassDistribution:
         )
 
         try:
-            if self.cache:
-                p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
-            else:
+            if not self.cache or self._cached_masses is not dataset["mass_1"]:
                 self._cache_q_norms(dataset["mass_1"])
-                p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
+            p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
         except (AttributeError, TypeError, ValueError):
             self._cache_q_norms(dataset["mass_1"])
             p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
@@ -655,6 +654,7 @@ class BaseSmoothedMassDistribution:
         self._q_interpolant = _setup_interpolant(
             self.m1s, masses, kind="linear", backend=xp
         )
+        self._cached_masses = masses
 
     @staticmethod
     def smoothing(masses, mmin, mmax, delta_m):
-- 
2.43.0


From 67e49dccaaaed78138642d2438829fa85bae2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 22/31] fix: keep the model settings when more spline nodes are
 provided

The range, interpolation order and regularization were reset to their
defaults, and the base class raised TypeError.
---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From ef5116c6ebd14d82f4688337d55edc98db7caa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 23/31] fix: normalise InterpolatedPowerlaw over the range of
 its nodes

The density is zero outside of the nodes but the norm included that region.
---
 gwpopulation/models/mass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 4fcbb6f..0d8b9cb 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -936,10 +936,12 @@ class InterpolatedPowerlaw(
         )
         p_m *= self.p_x_unnormed(dataset, "mass_1", m_splines, f_splines, **kwargs)
 
-        norm = self.norm_p_m1(delta_m=delta_m, f_splines=f_splines, **kwargs)
+        norm = self.norm_p_m1(
+            delta_m=delta_m, f_splines=f_splines, m_splines=m_splines, **kwargs
+        )
         return p_m / norm
 
-    def norm_p_m1(self, delta_m, f_splines=None, **kwargs):
+    def norm_p_m1(self, delta_m, f_splines=None, m_splines=None, **kwargs):
         mmin = kwargs.get("mmin", self.mmin)
         p_m = self.__class__.primary_model(
             self.m1s, **{key: kwargs[key] for key in ["alpha", "mmin", "mmax"]}
@@ -948,5 +950,6 @@ class InterpolatedPowerlaw(
             delta_m > 0
         )
         p_m *= xp.exp(self._norm_spline(y=f_splines))
+        p_m *= (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From a0a39df18959de1baa0d67c5d652a886dfaa5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:33 +0000
Subject: [PATCH 24/31] fix: no smoothing at exactly the minimum mass for
 delta_m=0 with jax

0 / 0 was mapped to the start rather than the end of the window, so jax gave
zero where numpy returns the unsmoothed density.
---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 0d8b9cb..6a9cd2f 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -674,7 +674,7 @@ class BaseSmoothedMassDistribution:
         See also, https://en.wikipedia.org/wiki/Window_function#Planck-taper_window
         """
         if "jax" in xp.__name__ or delta_m > 0.0:
-            shifted_mass = xp.nan_to_num((masses - mmin) / delta_m, nan=0)
+            shifted_mass = xp.nan_to_num((masses - mmin) / delta_m, nan=1)
             shifted_mass = xp.clip(shifted_mass, 1e-6, 1 - 1e-6)
             exponent = 1 / shifted_mass - 1 / (1 - shifted_mass)
             window = scs.expit(-exponent)
-- 
2.43.0


From d16cdc16124825e59b05b17ad56209cd96f40905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:14 +0000
Subject: [PATCH 25/31] fix: evaluate spline models at the dataset they are
 called with

The interpolant was bound to the first dataset, so calls with any other one
used the wrong points or failed.
---
 gwpopulation/models/interped.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..6f32e4b 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -119,11 +119,25 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
+        self._spline_nodes = to_numpy(func(nodes))
         self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
         self._data_spline = {
             param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
             for param in self.parameters
         }
+        self._cached_values = {param: values[param] for param in self.parameters}
+
+    def _get_data_spline(self, parameter, values):
+        """
+        The interpolant at the provided values, the cached one if it applies to
+        these values, otherwise a new one.
+        """
+        if self._cached_values[parameter] is values:
+            return self._data_spline[parameter]
+        func = xp.log if self.log_nodes else xp.array
+        return _setup_interpolant(
+            self._spline_nodes, func(values), kind=self.kind, backend=xp
+        )
 
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
@@ -150,7 +164,7 @@ class InterpolatedNoBaseModelIdentical:
         if self._norm_spline is None:
             self.setup_interpolant(x_splines, dataset)
 
-        perturbation = self._data_spline[parameter](y=f_splines)
+        perturbation = self._get_data_spline(parameter, dataset[parameter])(y=f_splines)
 
         p_x = xp.exp(perturbation)
         p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
-- 
2.43.0


From ec851bcf953445e72c62f67cad1ab9511d67ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:14 +0000
Subject: [PATCH 26/31] fix: update spline models when the nodes are moved

The interpolant was bound to the first node positions, while the range was
that of the current ones.
---
 gwpopulation/models/interped.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 6f32e4b..c47bb38 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -119,6 +119,7 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
+        self._nodes = to_numpy(nodes)
         self._spline_nodes = to_numpy(func(nodes))
         self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
         self._data_spline = {
@@ -127,6 +128,16 @@ class InterpolatedNoBaseModelIdentical:
         }
         self._cached_values = {param: values[param] for param in self.parameters}
 
+    def _nodes_moved(self, nodes):
+        """
+        Whether the nodes differ from the cached ones. Traced nodes cannot be
+        compared and are assumed not to have moved.
+        """
+        try:
+            return not np.array_equal(to_numpy(nodes), self._nodes)
+        except TypeError:
+            return False
+
     def _get_data_spline(self, parameter, values):
         """
         The interpolant at the provided values, the cached one if it applies to
@@ -161,7 +172,7 @@ class InterpolatedNoBaseModelIdentical:
             The unnormalized likelihood of the dataset given the model at the
             provided points
         """
-        if self._norm_spline is None:
+        if self._norm_spline is None or self._nodes_moved(x_splines):
             self.setup_interpolant(x_splines, dataset)
 
         perturbation = self._get_data_spline(parameter, dataset[parameter])(y=f_splines)
-- 
2.43.0


From 83829839dcec66b7c0ababbb967d808b231a6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:40 +0000
Subject: [PATCH 27/31] fix: resample injections with scalar meta data in the
 numpyro model

---
 gwpopulation/experimental/numpyro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..136dd13 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -139,7 +139,8 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        # skip meta data, e.g., the total number of injections
+        fit_keys = [key for key in data if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From 17b4c5dc9d31fa96ef85a4838839307937e66ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:40 +0000
Subject: [PATCH 28/31] fix: do not trace the additional arguments of a jitted
 likelihood

---
 gwpopulation/experimental/jax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..0625560 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -56,11 +56,11 @@ class JittedLikelihood(Likelihood):
             kwargs = dict()
         self.kwargs = kwargs
         self._likelihood = likelihood
-        self.likelihood_func = jit(partial(likelihood_func, likelihood))
+        self.likelihood_func = jit(partial(likelihood_func, likelihood, **kwargs))
         super().__init__()
 
     def __getattr__(self, name):
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-        return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+        return float(np.nan_to_num(self.likelihood_func(parameters)))
-- 
2.43.0


From dff35a697c7694d2d4c34316e8d8fd7c1c1b6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:52 +0000
Subject: [PATCH 29/31] fix: keep spline models finite when the extrapolated
 spline overflows

---
 gwpopulation/models/interped.py | 10 +++++-----
 gwpopulation/models/mass.py     |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index c47bb38..0c9c838 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -177,11 +177,11 @@ class InterpolatedNoBaseModelIdentical:
 
         perturbation = self._get_data_spline(parameter, dataset[parameter])(y=f_splines)
 
-        p_x = xp.exp(perturbation)
-        p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
+        in_bounds = (dataset[f"{parameter}"] >= x_splines[0]) & (
             dataset[f"{parameter}"] <= x_splines[-1]
         )
-        return p_x
+        # the extrapolated spline can overflow
+        return xp.exp(xp.where(in_bounds, perturbation, -xp.inf))
 
     def norm_p_x(self, f_splines=None, x_splines=None, **kwargs):
         """
@@ -201,8 +201,8 @@ class InterpolatedNoBaseModelIdentical:
             The normalization of the spline
         """
         perturbation = self._norm_spline(y=f_splines)
-        p_x = xp.exp(perturbation)
-        p_x *= (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        in_bounds = (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        p_x = xp.exp(xp.where(in_bounds, perturbation, -xp.inf))
         norm = trapezoid(p_x, self._xs)
         return norm
 
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 6a9cd2f..d75feb9 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -949,7 +949,7 @@ class InterpolatedPowerlaw(
         p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m) ** (
             delta_m > 0
         )
-        p_m *= xp.exp(self._norm_spline(y=f_splines))
-        p_m *= (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
+        in_bounds = (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
+        p_m *= xp.exp(xp.where(in_bounds, self._norm_spline(y=f_splines), -xp.inf))
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 0628e2e9273139e662e3249b9846b0c2fe55fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 30/31] fix: keep interpolants usable after their first
 evaluation is compiled

The interpolation cache of a dataset was filled with traced arrays when the
first evaluation happened inside jax.jit or jax.vmap, so that any later call
with the same data raised an UnexpectedTracerError.
---
 gwpopulation/models/interped.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 0c9c838..c758ac0 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -1,3 +1,4 @@
+from contextlib import nullcontext
 from functools import partial
 
 import numpy as np
@@ -12,6 +13,29 @@ __all__ = [
 ]
 
 
+def _eager(*arrays, backend=None):
+    """
+    Context manager to operate directly on the arrays, even while :code:`jax` is
+    tracing the calling function, so that the result can be used by later calls.
+    Operations on traced arrays remain traced.
+
+    Parameters
+    ==========
+    arrays: array-like
+        The arrays to be operated on.
+    backend: module
+        The backend to use, default=:code:`numpy`.
+    """
+    if backend is None:
+        backend = xp
+    if "jax" in backend.__name__:
+        import jax
+
+        if not any(isinstance(array, jax.core.Tracer) for array in arrays):
+            return jax.ensure_compile_time_eval()
+    return nullcontext()
+
+
 def _setup_interpolant(nodes, values, kind="cubic", backend=None):
     """
     Create a caching spline interpolant.
@@ -37,9 +61,11 @@ def _setup_interpolant(nodes, values, kind="cubic", backend=None):
         backend = xp
 
     nodes = to_numpy(nodes)
-    interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
-    interpolant.conversion = backend.array(interpolant.conversion)
-    interpolant = partial(interpolant, backend.array(values))
+    with _eager(values, backend=backend):
+        interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
+        interpolant.conversion = backend.array(interpolant.conversion)
+        interpolant = partial(interpolant, backend.array(values))
+        interpolant()
     return interpolant
 
 
-- 
2.43.0


From e9a822749c70bac96a62cb2408743fd4aff9f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 31/31] fix: allow the first evaluation of a spline model to be
 compiled

The node positions and normalisation grid became traced arrays inside jax.jit
although they are constants, and could not be converted to numpy.
---
 gwpopulation/models/interped.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index c758ac0..be92efb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -146,12 +146,17 @@ class InterpolatedNoBaseModelIdentical:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
         self._nodes = to_numpy(nodes)
-        self._spline_nodes = to_numpy(func(nodes))
-        self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
-        self._data_spline = {
-            param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
-            for param in self.parameters
-        }
+        with _eager(nodes):
+            self._spline_nodes = to_numpy(func(nodes))
+            self._norm_spline = _setup_interpolant(
+                self._spline_nodes, func(self._xs), **kwargs
+            )
+        self._data_spline = dict()
+        for param in self.parameters:
+            with _eager(values[param]):
+                self._data_spline[param] = _setup_interpolant(
+                    self._spline_nodes, func(values[param]), **kwargs
+                )
         self._cached_values = {param: values[param] for param in self.parameters}
 
     def _nodes_moved(self, nodes):
@@ -252,7 +257,9 @@ class InterpolatedNoBaseModelIdentical:
         f_splines = xp.array([kwargs[key] for key in self.fkeys])
         if self.regularize:
             f_splines *= kwargs[f"rms{self.base}"] / xp.mean(f_splines**2) ** 0.5
-        x_splines = xp.array([kwargs[key] for key in self.xkeys])
+        x_splines = [kwargs[key] for key in self.xkeys]
+        with _eager(*x_splines):
+            x_splines = xp.array(x_splines)
         return f_splines, x_splines
 
     def p_x_identical(self, dataset, **kwargs):
-- 
2.43.0

