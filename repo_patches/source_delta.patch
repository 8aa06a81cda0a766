From 878e05ae9bce71a987b34c4ff62e0f3c2306e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 01/14] fix: KalmanFilter.sample honours time-varying
 covariances

The loop rebound transition_covariance and observation_covariance to their
first time slice, so every later step drew its noise from step 0's covariance.
---
 pykalman/standard.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..735d9a5 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1162,8 +1162,7 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                cov = newbyteorder(_last_dims(transition_covariance, t - 1), "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1172,13 +1171,11 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            cov = newbyteorder(_last_dims(observation_covariance, t), "=")
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
-                + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
-                )
+                + rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             )
 
         return (states, np.ma.array(observations))
-- 
2.43.0


From fe5f509b604f89143f884f50b705b2d2f7439599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 02/14] fix: loglikelihood accepts time-varying observation
 covariances

filter and smooth select observation_covariance[t]; _loglikelihoods added the
whole [n_timesteps, n_dim_obs, n_dim_obs] array and raised ValueError.
---
 pykalman/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 735d9a5..4083b90 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -173,7 +173,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + _last_dims(observation_covariance, t)
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From c7c849b99527e3a06b2fbf2f1a92a99195482ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 03/14] fix: default em_vars in the square root filters' em

With em_vars unspecified, CholeskyKalmanFilter.em and BiermanKalmanFilter.em
iterated over None and raised TypeError; use the same default as KalmanFilter.
---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..66a8898 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..d0cbc55 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From 600bbdf1cec09ef9f45246440e1951b9823aae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 04/14] fix: filter_update of the square root filters returns a
 [n, n] covariance

It returned a [1, n, n] array, which could not be fed back into filter_update.
---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 66a8898..efad549 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index d0cbc55..30dc98f 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From 43bf374f5a46dc99db030790ff83c77f193402df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 05/14] fix: a single multi-dimensional observation is one time
 step

_parse_observations transposed every [1, k] array, so filtering one time step
of a model with n_dim_obs > 1 raised ValueError. Only transpose when the row
cannot be an observation of the model.
---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 4083b90..91a9e98 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1640,6 +1640,6 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] not in (1, self.n_dim_obs):
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..56c4cb0 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,7 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] not in (1, self.n_dim_obs):
             obs = obs.T
         return obs
 
-- 
2.43.0


From 0375273c97606324d642561bda20ed7fe499f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 06/14] fix: per-time-step transition and observation functions
 of the unscented filters

An [n_timesteps] array of functions was never indexed by time: every step
used functions[0].
---
 pykalman/sqrt/unscented.py | 10 +++++-----
 pykalman/unscented.py      | 27 +++++++++++++++++----------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..2c009be 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
 
 
@@ -457,14 +457,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -516,7 +516,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _function_at(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 56c4cb0..9d3d2d2 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -35,6 +35,13 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _function_at(functions, t):
+    """Get the function for time t from a [1] or [n_timesteps] array of functions."""
+    if len(functions.shape) == 1 and functions.shape[0] > 1:
+        return functions[t]
+    return _last_dims(functions, t, ndims=1)[0]
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -452,13 +459,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +523,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +599,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +657,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -847,12 +854,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1163,12 +1170,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From 66384bfdbc79fc985a471e87ede5798f03226789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 07/14] fix: square root of correlated noise in the square root
 unscented transform

sigma2_noise is an upper factor (sigma2.T.dot(sigma2) is the covariance), but
its columns were stacked as noise points, which adds sigma2.dot(sigma2.T).
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 2c009be..81bbe93 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -140,7 +140,7 @@ def points2moments(points, sigma2_noise=None):
         * (points.T - mu[:, np.newaxis])
     ]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
     return Moments(mu.ravel(), sigma2)
-- 
2.43.0


From 25744121cc5340865e7cd921f65fd5a7d6880991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 08/14] fix: Kalman gain of the square root unscented filter

For more than one observation dimension the two triangular solves were in the
wrong order, inverting R.dot(R.T) where the covariance is R.T.dot(R).
---
 pykalman/sqrt/unscented.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 81bbe93..fa73a52 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -287,8 +287,8 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
 
         # equivalent to this MATLAB code
         # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
-- 
2.43.0


From 274240da795df829a580511cb61ffe69b4999728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 09/14] fix: covariance downdate of the square root unscented
 filter

The downdate must remove K.dot(R.T.dot(R)).dot(K.T); with more than one
observation dimension it removed K.dot(R.dot(R.T)).dot(K.T).
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index fa73a52..498eaf0 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -293,7 +293,7 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From 685a7228769d0f11caaca3bd4f62f8c4939c4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 10/14] fix: negative center weight in the square root
 unscented transform

With 4 or more state dimensions the center weight is negative; the QR step
squared its sign away. Apply the center point with cholupdate instead.
---
 pykalman/sqrt/unscented.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 498eaf0..45cbff5 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -134,15 +134,14 @@ def points2moments(points, sigma2_noise=None):
     mu = points.T.dot(weights_mu)
 
     # make points to perform QR factorization on. each column is one data point
+    # the center point is left for later, as its weight may be negative
     qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
+        np.sqrt(weights_sigma[1:])[np.newaxis, :] * (points[1:].T - mu[:, np.newaxis])
     ]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+    sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From 34daa09dfea1a696909b15517e08cf99f7c0cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 11/14] fix: NaN covariances from the square root unscented
 smoother

The difference of predicted and smoothed covariances is singular whenever
fewer observations than state dimensions arrive (always at a missing
observation), so its square root by downdating divided by zero. Downdate by
the predicted covariance, which leaves a positive definite matrix, and then
add the smoothed covariance.
---
 pykalman/sqrt/unscented.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 45cbff5..b42707e 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -544,8 +544,13 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        sigma2_smooth[t] = cholupdate(
+            cholupdate(
+                sigma2_filt[t], smoother_gain.dot(moments_pred.covariance.T).T, -1.0
+            ),
+            smoother_gain.dot(sigma2_smooth[t + 1].T).T,
+            1.0,
+        )
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From eea50e151336c743a723a2056674bede448ca291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 12/14] fix: UDU' decomposition of integer matrices

udu updates a copy of its argument in place, so for an integer covariance
(e.g. initial_state_covariance=[[2, 1], [1, 2]]) it truncated the updates and
BiermanKalmanFilter silently returned wrong results.
---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efad549..d63dd73 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
-- 
2.43.0


From 09e303b89e7d1d603cf89b148de4e4a9e060d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 13/14] fix: decorrelate time-varying integer observation
 matrices

The decorrelated matrices were stored in a copy of the original array, hence
truncated to integers when that array is an integer array.
---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index d63dd73..d1e2d51 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.zeros(observation_matrices.shape)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From f6a18df74a4ba9805bf981632269e11d2299124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 14/14] fix: check_random_state raises ValueError for an
 invalid seed

format was called on the exception instead of on its message, which raised
AttributeError.
---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0

