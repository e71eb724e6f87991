From f98527191c9bce23dc0d0641a66c46633e82f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 01/33] fix: honour parallax when light_delay is enabled

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From 4691ba2bb9ee40713f4128a3bc614d35e942d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 02/33] fix: finite stellar acceleration for massless planets

---
 src/exoplanet/orbits/keplerian.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..1915d60 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -678,33 +678,37 @@ class KeplerianOrbit:
         v = self.get_star_velocity(t)
         return -conv * v[2]
 
-    def _get_acceleration(self, a, m, t):
+    def _get_acceleration(self, a, t):
+        # Note: these are written in terms of the mean motion instead of the
+        # velocity amplitude because the latter would be 0/0 for the star when
+        # the planet is massless
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
         if self.ecc is None:
-            factor = -(K**2) / a
+            factor = -(self.n**2) * a
         else:
             factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
+                -(self.n**2)
+                * a
+                * ((self.ecc * cosf + 1) / (1 - self.ecc**2)) ** 2
             )
         return self._rotate_vector(factor * cosf, factor * sinf)
 
     def get_planet_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_planet, -self.m_star, t)
+            for x in self._get_acceleration(self.a_planet, t)
         )
 
     def get_star_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_star, self.m_planet, t)
+            for x in self._get_acceleration(self.a_star, t)
         )
 
     def get_relative_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(-self.a, -self.m_total, t)
+            for x in self._get_acceleration(-self.a, t)
         )
 
     def in_transit(self, t, r=0.0, texp=None, light_delay=False):
-- 
2.43.0


From eb24f7c1a389c73efeade14cfe35658c9dec6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 03/33] fix: broadcast the orbital elements in
 KeplerianOrbit.in_transit

---
 src/exoplanet/orbits/keplerian.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 1915d60..c364814 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -747,14 +747,18 @@ class KeplerianOrbit:
             flag = z
 
         else:
+            # The contact_points op requires all inputs to have the same shape
+            z = pt.zeros_like(
+                z + self.ecc + self.cos_omega + self.cos_incl + R + r
+            )
             M_contact = ops.contact_points(
-                self.a,
-                self.ecc,
-                self.cos_omega,
-                self.sin_omega,
+                self.a + z,
+                self.ecc + z,
+                self.cos_omega + z,
+                self.sin_omega + z,
                 self.cos_incl + z,
                 self.sin_incl + z,
-                R + r,
+                R + r + z,
             )
             flag = M_contact[2]
 
-- 
2.43.0


From 5353f378de724cb24ab7d36599e43d25f824ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 04/33] fix: support one exposure time per timestamp in
 in_transit

---
 src/exoplanet/orbits/keplerian.py | 4 ++++
 src/exoplanet/orbits/simple.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c364814..dabf75a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -773,6 +773,10 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim > 0:
+                # One exposure time per timestamp
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..692026b 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,10 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim > 0:
+                # One exposure time per timestamp
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 2d767608adfa7656ab9b4feeb9af8a594d28ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 05/33] fix: TTVOrbit positions with light_delay

---
 src/exoplanet/orbits/ttv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..6e429ed 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -172,10 +172,12 @@ class TTVOrbit(KeplerianOrbit):
             for i, tts in enumerate(self.all_transit_times)
         ]
 
-    def _get_model_dt(self, t):
+    def _get_model_dt(self, t, _pad=True):
+        # If the times aren't padded, the last axis of t runs over planets
         vals = []
         for i in range(len(self.ttvs)):
-            inds = pt.extra_ops.searchsorted(self._bin_edges[i], t)
+            ti = t if _pad else t[..., i]
+            inds = pt.extra_ops.searchsorted(self._bin_edges[i], ti)
             vals.append(self._bin_values[i][inds])
         return pt.stack(vals, -1)
 
@@ -184,4 +186,4 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        return t - self._get_model_dt(t, _pad=False)
-- 
2.43.0


From dc171a314a7f9a3f37348162fdde6f1a7f37b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 06/33] fix: include a transit at max_time in
 compute_expected_transit_times

---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 6e429ed..d1374ee 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From 6f347156a5fc6b9bcb163f8f7b81c1234617da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 07/33] fix: place unlabelled transits on the TTV ephemeris

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index d1374ee..bc53f47 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From bfcf317f472d4fa47a0d00d5b1e88aade5244efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 08/33] fix: the lower edge of an interpolation grid is in
 bounds

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b72eca0 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (x > grid[-1])
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From e74a802d242925a914a7431fe8053b28a7c0408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 09/33] fix: regular grid interpolation of vector-valued
 functions

---
 src/exoplanet/interp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b72eca0..f6de64f 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -49,9 +49,12 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(
+            weight, values.ndim - ndim
+        )
 
     if fill_value is not None:
+        out_of_bounds = pt.shape_padright(out_of_bounds, values.ndim - ndim)
         result = pt.switch(out_of_bounds, fill_value, result)
 
     return result
-- 
2.43.0


From e804e1f6fda7580089232c3e23af6a7c36df4cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 10/33] fix: estimate_semi_amplitude for a Quantity without
 uncertainties

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..2cbd0bf 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From 1ad1621d5727fad5a0e4ee269df9d2fe0ef0b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 11/33] fix: off-by-one in the index returned by find_peaks

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 2cbd0bf..8d54426 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From fabf9fb40c50cff55d9cc094cc8b845fffe544ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 12/33] fix: honour the minimum_period argument of
 bls_estimator

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 8d54426..0d7ba2d 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From 23d7cc299a2abeac5c3915da161c6caace4956a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 13/33] fix: apply units when computing a from the transit
 duration

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index dabf75a..32287b5 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -124,6 +124,9 @@ class KeplerianOrbit:
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            duration = to_unit(duration, u.day)
+            period = to_unit(period, u.day)
+            r_star = to_unit(r_star, u.R_sun)
             aor, daordtau = get_aor_from_transit_duration(
                 duration, period, b, ror=ror
             )
-- 
2.43.0


From 78b2e353dde079f191ffa82e096192bf42c613d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 14/33] fix: reference transit time when omega is exactly -pi/2

---
 src/exoplanet/orbits/keplerian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 32287b5..2b475ab 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -205,10 +205,10 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            # This is well defined for all omega, including omega = -pi/2
+            E0 = pt.arctan2(
+                pt.sqrt(1 - self.ecc**2) * self.cos_omega,
+                self.ecc + self.sin_omega,
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-- 
2.43.0


From de2c6cac930586b394a72836db140d93ef7a5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 15/33] fix: honour the initial value in unit_disk

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From 75007598f8f68fe21f438455f654d4b9126a2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 16/33] fix: duration Jacobians of a_star and a_planet for
 massive planets

---
 src/exoplanet/orbits/keplerian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 2b475ab..0716a5a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -154,11 +154,14 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
+
+            # With the period, r_star, and m_planet fixed, the total mass is
+            # also a function of a: m_total ~ a**3
             self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
+                -2 * dadtau * self.m_planet / self.m_total
             )
-            self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
+            self.jacobians["duration"]["a_planet"] = -dadtau * (
+                1 + 2 * self.m_planet / self.m_total
             )
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
-- 
2.43.0


From 7899ab0bb31861c8d6c2403ffd4c0d999ccfce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 17/33] fix: impact parameter implied by the duration of an
 eccentric transit

---
 src/exoplanet/orbits/keplerian.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 0716a5a..4bbd7f4 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -246,9 +246,16 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
+            # Equations 14 and 16 from Winn (2010)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * incl_factor
+                * pt.sqrt(ome2)
+                / self.period
+            )
             c2 = c * c
-            aor = self.a_planet / self.r_star
+            aor = self.a / self.r_star
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
                 (aor**2 * c2 - 1)
-- 
2.43.0


From a046704d411b4e787f0ea565f50242006bd2a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 18/33] fix: accuracy of the light travel time delay

---
 src/exoplanet/orbits/keplerian.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 4bbd7f4..053df54 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -463,17 +463,14 @@ class KeplerianOrbit:
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
-        delay = pt.switch(
-            pt.lt(pt.abs(az), 1.0e-10),
-            (z0 - z) / (c_light + vz),
-            (c_light / az)
-            * (
-                (1 + vz / c_light)
-                - pt.sqrt(
-                    (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
-                )
-            ),
+        # The delay is the small root of
+        #     delay**2 * az / 2 + delay * (c_light + vz) - (z0 - z) = 0
+        # written in the form that doesn't cancel when az is small
+        beta = 1 + vz / c_light
+        delay = (
+            2
+            * ((z0 - z) / c_light)
+            / (beta + pt.sqrt(beta**2 + 2 * az * (z0 - z) / c_light**2))
         )
 
         if _pad:
-- 
2.43.0


From 6e7810674d3073b901ba1281f9b2bb5e498f41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 19/33] fix: light delay of the star when the planets are
 massless

---
 src/exoplanet/orbits/keplerian.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 053df54..1f7c513 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -445,20 +445,23 @@ class KeplerianOrbit:
         # in the z direction
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
-            r = a
+            roa = 1.0
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
-            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            roa = (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
             vz = vamp * self.sin_incl * (self.ecc * self.cos_omega + cwf)
 
         # True position of the body
+        r = a * roa
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
-        # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        # Component of the acceleration in the z direction; this is written in
+        # terms of r / a because that is well defined for a massless planet,
+        # where the star has a = 0
+        az = -(angvel**2) * z / roa**3
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From 5d61bf3f4c853cf57040384a137aa087ed9e3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 20/33] fix: refuse light_delay in
 SimpleTransitOrbit.get_planet_position

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 692026b..e3a4b80 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -40,7 +40,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From e7d064692f3fd8243f9b1f12a1ec05fa2edb9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 21/33] fix: use the converted arguments in SimpleTransitOrbit

---
 src/exoplanet/orbits/simple.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index e3a4b80..a094de8 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -1,7 +1,5 @@
 __all__ = ["SimpleTransitOrbit"]
 
-import numpy as np
-
 from exoplanet.compat import tensor as pt
 from exoplanet.utils import as_tensor_variable
 
@@ -29,8 +27,10 @@ class SimpleTransitOrbit:
         self.r_star = as_tensor_variable(r_star)
 
         self._b_norm = self.b * self.r_star
-        x2 = r_star**2 * ((1 + ror) ** 2 - b**2)
-        self.speed = 2 * np.sqrt(x2) / duration
+        x2 = self.r_star**2 * (
+            (1 + as_tensor_variable(ror)) ** 2 - self.b**2
+        )
+        self.speed = 2 * pt.sqrt(x2) / self.duration
 
         self._half_period = 0.5 * self.period
         self._ref_time = self.t0 - self._half_period
-- 
2.43.0


From 93e8f53590cfc20fde90c2c0e418d5bc6353d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 22/33] fix: finite gradient of the light curve at the center
 of the star

---
 src/exoplanet/light_curves/limb_dark.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..7c3de5e 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -213,7 +213,11 @@ class LimbDarkLightCurve:
         # Evalute the coordinates of the transiting body in the plane of the
         # sky
         coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
-        b = pt.sqrt(coords[0] ** 2 + coords[1] ** 2)
+        # The gradient of the square root is not finite at the center of the
+        # star, but the light curve is an even function of b
+        b2 = coords[0] ** 2 + coords[1] ** 2
+        center = pt.eq(b2, 0.0)
+        b = pt.switch(center, 0.0, pt.sqrt(pt.switch(center, 1.0, b2)))
         b = pt.reshape(b, rgrid.shape)
         los = pt.reshape(coords[2], rgrid.shape)
 
-- 
2.43.0


From 90bebb3088348558ab12a63a2812eef1fcd4ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 23/33] fix: gradient of the light curve by the radius at the
 center of the star

---
 src/exoplanet/light_curves/limb_dark.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index 7c3de5e..81499ef 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -213,12 +213,12 @@ class LimbDarkLightCurve:
         # Evalute the coordinates of the transiting body in the plane of the
         # sky
         coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
-        # The gradient of the square root is not finite at the center of the
-        # star, but the light curve is an even function of b
-        b2 = coords[0] ** 2 + coords[1] ** 2
-        center = pt.eq(b2, 0.0)
-        b = pt.switch(center, 0.0, pt.sqrt(pt.switch(center, 1.0, b2)))
-        b = pt.reshape(b, rgrid.shape)
+        # The light curve is an even function of b, but the gradients of the
+        # square root and of the limb darkening op are not well defined at the
+        # center of the star so we never evaluate them exactly there. This
+        # doesn't change the value to within the floating point precision.
+        b2 = pt.reshape(coords[0] ** 2 + coords[1] ** 2, rgrid.shape)
+        b = pt.sqrt(pt.maximum(b2, 1e-24 * orbit.r_star**2))
         los = pt.reshape(coords[2], rgrid.shape)
 
         lc = self._compute_light_curve(
-- 
2.43.0


From a249a51f06986df693aa4efeaf051351be83439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 24/33] fix: give quad_limb_dark a default initial value with
 the requested shape

---
 src/exoplanet/distributions/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..7317130 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,9 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape_kwarg = kwargs.get("shape", ())
+    default = [np.full(shape_kwarg, np.sqrt(0.5)), np.zeros(shape_kwarg)]
+    u = kwargs.pop("initval", kwargs.pop("testval", default))
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From 072d5386b7ed8709df22741f272ebbc6d54e2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 25/33] fix: give bounded kipping13 a default initial value
 with the requested shape

---
 src/exoplanet/distributions/eccentricity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..1539ee0 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -85,8 +85,9 @@ def kipping13(
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
             if ecc is None:
+                default = np.full(kwargs.get("shape", ()), 0.5 * (lower + upper))
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval", kwargs.pop("testval", default)
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From a6c9ceed4da32e47a0d81fb905078bc30d6c02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 26/33] fix: accept testval in kipping13 without bounds and in
 vaneylen19

---
 src/exoplanet/distributions/eccentricity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 1539ee0..296c2b7 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -116,7 +116,9 @@ def kipping13(
                     )
         else:
             if ecc is None:
-                return pm.Beta(name, alpha=alpha, beta=beta, **kwargs)
+                return pm.Beta(
+                    name, alpha=alpha, beta=beta, **_with_initval(**kwargs)
+                )
             else:
                 dist = pm.Beta.dist(alpha=alpha, beta=beta, **kwargs)
 
@@ -178,7 +180,7 @@ def vaneylen19(
                 name,
                 lower=_lower,
                 upper=_upper,
-                **kwargs,
+                **_with_initval(**kwargs),
             )
             ecc_prior = ecc
         else:
-- 
2.43.0


From 22f5c04642832bee5f40dd828fa63fecf5f4cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 27/33] fix: accept a list for the uncertainties in
 estimate_semi_amplitude

---
 src/exoplanet/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 0d7ba2d..3592faa 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -66,6 +66,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
     if yerr is None:
         ivar = np.ones(np.shape(y))
     else:
+        yerr = u.Quantity(np.atleast_1d(yerr), unit=u.m / u.s)
         ivar = 1.0 / yerr**2
 
     periods = u.Quantity(np.atleast_1d(periods), unit=u.day)
-- 
2.43.0


From 61a25edd6524b94663374857213b40c4c7b1c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 28/33] fix: reject the semimajor axis of a circular orbit with
 a duration instead of ignoring it

---
 src/exoplanet/orbits/keplerian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 1f7c513..f94f5d5 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -118,6 +118,11 @@ class KeplerianOrbit:
                     "'b' must be provided for a circular orbit with a "
                     "'duration'"
                 )
+            if a is not None:
+                raise ValueError(
+                    "'a' can't be given for a circular orbit with a "
+                    "'duration'"
+                )
             if ror is None:
                 warnings.warn(
                     "When using the 'duration' parameter in KeplerianOrbit, "
-- 
2.43.0


From 1c00c6ea72a6c16ae047167f380c4dde91478edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 29/33] fix: accept several companions in the secondary eclipse
 light curve

---
 src/exoplanet/light_curves/secondary_eclipse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/secondary_eclipse.py b/src/exoplanet/light_curves/secondary_eclipse.py
index b3ca3e5..897d395 100644
--- a/src/exoplanet/light_curves/secondary_eclipse.py
+++ b/src/exoplanet/light_curves/secondary_eclipse.py
@@ -1,5 +1,6 @@
 __all__ = ["SecondaryEclipseLightCurve"]
 
+from exoplanet.compat import tensor as pt
 from exoplanet.light_curves.limb_dark import LimbDarkLightCurve
 from exoplanet.utils import as_tensor_variable
 
@@ -55,7 +56,7 @@ class SecondaryEclipseLightCurve:
         )
         lc2 = self.secondary.get_light_curve(
             orbit=orbit2,
-            r=orbit.r_star,
+            r=orbit.r_star + pt.zeros_like(r),
             t=t,
             texp=texp,
             oversample=oversample,
-- 
2.43.0


From d216fab801310b342a634889e99869539e0ae92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 30/33] fix: accept vector and shared ephemerides in
 InterpolatedLightCurve

---
 src/exoplanet/light_curves/interpolated.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..4bcb3d9 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -75,6 +75,11 @@ class InterpolatedLightCurve:
         else:
             num_planets = int(self.num_planets)
 
+        # The ephemeris of each planet as vectors, even when they are given as
+        # scalars or shared by several planets
+        t0s = pt.flatten(orbit.t0 + pt.zeros_like(orbit.period))
+        periods = pt.flatten(orbit.period + pt.zeros_like(orbit.t0))
+
         if num_planets <= 1:
             func = _wrapper(
                 self.base_light_curve,
@@ -86,11 +91,11 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0
-            mx = orbit.t0 + orbit.period
+            mn = t0s[0]
+            mx = t0s[0] + periods[0]
             return interp(
                 0,
-                pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
+                pt.mod(t - t0s[0], periods[0]) + t0s[0],
                 mn,
                 mx,
                 (mx - mn) / (self.num_phase + 1),
@@ -109,12 +114,12 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0[n]
-            mx = orbit.t0[n] + orbit.period[n]
+            mn = t0s[n]
+            mx = t0s[n] + periods[n]
             ys.append(
                 interp(
                     n,
-                    pt.mod(t - orbit.t0[n], orbit.period[n]) + orbit.t0[n],
+                    pt.mod(t - t0s[n], periods[n]) + t0s[n],
                     mn,
                     mx,
                     (mx - mn) / (self.num_phase + 1),
-- 
2.43.0


From c02967b0c744f27f9660aa9ee150a8f5520c8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 31/33] fix: accept a list of times in in_transit

---
 src/exoplanet/orbits/keplerian.py | 1 +
 src/exoplanet/orbits/simple.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index f94f5d5..7d69a43 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -746,6 +746,7 @@ class KeplerianOrbit:
                 "Light travel time delay not yet implemented for `in_transit`"
             )
 
+        t = as_tensor_variable(t)
         z = pt.zeros_like(self.a)
         r = as_tensor_variable(r) + z
         R = self.r_star + z
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index a094de8..53090b0 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -90,6 +90,7 @@ class SimpleTransitOrbit:
             raise NotImplementedError(
                 "Light travel time delay is not implemented for simple orbits"
             )
+        t = as_tensor_variable(t)
         dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
         dt -= self._half_period
         if r is None:
-- 
2.43.0


From 40a4b14b9b1f57107a7a10b3c82909e21f00e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 32/33] fix: one array of expected transit times per planet
 when t0 or the period is shared

---
 src/exoplanet/orbits/ttv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index bc53f47..b607b4b 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -20,8 +20,9 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
         A list of arrays of expected transit times for each planet
 
     """
-    periods = np.atleast_1d(period)
-    t0s = np.atleast_1d(t0)
+    periods, t0s = np.broadcast_arrays(
+        np.atleast_1d(period), np.atleast_1d(t0)
+    )
     transit_times = []
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
-- 
2.43.0


From 461e9cc7386159c0b5ecb80a84ec4ea7e42e3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 33/33] fix: accept an explicit model in quad_limb_dark

---
 src/exoplanet/distributions/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 7317130..9d4982a 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -82,7 +82,11 @@ def quad_limb_dark(name, **kwargs):
     <https://arxiv.org/abs/1308.0009>`_ reparameterization of the two-parameter
     limb darkening model to allow for efficient and uninformative sampling.
     """
-    add_citations_to_model(("kipping13",), kwargs.get("model", None))
+    model = kwargs.pop("model", None)
+    if model is not None:
+        with model:
+            return quad_limb_dark(name, **kwargs)
+    add_citations_to_model(("kipping13",))
 
     shape_kwarg = kwargs.get("shape", ())
     default = [np.full(shape_kwarg, np.sqrt(0.5)), np.zeros(shape_kwarg)]
-- 
2.43.0

