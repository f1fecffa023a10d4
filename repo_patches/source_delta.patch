From 4fe54c1e521deb1fd1ba1219fd497bb6f12369be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/46] fix: keep accumulating depth and stress below a layer
 equal to the last layer

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..2a765a6 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2135,7 +2135,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From e48986f24c24003afbcab4759a6ba838feb3f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 02/46] fix: refer to the requested layer when a profile holds
 equal layers

---
 src/pystrata/site.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 2a765a6..0a337e8 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2106,6 +2106,10 @@ class Profile(collections.abc.Container):
         return Profile([layer.copy() for layer in self], self.wt_depth)
 
     def index(self, layer):
+        # Prefer the layer itself, as distinct layers may compare equal
+        for i, other in enumerate(self.layers):
+            if other is layer:
+                return i
         return self.layers.index(layer)
 
     def append(self, layer):
@@ -2270,8 +2274,8 @@ class Profile(collections.abc.Container):
             i, depth_within = self.lookup_depth(depth)
             layer = self[i]
         elif index is not None and depth is None:
-            layer = self[index]
-            i = self.index(layer)
+            i = range(len(self))[index]
+            layer = self[i]
             depth_within = 0
         else:
             raise NotImplementedError
-- 
2.43.0


From c747d35094e7821425a4bd50c1be6d7535e0eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 03/46] fix: make the hash of soil types and layers stable and
 consistent with equality

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 0a337e8..02902db 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -364,7 +364,7 @@ class SoilType:
         return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        return hash((type(self), self.name, self.unit_wt))
 
 
 class ModifiedHyperbolicSoilType(SoilType, ABC):
@@ -1768,7 +1768,7 @@ class Layer:
         )
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        return hash((type(self), self.soil_type))
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-- 
2.43.0


From 2ba36f1f402e1ab26c8aeea4dc37203d28357e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 04/46] fix: iterate over each soil type of a profile once

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 02902db..f05b699 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2151,7 +2151,7 @@ class Profile(collections.abc.Container):
             if layer.soil_type in yielded:
                 continue
             else:
-                yielded.add(layer)
+                yielded.add(layer.soil_type)
                 yield layer.soil_type
 
     def auto_discretize(
-- 
2.43.0


From de3f11ca20ededdc04a0644b6b68798bb5a43f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 05/46] fix: copy a layer with its small-strain velocity

---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index f05b699..5d01b24 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
-- 
2.43.0


From c5fe84d6467655ad0cc6301fef4616875c4124f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 06/46] fix: discretize a profile with its small-strain
 velocities

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d01b24..380461a 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2183,7 +2183,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2191,7 +2191,7 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
-- 
2.43.0


From 236e070ed71e9e5039c7c947dae0bd0c60bfc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 07/46] fix: do not share layers between a profile and its
 discretization

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 380461a..f1144ab 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2196,9 +2196,9 @@ class Profile(collections.abc.Container):
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From 3d3cc7e0af58aab6741453eccad918ba18f48c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 08/46] fix: do not share the half-space between a profile and
 its variations

---
 src/pystrata/variation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..f3970b2 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -315,7 +315,7 @@ class HalfSpaceDepthVariation:
             for _ in range(count - 1):
                 layers.append(parent.copy())
 
-        layers.append(half_space)
+        layers.append(half_space.copy())
 
         return site.Profile(layers, profile.wt_depth)
 
@@ -928,7 +928,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 7ff3d989190930e275a9c9f20e118618746fd794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 09/46] fix: keep the half-space minimum damping when varying
 thickness

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index f3970b2..0a6c0d3 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From 1c674a2a52568521048a7e751c7a547f4345ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 10/46] fix: limit sub-layer thickness when the half-space
 depth is extended

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 0a6c0d3..30c5750 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -305,7 +305,7 @@ class HalfSpaceDepthVariation:
             # Variation extends past the depth of the model
             orig_thick = profile[-2].thickness
             total_thick = orig_thick + depth_within
-            count = np.ceil(total_thick // orig_thick).astype(int)
+            count = np.ceil(total_thick / orig_thick).astype(int)
 
             thick = total_thick / count
 
-- 
2.43.0


From 5ac86090d73ac16be3b6524e577091311fa577c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 11/46] fix: refuse a non-positive varied half-space depth

---
 src/pystrata/variation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 30c5750..017de84 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -291,6 +291,8 @@ class HalfSpaceDepthVariation:
     def __call__(self, profile: site.Profile) -> site.Profile:
         # Update the distribution with the central value of the profile
         varied_depth = self._dist.rvs()
+        if not varied_depth > 0:
+            raise ValueError(f"Half-space depth must be positive, got {varied_depth}")
 
         # Find the layer
         index, depth_within = profile.lookup_depth(varied_depth)
-- 
2.43.0


From a7551d402f197475516e1fa56c5938fbac98e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 12/46] fix: include the half-space in Vs30 of profiles
 shallower than 30 m

---
 src/pystrata/site.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index f1144ab..8af2ba9 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2315,7 +2315,14 @@ class Profile(collections.abc.Container):
     def vs30(self):
         """Compute the Vs30 of the profile."""
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
-        time = np.interp(30, self.depth, tot_time)
+        depths = self.depth
+        if depths[-1] < 30:
+            # Travel time through the half-space
+            tot_time = np.r_[
+                tot_time, tot_time[-1] + (30 - depths[-1]) / self.initial_shear_vel[-1]
+            ]
+            depths = np.r_[depths, 30]
+        time = np.interp(30, depths, tot_time)
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From 9bad5967d6283f5ad337a98cd142923a44386dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 13/46] fix: use the magnitude of the change as the iteration
 error

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 8af2ba9..7cc60af 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs((self.previous - self.value) / self.value))
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From 3f875775ffef62fdb41a8d9a9f54a7b68cb41523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 14/46] fix: do not accept strains held at the strain limit as
 converged

---
 src/pystrata/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..ba5e32d 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -801,7 +801,7 @@ class EquivalentLinearCalculator(LinearElasticCalculator):
 
             # Maximum error (damping and shear modulus) over all layers
             max_error = max(profile.max_error)
-            if max_error < self.tolerance:
+            if max_error < self.tolerance and not limited_strains:
                 break
 
             # Break, if the strains were limited the last two iterations.
-- 
2.43.0


From 926dbc2188aca01caeeccc697ecc171621e8ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 15/46] fix: provide peak acceleration and velocity of RVT
 motions

---
 src/pystrata/motion.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..e39e3e0 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
-- 
2.43.0


From 067c0a402f1d1f49ef6f483295d0d68bd4a03c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 16/46] fix: support odd lengths of the Fourier amplitude
 spectrum

---
 src/pystrata/motion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index e39e3e0..b51839b 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -174,9 +174,9 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step, self._fa_length)
         return ts
 
     def calc_pgv(self, tf=None):
@@ -249,10 +249,11 @@ class TimeSeriesMotion(Motion):
         else:
             n = fa_length
 
+        self._fa_length = n
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
         freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = freq_step * np.arange(1 + n // 2)
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From a51aa8376365d2a8ac23370211a6b39a787109fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 17/46] fix: import without numba

---
 src/pystrata/propagation.py | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index ba5e32d..926e2dd 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,25 +73,6 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
-def _my_trapz_impl(thickness, prop, depth_max):
-    total = 0
-    depth = 0
-
-    for t, p in zip(thickness, prop):
-        depth += t
-        if depth_max < depth:
-            # Partial layer
-            total += (t - (depth - depth_max)) * p
-            break
-        total += t * p
-    else:
-        # Final infinite layer
-        total += (depth_max - depth) * p
-
-    return total / depth_max
-
-
 def _my_trapz_python(thickness, prop, depth_max):
     total = 0
     depth = 0
@@ -110,7 +91,7 @@ def _my_trapz_python(thickness, prop, depth_max):
     return total / depth_max
 
 
-my_trapz = _my_trapz_impl if HAS_NUMBA else _my_trapz_python
+my_trapz = numba.jit(nopython=True)(_my_trapz_python) if HAS_NUMBA else _my_trapz_python
 
 
 def _calc_waves_python(angular_freqs, comp_shear_vels, comp_shear_mods, thicknesses):
-- 
2.43.0


From 6889e12b5088e57bcff5c1db4a7a8150015438ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 18/46] fix: convert percentages once in the Wang and Stokoe
 damping

---
 src/pystrata/site.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 7cc60af..9c68b86 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1294,7 +1294,12 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # The values in kwds were already converted to decimal
+            percents = {
+                k: v * 100 if k in ("fines_cont", "plas_index", "water_cont") else v
+                for k, v in kwds.items()
+            }
+            damping_min = cls.calc_damping_min(soil_group, **percents)
 
         gamma_ratio = (100 * strains / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
-- 
2.43.0


From d193d97eef80b0ff5378df190d2ecd8ac9badf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 19/46] fix: meet the target site attenuation when layers are
 excluded

---
 src/pystrata/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..d5bfc12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,7 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From ec0256658e75553b790724123d0b099689acdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 20/46] fix: align the Arias intensity time series with its
 times

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..ef98bb0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From 157863a2e9cc3fca6340068075eb7993a598fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 21/46] fix: label the cyclic stress ratio profile so that it
 can be plotted

---
 src/pystrata/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index ef98bb0..947cc98 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -796,6 +796,8 @@ class CompatVelProfile(ProfileBasedOutput):
 
 
 class CyclicStressRatioProfile(ProfileBasedOutput):
+    xlabel = "Cyclic Stress Ratio"
+
     # From Idriss and Boulanger (2008, pg. 70):
     # The 0.65 is a constant used to represent the reference stress
     # level. While being somewhat arbitrary it was selected in the
-- 
2.43.0


From 750c244100df2cba69bd7fbee31a5ed93d4714a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 22/46] fix: allow adjusting thicknesses over a half-space
 without thickness

---
 src/pystrata/propagation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 926e2dd..6f770cd 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -511,7 +511,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
             # Prefer the original values so add the difference to the error
             err += calc_rmse(slowness, _slowness)
             if adjust_thickness:
-                err += calc_rmse(thickness, _thickness)
+                # Thickness of the half-space is not adjusted and may be zero
+                err += calc_rmse(thickness[:-1], _thickness[:-1])
             if adjust_site_atten:
                 err += calc_rmse(self._site_atten, site_atten)
             return err
-- 
2.43.0


From d35aaddb0739f34d7ce0fb95dfd4eb3a107ed9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 23/46] fix: return the fitted profile and report the fitted
 site attenuation

---
 src/pystrata/propagation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 6f770cd..42b68b9 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -522,6 +522,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         slowness = res.x[0:nl]
         if adjust_thickness:
             thickness = res.x[nl : (2 * nl)]
+        if adjust_site_atten:
+            self._site_atten = res.x[-1]
 
         profile = Profile(
             [
@@ -533,6 +535,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         # Update the calculated amplificaiton
         self(self.motion, profile, self.loc_input)
 
+        return profile
+
 
 class LinearElasticCalculator(AbstractCalculator):
     """Class for performing linear elastic site response."""
-- 
2.43.0


From 9360bfd96acb87e68bf3385014e04ea6794b31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 24/46] fix: keep the minimum damping of the layers when
 fitting

---
 src/pystrata/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 42b68b9..3fe13ad 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -527,7 +527,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
 
         profile = Profile(
             [
-                Layer(layer.soil_type, thick, 1 / slow)
+                Layer(layer.soil_type, thick, 1 / slow, layer.damping_min)
                 for layer, thick, slow in zip(self.profile, thickness, slowness)
             ],
             self.profile.wt_depth,
-- 
2.43.0


From 8cb55ffda0a68170bdc03ae76949f1e076ff40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 25/46] fix: accept the documented region names of the KEA16
 model

---
 src/pystrata/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..7c609f0 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -53,7 +53,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     1710-1723.
     """
     # Coefficients from Table 2 [cite: 184, 185]
-    if region == "california":
+    if region.lower() == "california":
         b1 = 0.25
         b2 = 104
         b3 = 0.22
@@ -62,7 +62,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
         b6 = -0.00388
         b7 = 0.0002
         b8 = 0.195
-    elif region == "japan":
+    elif region.lower() == "japan":
         b1 = 0.2
         b2 = 40
         b3 = 0.25
-- 
2.43.0


From 6dd58e9c5cdd25d753cb9270cea22fcc693ce7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 26/46] fix: accept a single depth in the KEA16 model

---
 src/pystrata/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 7c609f0..64dad75 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -97,7 +97,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
 
     df = pd.DataFrame(
         {"vs_median": vs_median, "std_vs_ln_units": std_vs_ln_units},
-        index=pd.Index(depth, name="depth"),
+        index=pd.Index(np.atleast_1d(depth), name="depth"),
     )
 
     return df
-- 
2.43.0


From 4c9dea420a253ff858fb87ab99cc028a931968fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 27/46] fix: create a profile from an exported table

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 9c68b86..20aee66 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2069,13 +2069,13 @@ class Profile(collections.abc.Container):
             layers.append(
                 Layer(
                     SoilType(
-                        name=row.get("name", ""),
+                        name=row.get("name", row.get("soil_type", "")),
                         unit_wt=row["unit_wt"],
                         mod_reduc=None,
                         damping=row["damping"],
                     ),
                     row["thickness"],
-                    row["vel_shear"],
+                    row["vel_shear"] if "vel_shear" in row else row["shear_vel"],
                 )
             )
         return cls(layers, wt_depth)
-- 
2.43.0


From e041c3cccbd6dbddbf7cb95f5a7623dfd57c022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 28/46] fix: enumerate logic trees with list values

---
 src/pystrata/logic_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index af0edf9..957fe97 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -401,7 +401,12 @@ class LogicTree:
             branch = Branch({r.name: r for r in reals})
             if self.is_valid(branch):
                 # Create a hashable representation of the branch values
-                branch_key = tuple(sorted((k, v) for k, v in branch.as_dict().items()))
+                branch_key = tuple(
+                    sorted(
+                        (k, tuple(v) if isinstance(v, list) else v)
+                        for k, v in branch.as_dict().items()
+                    )
+                )
                 if branch_key not in seen_branches:
                     seen_branches.add(branch_key)
                     yield branch
-- 
2.43.0


From e5e89c202c93a68443a6593a194d44b2fefdc4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 29/46] fix: compare numbers with text alternatives in logic
 trees

---
 src/pystrata/logic_tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index 957fe97..1f30440 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -59,7 +59,7 @@ class Realization:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, (int, float)):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -123,7 +123,7 @@ class Alternative:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, (int, float)):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -187,7 +187,9 @@ class Node:
         """
         for a in self.alts:
             if (
-                isinstance(value, float) and np.isclose(a.value, value)
+                isinstance(value, float)
+                and isinstance(a.value, (int, float))
+                and np.isclose(a.value, value)
             ) or a.value == value:
                 return a
 
-- 
2.43.0


From 1c4c69ccf8182c49e08a19fed164d18623c0dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 30/46] fix: provide statistics and tables for a single
 recorded run

---
 src/pystrata/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 947cc98..a181251 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -235,7 +235,8 @@ class Output:
             self._values = append_arrays(self._values, values)
 
     def calc_stats(self, as_dataframe=False):
-        ln_values = np.log(self.values)
+        # Treat a single result as one column
+        ln_values = np.log(np.reshape(self.values, (len(self.values), -1)))
         median = np.exp(np.nanmean(ln_values, axis=1))
         ln_std = np.nanstd(ln_values, axis=1)
 
@@ -654,7 +655,7 @@ class ProfileBasedOutput(Output):
         if ref is None:
             ref = np.linspace(0, np.nanmax(self.refs) * 1.05, num=512)
 
-        n = self.values.shape[1]
+        n = len(self.names)
         with np.errstate(divide="ignore", invalid="ignore"):
             # Ignore zeros in the data
             ln_values = np.array([self._ln_interp(i, ref) for i in range(n)]).T
@@ -680,11 +681,12 @@ class ProfileBasedOutput(Output):
     def _ln_interp(self, i, ref):
         """Interpolate the values in log-y space."""
 
-        _ref = self.refs[:, i]
+        # Treat a single result as one column
+        _ref = np.reshape(self.refs, (len(self.refs), -1))[:, i]
         # Only select points with valid entries
         mask = np.isfinite(_ref)
         _ref = _ref[mask]
-        _ln_values = np.log(self.values[mask, i])
+        _ln_values = np.log(np.reshape(self.values, (len(self.values), -1))[mask, i])
 
         if np.any(mask):
             f = interp1d(
@@ -715,7 +717,7 @@ class ProfileBasedOutput(Output):
             columns = self.names
 
         # Ignore zeros in the data
-        n = self.values.shape[1]
+        n = len(self.names)
         values = np.exp(np.array([self._ln_interp(i, ref) for i in range(n)])).T
 
         df = pd.DataFrame(values, index=ref, columns=columns)
-- 
2.43.0


From 4328553d6ad50b845f085b581f64483e3cb704f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 31/46] fix: name a result only when it was computed

---
 src/pystrata/output.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index a181251..9e63ccc 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -373,12 +373,13 @@ class TimeSeriesOutput(LocationBasedOutput):
     def __call__(self, calc, name=None):
         if not isinstance(calc.motion, TimeSeriesMotion):
             raise NotImplementedError
-        Output.__call__(self, calc, name)
         # Compute the response
         loc = self._get_location(calc)
         tf = self._get_trans_func(calc, loc)
         values = calc.motion.calc_time_series(tf)
         values = self._modify_values(calc, loc, values)
+        # Only name the result once it is available
+        Output.__call__(self, calc, name)
         self._add_values(values)
         # Add the reference
         refs = calc.motion.time_step * np.arange(len(values))
@@ -484,7 +485,6 @@ class FourierAmplitudeSpectrumOutput(LocationBasedOutput):
         return self._ko_bandwidth
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
         loc = self._get_location(calc)
         tf = calc.calc_accel_tf(calc.loc_input, loc)
 
@@ -502,6 +502,7 @@ class FourierAmplitudeSpectrumOutput(LocationBasedOutput):
                 self.ko_bandwidth,
             )
 
+        Output.__call__(self, calc, name)
         self._add_values(fas)
 
 
@@ -532,10 +533,10 @@ class ResponseSpectrumOutput(LocationBasedOutput):
         return f"{100 * self.osc_damping:g}%-Damped, Spec. Accel. (g)"
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
         loc = self._get_location(calc)
         tf = calc.calc_accel_tf(calc.loc_input, loc)
         ars = calc.motion.calc_osc_accels(self.freqs, self.osc_damping, tf)
+        Output.__call__(self, calc, name)
         self._add_values(ars)
 
 
@@ -577,7 +578,6 @@ class AccelTransferFunctionOutput(RatioBasedOutput):
         self._absolute = absolute
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
         # Locate position within the profile
         loc_in, loc_out = self._get_locations(calc)
         # Compute the response
@@ -591,6 +591,7 @@ class AccelTransferFunctionOutput(RatioBasedOutput):
         else:
             tf = pykooh.smooth(self.freqs, calc.motion.freqs, tf, self._ko_bandwidth)
 
+        Output.__call__(self, calc, name)
         self._add_values(tf)
 
     @property
@@ -624,7 +625,6 @@ class ResponseSpectrumRatioOutput(RatioBasedOutput):
         return f"{100 * self.osc_damping:g}%-Damped, Resp. Spectral Ratio"
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
         loc_in, loc_out = self._get_locations(calc)
         in_ars = calc.motion.calc_osc_accels(
             self.freqs, self.osc_damping, calc.calc_accel_tf(calc.loc_input, loc_in)
@@ -633,6 +633,7 @@ class ResponseSpectrumRatioOutput(RatioBasedOutput):
             self.freqs, self.osc_damping, calc.calc_accel_tf(calc.loc_input, loc_out)
         )
         ratio = out_ars / in_ars
+        Output.__call__(self, calc, name)
         self._add_values(ratio)
 
 
@@ -732,8 +733,8 @@ class MaxStrainProfile(ProfileBasedOutput):
         super().__init__()
 
     def __call__(self, calc, name=None):
-        ProfileBasedOutput.__call__(self, calc, name)
         values = [0] + [layer.strain_max for layer in calc.profile[:-1]]
+        ProfileBasedOutput.__call__(self, calc, name)
         self._add_values(values)
 
 
@@ -741,13 +742,12 @@ class DampingProfile(ProfileBasedOutput):
     xlabel = "Damping (dec)"
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
-        # Add depth at top of layer
-        self._add_refs(calc.profile.depth)
-
         values = [layer.damping for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
+        Output.__call__(self, calc, name)
+        # Add depth at top of layer
+        self._add_refs(calc.profile.depth)
         self._add_values(values)
 
 
@@ -755,13 +755,12 @@ class ShearModReducProfile(ProfileBasedOutput):
     xlabel = "G/Gmax"
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
-        # Add depth at top of layer
-        self._add_refs(calc.profile.depth)
-
         values = [layer.shear_mod_reduc for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
+        Output.__call__(self, calc, name)
+        # Add depth at top of layer
+        self._add_refs(calc.profile.depth)
         self._add_values(values)
 
 
@@ -772,12 +771,11 @@ class InitialVelProfile(ProfileBasedOutput):
         super().__init__()
 
     def __call__(self, calc, name=None):
+        values = [layer.initial_shear_vel for layer in calc.profile[:-1]]
+        values.insert(0, values[0])
         Output.__call__(self, calc, name)
         # Add depth at top of layer
         self._add_refs(calc.profile.depth)
-
-        values = [layer.initial_shear_vel for layer in calc.profile[:-1]]
-        values.insert(0, values[0])
         self._add_values(values)
 
 
@@ -788,12 +786,11 @@ class CompatVelProfile(ProfileBasedOutput):
         super().__init__()
 
     def __call__(self, calc, name=None):
+        values = [np.min(layer.shear_vel) for layer in calc.profile[:-1]]
+        values.insert(0, values[0])
         Output.__call__(self, calc, name)
         # Add depth at top of layer
         self._add_refs(calc.profile.depth)
-
-        values = [np.min(layer.shear_vel) for layer in calc.profile[:-1]]
-        values.insert(0, values[0])
         self._add_values(values)
 
 
@@ -811,13 +808,13 @@ class CyclicStressRatioProfile(ProfileBasedOutput):
         super().__init__()
 
     def __call__(self, calc, name=None):
-        ProfileBasedOutput.__call__(self, calc, name)
         values = [
             layer.stress_shear_max / layer.stress_vert(layer.thickness / 2, True)
             for layer in calc.profile[:-1]
         ]
         # Repeat the first value for the surface
         values = self._stress_level * np.array([values[0]] + values)
+        ProfileBasedOutput.__call__(self, calc, name)
         self._add_values(values)
 
 
@@ -825,10 +822,10 @@ class MaxAccelProfile(ProfileBasedOutput):
     xlabel = "Max. Accel. (g)"
 
     def __call__(self, calc, name=None):
-        Output.__call__(self, calc, name)
         # Add depth at top of layer
         depths = calc.profile.depth
         values = [self._calc_accel(calc, depth) for depth in depths]
+        Output.__call__(self, calc, name)
         self._add_refs(depths)
         self._add_values(values)
 
-- 
2.43.0


From 04409f4156e9efeb6046018213a591ee05e42e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 32/46] fix: keep the site attenuation when a fit does not
 converge

---
 src/pystrata/propagation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 3fe13ad..de2f968 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -517,7 +517,12 @@ class QuarterWaveLenCalculator(AbstractCalculator):
                 err += calc_rmse(self._site_atten, site_atten)
             return err
 
-        res = minimize(err, initial, method="L-BFGS-B", bounds=bounds)
+        try:
+            res = minimize(err, initial, method="L-BFGS-B", bounds=bounds)
+        except RuntimeError:
+            # Restore the value used for the reported site term
+            self._site_atten = site_atten
+            raise
 
         slowness = res.x[0:nl]
         if adjust_thickness:
-- 
2.43.0


From 236b3b6bc65f572e4ff46567e46c2307f72b674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 33/46] fix: place layers inserted at any list position

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 20aee66..71d7975 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2126,7 +2126,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # The index may be negative, or beyond the end, as with a list
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From 98dbf0e2727f58e8f68949d6c29edf6b4e6fd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 34/46] fix: read nrattle half-spaces with an integer velocity

---
 src/pystrata/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index d5bfc12..28aa3ac 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -272,9 +272,13 @@ def read_nrattle_ctl(fpath):
     profile = []
     while line := lines.pop(0):
         try:
-            profile.append(split_line(line, [int, float, float, float, float]))
+            values = split_line(line, [int, float, float, float, float])
         except ValueError:
             break
+        if len(values) < 5:
+            # The half-space is only defined by a velocity and density
+            break
+        profile.append(values)
 
     d["profile"] = np.rec.fromrecords(
         profile, names="layer,thickness,vel_shear,density,inv_qual"
-- 
2.43.0


From d44fd520949546d22f110a6118a2e2bc4e816661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 35/46] fix: pad results of profiles with integer thicknesses
 or velocities

---
 src/pystrata/output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 9e63ccc..8ec426e 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -158,6 +158,10 @@ def append_arrays(many, single):
     """
     assert np.ndim(single) == 1
 
+    # Missing values cannot be stored with integers
+    many = np.asarray(many, dtype=np.result_type(many, float))
+    single = np.asarray(single, dtype=np.result_type(single, float))
+
     # Check if the values need to be padded to for equal length
     diff = single.shape[0] - many.shape[0]
     if diff < 0:
-- 
2.43.0


From 35d9519c4bdef2e5d9d0c0b91a59db451c03cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 36/46] fix: label Fourier amplitudes with their units

---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 8ec426e..3dbfc2e 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -472,7 +472,7 @@ class StressTSOutput(TimeSeriesOutput):
 class FourierAmplitudeSpectrumOutput(LocationBasedOutput):
     _const_ref = True
     xlabel = "Frequency (Hz)"
-    ylabel = "Fourier Ampl. (cm/s)"
+    ylabel = "Fourier Ampl. (g-s)"
 
     ref_name = "freq"
 
-- 
2.43.0


From 7ad8915cd81d752cc344b23e92f0a535d66fc479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 37/46] fix: vary the soil of equal but separate soil types

---
 src/pystrata/variation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 017de84..c8c44cd 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -914,15 +914,14 @@ class SoilTypeVariation:
         """
         # Map of varied soil types
         varied = {
-            str(st): self(st, sample_index=sample_index)
-            for st in profile.iter_soil_types()
+            st: self(st, sample_index=sample_index) for st in profile.iter_soil_types()
         }
 
         # Create new layers
         end = None if self.vary_bedrock else -1
         layers = [
             site.Layer(
-                varied[str(layer.soil_type)],
+                varied[layer.soil_type],
                 layer.thickness,
                 layer.initial_shear_vel,
                 layer.damping_min,
-- 
2.43.0


From 11f8a6a17ff30ce797fd324436ad5d28cbf42ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 38/46] fix: use a valid covariance for the Toro velocity
 variation

---
 src/pystrata/variation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index c8c44cd..94d83ce 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -26,7 +26,6 @@ from collections.abc import Generator
 import numpy as np
 import numpy.typing as npt
 from scipy import stats
-from scipy.sparse import diags
 
 from . import site
 
@@ -390,13 +389,13 @@ class VelocityVariation:
         # Modify the standard deviation by the truncated norm scale
         std *= randnorm.scale
 
-        var = std**2
-        covar = corr * std[:-1] * std[1:]
+        # The model is a first-order auto-regressive process. The correlation between
+        # two layers is the product of the adjacent-layer correlations between them.
+        mat = np.eye(len(std))
+        for i in range(len(corr)):
+            mat[i, i + 1 :] = mat[i + 1 :, i] = np.cumprod(corr[i:])
 
-        # Main diagonal is the variance
-        mat = diags([covar, var, covar], [-1, 0, 1]).toarray()
-
-        return mat
+        return mat * np.outer(std, std)
 
     @abstractmethod
     def _calc_corr(self, profile):
-- 
2.43.0


From 7271cbbb974a41addad55ddba7687548b6cb8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 39/46] fix: use the midpoint spacing in the Toro velocity
 correlation

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 94d83ce..e99210c 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -565,7 +565,7 @@ class ToroVelocityVariation(VelocityVariation):
         # t variable from Toro; defined as the difference of the midpoint depths
         # Here the thickness is limited to 100 m to prevent underflow on the
         # exponent. For this thickness, the correlation will be minor
-        thick = np.minimum(np.diff(depth), 100)
+        thick = np.minimum(np.diff(depths_mid)[:-1], 100)
 
         # Remove the depth associated with the final layer. We will set that it is
         # perfectly correlated later.
-- 
2.43.0


From 2e4565eef50728f78f3ec8d46f0627f47a85cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 40/46] fix: keep the standard deviations given to the
 depth-dependent generic model

---
 src/pystrata/variation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index e99210c..7edebad 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -773,6 +773,7 @@ class DepthDependToroVelVariation(ToroVelocityVariation):
 
         if "depth" not in kwds:
             p["depth"] = [0, 15]
+        if "ln_std" not in kwds:
             p["ln_std"] = [0.25, 0.15]
 
         p["ln_std_map"] = ln_std_map
-- 
2.43.0


From f9509b3b8b1d264154610e71ffd10c7befb8f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 41/46] fix: compute the scattering attenuation from the
 small-strain velocities

---
 src/pystrata/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 28aa3ac..dd94772 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -338,7 +338,7 @@ def calc_atten_scatter(
             site.Layer(
                 site.SoilType(layer.soil_type.name, layer.soil_type.unit_wt, 0, 0.01),
                 layer.thickness,
-                layer.shear_vel,
+                layer.initial_shear_vel,
                 layer.damping_min,
             )
             for layer in profile
-- 
2.43.0


From aedf2f64bfd555828c979057b970a24e8c3acc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 42/46] fix: accept the oscillator damping in plots of the
 amplification

The keyword was forwarded to pcolormesh, which refuses it.
---
 src/pystrata/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 3dbfc2e..0946593 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -49,6 +49,9 @@ def plot_amplification_evolv(
     ax=None,
     **kwds,
 ):
+    # Not a plotting keyword
+    osc_damping = kwds.pop("osc_damping", 0.05)
+
     # Default plotting kwds. Combine both set of plot keywords and prefer the provided
     kwds = {
         "cmap": "RdBu" if diverging_cmap else "magma_r",
@@ -59,8 +62,6 @@ def plot_amplification_evolv(
     if freqs is None:
         freqs = np.logspace(-1, 2, num=301)
 
-    osc_damping = 0.05 if "osc_damping" not in kwds else kwds["osc_damping"]
-
     ln_freqs = np.log(freqs)
     ln_freqs_mot = np.log(calc.motion.freqs)
 
-- 
2.43.0


From d642a420f4286b7b15e80b0b67cf32bef1369be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 43/46] fix: show all depths in plots of the amplification

The depth axis ended at the first depth, which is usually the surface.
---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 0946593..8a8c7ac 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -107,7 +107,7 @@ def plot_amplification_evolv(
         xscale="log",
         ylabel="Depth (m)",
         yscale="linear",
-        ylim=(depths[0], 0),
+        ylim=(depths[-1], 0),
     )
 
     return ax
-- 
2.43.0


From 25ad32571f80c7e4ea6f6ddec6038e7f84966240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 44/46] fix: evaluate frequency-dependent curves at the strain
 of each frequency

---
 src/pystrata/site.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 71d7975..e7cd597 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -171,8 +171,10 @@ class NonlinearCurve(ABC):
             # 1D interpolate
             values = self._interpolater(ln_strains)
         else:
-            ln_strains = np.atleast_1d(ln_strains)
-            values = np.array([i(ln_strains[0]) for i in self._interpolater])
+            # Values for each frequency, using either a single strain or the
+            # strain at that frequency
+            ln_strains = np.broadcast_to(ln_strains, len(self._interpolater))
+            values = np.array([i(s) for i, s in zip(self._interpolater, ln_strains)])
 
         return np.clip(values, *self._limits)
 
-- 
2.43.0


From eb2bcd810888da61436334d3f264475e8e59ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 45/46] fix: record profile outputs of frequency-dependent
 analyses

---
 src/pystrata/output.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 8a8c7ac..09b9ba7 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -747,7 +747,8 @@ class DampingProfile(ProfileBasedOutput):
     xlabel = "Damping (dec)"
 
     def __call__(self, calc, name=None):
-        values = [layer.damping for layer in calc.profile[:-1]]
+        # Frequency-dependent properties are represented by the largest damping
+        values = [np.max(layer.damping) for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
         Output.__call__(self, calc, name)
@@ -760,7 +761,8 @@ class ShearModReducProfile(ProfileBasedOutput):
     xlabel = "G/Gmax"
 
     def __call__(self, calc, name=None):
-        values = [layer.shear_mod_reduc for layer in calc.profile[:-1]]
+        # Frequency-dependent properties are represented by the largest reduction
+        values = [np.min(layer.shear_mod_reduc) for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
         Output.__call__(self, calc, name)
@@ -814,7 +816,8 @@ class CyclicStressRatioProfile(ProfileBasedOutput):
 
     def __call__(self, calc, name=None):
         values = [
-            layer.stress_shear_max / layer.stress_vert(layer.thickness / 2, True)
+            np.min(layer.stress_shear_max)
+            / layer.stress_vert(layer.thickness / 2, True)
             for layer in calc.profile[:-1]
         ]
         # Repeat the first value for the surface
-- 
2.43.0


From 93a8362ab8db4376730382717828b0ef70154614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 46/46] fix: compare soil types with array-valued parameters

---
 src/pystrata/site.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index e7cd597..9ddee99 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -363,7 +363,17 @@ class SoilType:
         )
 
     def __eq__(self, other) -> bool:
-        return type(self) is type(other) and self.__dict__ == other.__dict__
+        def same(a, b):
+            # Parameters may be arrays, e.g. excitation frequencies
+            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+                return np.array_equal(a, b)
+            return a is b or a == b
+
+        return (
+            type(self) is type(other)
+            and self.__dict__.keys() == other.__dict__.keys()
+            and all(same(v, other.__dict__[k]) for k, v in self.__dict__.items())
+        )
 
     def __hash__(self):
         return hash((type(self), self.name, self.unit_wt))
-- 
2.43.0

