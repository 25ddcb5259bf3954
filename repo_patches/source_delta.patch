From 3692e778458a5e66f2233ecb59378e947e7ec926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 01/48] fix: broadcast SpectrumScaling over channel dimensions

---
 src/bijx/bijections/fourier.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 98042f2..27c24cb 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -78,12 +78,19 @@ class SpectrumScaling(ApplyBijection):
         """
         _, shape_info = self.shape_info.process_event(r.shape)
         meta = FourierMeta.create(shape_info.space_shape)
+        scaling = self.scaling
+        # broadcast over trailing channel dimensions
+        channel_scaling = jnp.reshape(
+            scaling, jnp.shape(scaling) + (1,) * shape_info.channel_dim
+        )
         r = jnp.fft.rfftn(r, shape_info.space_shape, shape_info.space_axes)
-        r = r / self.scaling if reverse else r * self.scaling
+        r = r / channel_scaling if reverse else r * channel_scaling
         r = jnp.fft.irfftn(r, shape_info.space_shape, shape_info.space_axes)
 
         factor = meta.mr.astype(int) + meta.mi.astype(int)
-        delta_ld = jnp.sum(factor * jnp.log(jnp.abs(self.scaling)))
+        delta_ld = shape_info.channel_size * jnp.sum(
+            factor * jnp.log(jnp.abs(scaling))
+        )
 
         return r, delta_ld
 
-- 
2.43.0


From 40c55da4393f42c56ed8a07cee629ddba750da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 02/48] fix: sign of the log-density change in SpectrumScaling

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 27c24cb..8a2acc6 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -96,7 +96,7 @@ class SpectrumScaling(ApplyBijection):
 
     def apply(self, x, log_density, reverse=False, **kwargs):
         x, delta = self.scale(x, reverse=reverse)
-        return x, log_density - delta if reverse else log_density + delta
+        return x, log_density + delta if reverse else log_density - delta
 
 
 class FreeTheoryScaling(SpectrumScaling):
-- 
2.43.0


From 256ceeccdca3f9cd42181afd43073dd0f2f7c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 03/48] fix: FreeTheoryScaling with learnable mass or without
 precomputed spectrum

---
 src/bijx/bijections/fourier.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 8a2acc6..c93624f 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -152,13 +152,15 @@ class FreeTheoryScaling(SpectrumScaling):
     ):
         self.half = half
         ks = fft_momenta(space_shape, lattice=finite_size)
+        self.ks = Const(ks)
         self.m2 = m2 if isinstance(m2, nnx.Variable) else Const(m2)
-        if precompute_spectrum and not isinstance(m2, nnx.Variable):
-            scaling = Const(self.spectrum_function(ks, m2))
-        else:
-            scaling = None
 
-        super().__init__(scaling, channel_dim=channel_dim)
+        super().__init__(
+            self.spectrum_function(ks, self.m2.get_value()), channel_dim=channel_dim
+        )
+        if not precompute_spectrum or isinstance(m2, nnx.Variable):
+            # scaling is evaluated on the fly from the current mass
+            self.scaling_var = None
 
     def spectrum_function(self, ks, m2):
         """Compute free field scaling factors from momenta and mass.
@@ -175,10 +177,9 @@ class FreeTheoryScaling(SpectrumScaling):
     @property
     def scaling(self):
         """Multiplicative factor in Fourier space."""
-        scaling_var = self.scaling_var.get_value()
-        if scaling_var is None:
-            return self.spectrum_function(self.ks, self.m2)
-        return scaling_var
+        if self.scaling_var is None:
+            return self.spectrum_function(self.ks.get_value(), self.m2.get_value())
+        return self.scaling_var.get_value()
 
 
 class ToFourierData(Bijection):
-- 
2.43.0


From cf3e42285459ce4b85b7b5ffe45be7888dc6d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 04/48] fix: fold continuum momenta so that conjugate modes
 have equal magnitude

---
 src/bijx/fourier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index f52f1be..8d5b9f9 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -65,6 +65,10 @@ def fft_momenta(
     ks = np.mgrid[tuple(np.s_[:s] for s in shape)]
     if unit:
         return np.moveaxis(ks, 0, -1)
+    if not lattice:
+        # continuum momenta: fold into the first Brillouin zone, so that |k|
+        # is consistent between a mode and its conjugate
+        ks = np.where(ks > shape_factor / 2, ks - shape_factor, ks)
     ks = 2 * jnp.pi * ks / shape_factor
     if lattice:
         # with this true, (finite) lattice spectrum ~ 1 / m^2 + k^2
-- 
2.43.0


From d3de71e87968af448851ca30298a039e0783d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 05/48] fix: momentum magnitudes of FourierMeta agree for
 conjugate modes

---
 src/bijx/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 8d5b9f9..29ce407 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -162,7 +162,9 @@ class FourierMeta(nnx.Pytree):
             FourierMeta instance with all symmetry constraints computed.
         """
         mr, mi, copy_from, copy_to = cls._get_fourier_info(real_shape)
-        ks_full = np.sum(fft_momenta(real_shape, unit=True) ** 2, axis=-1).astype(int)
+        ks = fft_momenta(real_shape, unit=True)
+        ks = np.minimum(ks, np.array(real_shape) - ks)
+        ks_full = np.sum(ks**2, axis=-1).astype(int)
         ks_reduced = ks_full[mr]
 
         # unique_idc -> assign to "k index" (could be used to add correlations)
-- 
2.43.0


From da8f6354e0ed2a567a1a217dd19337e5c2b1c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 06/48] fix: Fourier representations of data with channel
 dimensions

---
 src/bijx/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 29ce407..5c6b928 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -173,7 +173,7 @@ class FourierMeta(nnx.Pytree):
         )
 
         return cls(
-            shape_info=ShapeInfo(event_shape=real_shape, channel_dim=channel_dim),
+            shape_info=ShapeInfo(space_shape=real_shape, channel_dim=channel_dim),
             mr=mr,
             mi=mi,
             copy_from=copy_from,
@@ -357,7 +357,7 @@ class FourierData(nnx.Pytree):
             channel_shape = xk.shape[-meta.shape_info.channel_dim :]
 
         rfft = jnp.zeros(batch_shape + meta.mr.shape + channel_shape, dtype=xk.dtype)
-        rfft = rfft.at[..., meta.mr].set(xk)
+        rfft = rfft.at[meta.idc_rfft_independent].set(xk)
 
         if len(meta.copy_to) > 0:
             rfft = rfft.at[meta.idc_copy_to].set(rfft[meta.idc_copy_from].conj())
-- 
2.43.0


From b60c4bc1927532f190da33b58313d511c14cf201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 07/48] fix: MonotoneRQSpline uses its minimum bin sizes and
 slope

---
 src/bijx/bijections/splines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index 13b39be..bf44e25 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -325,6 +325,9 @@ class MonotoneRQSpline(ApplyBijection):
             self.heights,
             self.slopes,
             inverse=reverse,
+            min_bin_width=self.min_bin_width,
+            min_bin_height=self.min_bin_height,
+            min_slope=self.min_slope,
         )
 
         return y, log_density - jnp.sum(log_jac, axis=si.event_axes)
-- 
2.43.0


From be173c837445047d878ae26cafd3de63390170c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 08/48] fix: pass keyword arguments to log_jac of scalar
 bijections

---
 src/bijx/bijections/analytic.py | 6 +++---
 src/bijx/bijections/scalar.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 1a01bce..11a3d03 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -89,7 +89,7 @@ class CubicRational(ScalarBijection):
             transform=loc_transform,
         )
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         x = x - self.loc.get_value()
         bx1 = self.beta.get_value() * x**2 + 1
         return -jnp.log(bx1) + jnp.log(
@@ -281,7 +281,7 @@ class SinhConjugation(ScalarBijection):
         nu = self.nu.get_value()
         return alpha, beta, loc, mu, nu
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         alpha, beta, loc, mu, nu = self._params()
         a = (x - loc) / alpha
         return log_grad_sinh_nonlinearity(a, beta, mu, nu)
@@ -359,7 +359,7 @@ class CubicConjugation(ScalarBijection):
         b = self.b.get_value()
         return beta, loc, a, b
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         beta, loc, a, b = self._params()
         return log_grad_cubic_nonlinearity(x - loc, a, b, beta)
 
diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 8334975..228f128 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -155,7 +155,7 @@ class ScalarBijection(Bijection):
             Tuple of (transformed_data, updated_log_density).
         """
         y = self.fwd(x, **kwargs)
-        return y, sum_log_jac(x, log_density, -self.log_jac(x, y))
+        return y, sum_log_jac(x, log_density, -self.log_jac(x, y, **kwargs))
 
     def reverse(self, y, log_density, **kwargs):
         """Apply reverse transformation with log-density update.
@@ -172,7 +172,7 @@ class ScalarBijection(Bijection):
             Tuple of (inverse_transformed_data, updated_log_density).
         """
         x = self.rev(y, **kwargs)
-        return x, sum_log_jac(x, log_density, self.log_jac(x, y))
+        return x, sum_log_jac(x, log_density, self.log_jac(x, y, **kwargs))
 
 
 class GaussianCDF(ScalarBijection):
@@ -289,7 +289,7 @@ class Sigmoid(ScalarBijection):
         >>> y, log_det = bijection.forward(x, jnp.zeros(3))
     """
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         return jnp.log(y) + jnp.log(1 - y)
 
     def fwd(self, x, **kwargs):
-- 
2.43.0


From 93770cc79465c62f4dd532ad14c2976286b61350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 09/48] fix: log-density of AffineLinear with negative scale

---
 src/bijx/bijections/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 228f128..afc3826 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -498,7 +498,7 @@ class AffineLinear(ScalarBijection):
         )
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.broadcast_to(jnp.log(self.scale.get_value()), jnp.shape(x))
+        return jnp.broadcast_to(jnp.log(jnp.abs(self.scale.get_value())), jnp.shape(x))
 
     def fwd(self, x, **kwargs):
         return self.scale.get_value() * x + self.shift.get_value()
-- 
2.43.0


From 58d9195dd2f04acf9d056a84b9de301daf29d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 10/48] fix: CondInverse.invert was hidden by an attribute of
 the same name

---
 src/bijx/bijections/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/base.py b/src/bijx/bijections/base.py
index 36a727b..d4d062e 100644
--- a/src/bijx/bijections/base.py
+++ b/src/bijx/bijections/base.py
@@ -154,12 +154,13 @@ class CondInverse(Bijection):
     """
 
     def __init__(self, bijection: Bijection, invert: bool = True):
-        self.invert = Const(jnp.array(invert, dtype=bool))
+        # not called `invert`, which would hide the method of that name
+        self.inverted = Const(jnp.array(invert, dtype=bool))
         self.bijection = bijection
 
     def forward(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             x,
@@ -169,7 +170,7 @@ class CondInverse(Bijection):
 
     def reverse(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             x,
@@ -178,7 +179,7 @@ class CondInverse(Bijection):
         )
 
     def invert(self):
-        return CondInverse(self.bijection, ~self.invert)
+        return CondInverse(self.bijection, ~self.inverted.get_value())
 
 
 class Inverse(Bijection):
-- 
2.43.0


From 669c784b3fd23366cd89499dd8d4be8ef56aeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 11/48] fix: MetaLayer, BinaryMask and RayTransform accept
 keyword arguments

---
 src/bijx/bijections/coupling.py |  4 ++--
 src/bijx/bijections/meta.py     |  4 ++--
 src/bijx/bijections/radial.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 07ceaf0..1927748 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -221,7 +221,7 @@ class BinaryMask(Bijection):
 
         return output
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         """Split input as bijection forward pass.
 
         When used as a bijection, forward pass splits the input into
@@ -236,7 +236,7 @@ class BinaryMask(Bijection):
         """
         return self.split(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         """Merge parts as bijection reverse pass.
 
         When used as a bijection, reverse pass merges the split parts
diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index be5beb0..0acba97 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -43,10 +43,10 @@ class MetaLayer(Bijection):
         self._forward = forward
         self._reverse = reverse
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         return self._forward(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         return self._reverse(x), log_density
 
 
diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 23c656d..897074a 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -31,14 +31,14 @@ class RayTransform(Bijection):
     def __init__(self, bijection: Bijection):
         self.bijection = bijection
 
-    def forward(self, x, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        y, ld = self.bijection.forward(x, ld)
+    def forward(self, x, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
-    def reverse(self, y, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        return self.bijection.reverse(y + offset, ld)
+    def reverse(self, y, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
 class Radial(ApplyBijection):
-- 
2.43.0


From 23ee7a00b21db52c30b918b09817934580326d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 12/48] fix: Reshape from or to scalar events

---
 src/bijx/bijections/meta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 0acba97..4a8afae 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -138,15 +138,15 @@ class Reshape(MetaLayer):
 
     def _forward(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.from_shape)]
-        from_shape = shape[-len(self.from_shape) :]
+        split = len(shape) - len(self.from_shape)
+        batch_shape, from_shape = shape[:split], shape[split:]
         assert from_shape == self.from_shape
         return jnp.reshape(x, batch_shape + self.to_shape)
 
     def _reverse(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.to_shape)]
-        to_shape = shape[-len(self.to_shape) :]
+        split = len(shape) - len(self.to_shape)
+        batch_shape, to_shape = shape[:split], shape[split:]
         assert to_shape == self.to_shape
         return jnp.reshape(x, batch_shape + self.from_shape)
 
-- 
2.43.0


From aaaffba8b311648210021de53b27638f3c902898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 13/48] fix: coupling layer with multiplicative mask and vector
 bijections, input log-density is not modified

---
 src/bijx/bijections/coupling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 1927748..d366ad3 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -687,14 +687,17 @@ class GeneralCouplingLayer(Bijection):
 
         if not self.split:
             # sum over event axes that were vmap'd over
-            delta_log_density *= self.mask
+            # (mask is constant along the event axes of the bijection)
+            event_axes = tuple(range(broadcast_rank, broadcast_rank + active_rank))
+            mask = jnp.any(self.mask.boolean_mask, axis=event_axes)
+            delta_log_density = delta_log_density * mask
             axes = tuple(range(-broadcast_rank, 0))
             delta_log_density = jnp.sum(delta_log_density, axis=axes)
         elif active_rank == 0:
             # case: applied vmap over flattened event axes
             delta_log_density = jnp.sum(delta_log_density, axis=-1)
 
-        log_density += delta_log_density
+        log_density = log_density + delta_log_density
 
         x = self._merge(active, passive)
 
-- 
2.43.0


From d2ee18adcd366d9b8b7ac9c4ab32bbf551ebd76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 14/48] fix: BufferedSampler used only part of its buffer, and
 its last entry repeatedly

---
 src/bijx/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 982fc21..0abf32f 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -192,7 +192,11 @@ class BufferedSampler(Distribution):
                     **kwargs,
                 ),
             ),
-            lambda sampler: (sampler, self.buffer_index + 1, self.buffer.get_value()),
+            lambda sampler: (
+                sampler,
+                self.buffer_index.get_value(),
+                self.buffer.get_value(),
+            ),
             self.dist,
         )
 
-- 
2.43.0


From 20dd947025c5df1519c4f82183b81f918335313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 15/48] fix: Transformed.log_density passes keyword arguments
 to the bijection

---
 src/bijx/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 0abf32f..da4e2fd 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -113,7 +113,7 @@ class Transformed(Distribution):
             Log density values at the input points.
         """
         log_density = jnp.zeros(self.get_batch_shape(x))
-        x, delta = self.bijection.reverse(x, log_density)
+        x, delta = self.bijection.reverse(x, log_density, **kwargs)
         return self.prior.log_density(x, **kwargs) - delta
 
 
-- 
2.43.0


From fbce2f11f00b6f7defc9b662203de02707d24405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 16/48] fix: samples of MultivariateNormal follow its
 covariance for negative Cholesky diagonals

---
 src/bijx/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 86d5253..33a555e 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -440,7 +440,10 @@ class MultivariateNormal(ArrayDistribution):
         noise = jax.random.normal(rng, (*batch_shape, self.dim))
         cholesky = _cholesky_unfold(self.cholesky)
         # Apply epsilon regularization to ensure valid Cholesky decomposition
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
+        diagonal = cholesky.diagonal()
+        safe_diagonal = jnp.abs(diagonal) + self.epsilon
+        # keep the sign, which matters for the covariance
+        safe_diagonal = jnp.where(diagonal < 0, -safe_diagonal, safe_diagonal)
         cholesky = cholesky.at[jnp.diag_indices(cholesky.shape[-1])].set(safe_diagonal)
         samples = self.mean + jnp.einsum("...ij,...j->...i", cholesky, noise)
         return samples, self.log_density(samples)
-- 
2.43.0


From 9a7e8e8ce719bef5a89e1adfb207aa190eb58c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 17/48] fix: batch shape of diagonal GaussianMixture, and its
 default covariances

---
 src/bijx/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 33a555e..b7417bb 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -511,7 +511,8 @@ class DiagonalNormal(ArrayDistribution):
             scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
         )
 
-        super().__init__(rngs=rngs, event_shape=(self.mean.size,))
+        # leading dimensions, if any, are those of a stack (see MixtureStack)
+        super().__init__(rngs=rngs, event_shape=self.mean.shape[-1:] or (1,))
         self.epsilon = epsilon
         assert self.mean.size == self.scales.size
 
@@ -702,7 +703,7 @@ class GaussianMixture(Distribution):
 
         cov_shape = covariances.shape if hasattr(covariances, "shape") else covariances
 
-        if len(mean_shape) == len(cov_shape):
+        if cov_shape is None or len(mean_shape) == len(cov_shape):
             stack = DiagonalNormal.given_variances(
                 mean=means,
                 variances=covariances,
-- 
2.43.0


From b64b379d2250e30c150f5ae3525cce452a4d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 18/48] fix: all distributions accept keyword arguments, as
 their base class does

---
 src/bijx/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index b7417bb..737126e 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -405,7 +405,7 @@ class MultivariateNormal(ArrayDistribution):
         cholesky = _cov_to_cholesky(cov)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -425,7 +425,7 @@ class MultivariateNormal(ArrayDistribution):
         safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
         return log_density - jnp.log(safe_diagonal).sum(-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -584,7 +584,7 @@ class DiagonalNormal(ArrayDistribution):
     def scales(self):
         return jnp.abs(self.scales_bare) + self.epsilon
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -599,7 +599,7 @@ class DiagonalNormal(ArrayDistribution):
         log_density -= 0.5 * self.dim * jnp.log(2 * jnp.pi)
         return log_density - jnp.sum(jnp.log(self.scales), axis=-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -657,7 +657,7 @@ class MixtureStack(Distribution):
     def get_batch_shape(self, x):
         return self._dist(0).get_batch_shape(x)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
@@ -671,7 +671,7 @@ class MixtureStack(Distribution):
         )
         return self._dist(component_indices).sample((), rng=rng_sample)[0]
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
         samples = self._sample(jax.random.split(rng, total))
@@ -740,8 +740,8 @@ class GaussianMixture(Distribution):
     def weights(self):
         return self.mixture.weights_normalized
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         return self.mixture.log_density(x)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         return self.mixture.sample(batch_shape, rng)
-- 
2.43.0


From 973fbc5ffbf36fe45114ef608a8a35d76479a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 19/48] fix: ContFlowRK4 over time intervals of length other
 than one

---
 src/bijx/bijections/continuous.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 63e6336..b25d4cf 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -219,13 +219,12 @@ class ContFlowRK4(Bijection):
         steps = steps if steps is not None else self.steps
 
         delta_t = t_end - t_start
-        sgn = jnp.where(delta_t < 0, -1.0, 1.0)
 
         def vf(s, state, args):
             x, log_density = state
             t = t_start + s * delta_t
             dx_dt, dld_dt = jax.tree.map(
-                lambda x: sgn * x,
+                lambda x: delta_t * x,
                 self.vf(t, x, **args),
             )
             return dx_dt, dld_dt
-- 
2.43.0


From 502282b634bf72d6cd01a82ab1fabde3673b9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 20/48] fix: time overrides in the reverse direction of
 continuous flows

---
 src/bijx/bijections/continuous.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index b25d4cf..a79f681 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -130,11 +130,12 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(x, log_density, **kwargs)
         return jax.tree.map(lambda x: x[-1], sol.ys)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         """Solve the ODE flow in reverse and return the final state.
 
         Note that the same optional overrides as in :meth:`solve_flow`
-        can be set here (start/end times, step size).
+        can be set here (start/end times, step size). Start and end times refer
+        to the forward direction; with equal overrides this inverts :meth:`forward`.
         The ``saveat`` argument should probably not be modified as the
         this method assumes the final state is computed, which is returned by
         this function. Use :meth:`solve_flow` directly for this.
@@ -142,8 +143,8 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(
             x,
             log_density,
-            t_start=self.config.t_end,
-            t_end=self.config.t_start,
+            t_start=self.config.t_end if t_end is None else t_end,
+            t_end=self.config.t_start if t_start is None else t_start,
             **kwargs,
         )
         return jax.tree.map(lambda x: x[-1], sol.ys)
@@ -243,12 +244,12 @@ class ContFlowRK4(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
@@ -347,12 +348,12 @@ class ContFlowCG(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
-- 
2.43.0


From d3b1e8fd35e95c6f0152dabedace2d246da335a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 21/48] fix: traceless projection of UnitaryDeriv

---
 src/bijx/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 50185ff..1e087b7 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -375,7 +375,7 @@ class UnitaryDeriv(ManifoldType):
     def project(self, x):
         if self.special:
             trace = jnp.linalg.trace(x)
-            x = x - trace / x.shape[-1]
+            x = x - trace / x.shape[-1] * jnp.eye(x.shape[-1], dtype=x.dtype)
         x = (x - x.mT.conj()) / 2
         return x
 
-- 
2.43.0


From 795eaa517ef3a3f44c1a60f23051be675951ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 22/48] fix: Crouch-Grossmann integration applies the manifold
 projections

---
 src/bijx/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 1e087b7..ef2847a 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -486,7 +486,7 @@ def cg_stage(y0, vect, manifold_types, ai, step_size):
     if len(deltas) == 0:
         return y0
     return jax.tree.map(
-        lambda state, mtype, *deltas: mtype.reduce(state, *deltas),
+        lambda state, mtype, *deltas: mtype.post_stage(mtype.reduce(state, *deltas)),
         y0,
         manifold_types,
         *deltas,
@@ -526,7 +526,8 @@ def crouch_grossmann_step(manifold_types, tableau, vector_field, step_size, t, y
         # evaluate vector field
         vectors[i] = vector_field(ti, intermediate)
 
-    return cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    y1 = cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    return jax.tree.map(lambda state, mtype: mtype.post_step(state), y1, manifold_types)
 
 
 def crouch_grossmann(
-- 
2.43.0


From 782fd00cdf287a9afa8d07e4e3179c42fb189a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 23/48] fix: HaarDistribution draws a single sample by default,
 as other distributions

---
 src/bijx/lie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 3138d93..326f577 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -258,7 +258,7 @@ class HaarDistribution(ArrayDistribution):
         base_shape = (*lat_shape, len(lat_shape))
         return cls(n, base_shape, rngs)
 
-    def sample(self, batch_shape, rng=None, **kwargs):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Sample SU(N) matrices from Haar measure.
 
         Args:
-- 
2.43.0


From 1b7ed0fc1898dabcec513964c0f987d6c28f6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 24/48] fix: lie.grad of functions with auxiliary output

---
 src/bijx/lie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 326f577..67688f4 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -705,13 +705,17 @@ def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless
             )
         else:
             a = jax.grad(fn, argnums=argnum, has_aux=has_aux)(*args, **kwargs)
+            if has_aux:
+                a, aux = a
 
         if callable(algebra):
             a = algebra(a, u)
         else:
             a = jnp.sum(_proj(a, u, algebra), axis=0)
 
-        return (val, a) if return_value else a
+        if return_value:
+            return val, a
+        return (a, aux) if has_aux else a
 
     return wrapped
 
-- 
2.43.0


From 7038e6d57ddae00da3ae5ec7c5e36970770e912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 25/48] fix: batch shapes of eigenvalue angle functions

---
 src/bijx/lie.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 67688f4..28f3cd2 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -334,9 +334,7 @@ def compute_haar_density(eigenvalue_angles):
         - For visualization, divide by total volume to get probability density
         - For SU(2), this reduces to $\abs{2i \sin(\theta)}^2 = 4\sin^2(\theta)$
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     # Add the constraint angle θₙ = -∑ᵢ₌₁ⁿ⁻¹ θᵢ
     all_angles = jnp.concatenate(
@@ -356,9 +354,7 @@ def compute_haar_density(eigenvalue_angles):
             diff = eigenvalues[..., i] - eigenvalues[..., j]
             density *= jnp.abs(diff) ** 2
 
-    return (
-        jnp.squeeze(density) if density.ndim > 0 and density.shape[-1] == 1 else density
-    )
+    return density
 
 
 def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
@@ -402,9 +398,7 @@ def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
         - The eigenvectors are sampled uniformly, giving the correct Haar measure
         - Each call with the same rng and angles gives identical results
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     batch_shape = eigenvalue_angles.shape[:-1]
     n = eigenvalue_angles.shape[-1] + 1  # SU(n) dimension
-- 
2.43.0


From 38d7122ca27ddb8446e2e5b1465fa16494f820c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 26/48] fix: hash of ShapeInfo, and comparison to other types

---
 src/bijx/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index d34d80b..a3571f3 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -439,14 +439,15 @@ class ShapeInfo:
     def _tree_flatten(self):
         """JAX pytree flattening for compatibility with transformations."""
         children = ()  # No array leaves in this class
-        aux_data = {
-            "event_shape": self.event_shape,
-            "space_shape": self.space_shape,
-            "channel_shape": self.channel_shape,
-            "event_dim": self.event_dim,
-            "space_dim": self.space_dim,
-            "channel_dim": self.channel_dim,
-        }
+        # hashable, as required of static data
+        aux_data = (
+            ("event_shape", self.event_shape),
+            ("space_shape", self.space_shape),
+            ("channel_shape", self.channel_shape),
+            ("event_dim", self.event_dim),
+            ("space_dim", self.space_dim),
+            ("channel_dim", self.channel_dim),
+        )
         return children, aux_data
 
     def __repr__(self):
@@ -462,13 +463,15 @@ class ShapeInfo:
 
     @classmethod
     def _tree_unflatten(cls, aux_data, children):
-        return cls(**aux_data)
+        return cls(**dict(aux_data))
 
     def __hash__(self) -> int:
         _, info = self._tree_flatten()
         return hash(info)
 
     def __eq__(self, value: object) -> bool:
+        if not isinstance(value, ShapeInfo):
+            return NotImplemented
         _, info_self = self._tree_flatten()
         _, info_other = value._tree_flatten()
         return info_self == info_other
-- 
2.43.0


From 1746fce6f8f85614aee76dc94a0e6067dce8426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 27/48] fix: divergence of nonlinear features with multiple
 channels

---
 src/bijx/nn/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/nn/features.py b/src/bijx/nn/features.py
index 04c948e..cf9572a 100644
--- a/src/bijx/nn/features.py
+++ b/src/bijx/nn/features.py
@@ -99,7 +99,9 @@ class NonlinearFeatures(nnx.Module):
         inputs, bwd = jax.vjp(apply, inputs)
 
         if flatten_features:
-            local_coupling = local_coupling.reshape(orig_channels, orig_channels, -1)
+            # flattened features are ordered as (input channels, features)
+            local_coupling = local_coupling.reshape(orig_channels, -1, orig_channels)
+            local_coupling = jnp.moveaxis(local_coupling, -1, 1)
 
         idc = np.arange(local_coupling.shape[1])
         cotangent_reshape = (*inputs.shape[:-2], 1, 1)
-- 
2.43.0


From 4de95e4f5d2631c1997d0fcfda385632cfd95cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 28/48] fix: ConvVF without reduction of features

---
 src/bijx/bijections/conv_cnf.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 82a015f..e67556a 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -120,17 +120,20 @@ class ConvVF(nnx.Module):
 
         conv = nnx.merge(conv_graph, conv_params)
 
-        feature_superposition = (
-            self.feature_superposition / self.feature_map.out_channel_size
-        )
-
         # extract the local-coupling weights; shape=(in features, out features)
         w00 = conv.kernel_params[0]
-        # contract with feature superposition
-        w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
-        features, div = self.feature_map(x, w00)
-        features = jnp.einsum("fw,...w->...f", feature_superposition, features)
+        if self.feature_superposition is None:
+            features, div = self.feature_map(x, w00)
+        else:
+            feature_superposition = (
+                self.feature_superposition / self.feature_map.out_channel_size
+            )
+            # contract with feature superposition
+            w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
+
+            features, div = self.feature_map(x, w00)
+            features = jnp.einsum("fw,...w->...f", feature_superposition, features)
         grad_phi = conv(features)
 
         grad_phi = grad_phi.reshape(*batch_shape, *shape_info.event_shape)
@@ -195,6 +198,7 @@ class ConvVF(nnx.Module):
         )
 
         conv_in_features = features.out_channel_size
+        feature_superposition = None
         if features_reduced is not None:
             feature_superposition = nnx.Param(
                 nnx.initializers.orthogonal()(
-- 
2.43.0


From 6e47899efd6c457cb471e2f0fa5b273b129392c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 29/48] fix: resize_kernel_weights keeps the kernel centered,
 and splits edge values only when growing

---
 src/bijx/nn/conv.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bijx/nn/conv.py b/src/bijx/nn/conv.py
index bc013c4..6bddc54 100644
--- a/src/bijx/nn/conv.py
+++ b/src/bijx/nn/conv.py
@@ -393,12 +393,16 @@ def resize_kernel_weights(
     # divide copied values by two
     _slice = np.index_exp[:]
     for dim, length in enumerate(shape):
-        if length % 2 == 0:
+        if length % 2 == 0 and new_shape[dim] > length:
             kernel[_slice * dim + ([0, -1],)] /= 2
 
     # add zeros to reach desired shape
     padding = [
-        ((new - old - 1) // 2, (old % 2) + (new - old) // 2) if new > old else (0, 0)
+        (
+            ((new - old - 1 + old % 2) // 2, (new - old + old % 2) // 2)
+            if new > old
+            else (0, 0)
+        )
         for new, old in zip(new_shape, shape)
     ]
     w = np.pad(
@@ -415,9 +419,8 @@ def resize_kernel_weights(
         if new >= old:
             crop += np.index_exp[:]
         else:
-            crop += np.index_exp[
-                (old - new + (old % 2)) // 2 : -(old - new + (new % 2)) // 2
-            ]
+            start = (old - 1) // 2 - (new - 1) // 2
+            crop += np.index_exp[start : start + new]
     return w[crop]
 
 
-- 
2.43.0


From 5ab5501320746ee071aceac3643183c5edb35de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 30/48] fix: KernelFourier.feature_count is the number of
 features, also for even counts

---
 src/bijx/nn/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index eefa07a..5be437f 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -209,7 +209,8 @@ class KernelFourier(Embedding):
         val_range: tuple[float, float] | None = None,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        # constant + pairs: always an odd number of features
+        super().__init__(2 * ((feature_count - 1) // 2) + 1, rngs=rngs)
         self.val_range = val_range
 
     @autovmap(val=0)
-- 
2.43.0


From 3a791a8dc76f8ab8d8b238851e74779bfd524755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 31/48] fix: PositionalEmbedding with two features

---
 src/bijx/nn/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 5be437f..488d23d 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -333,7 +333,7 @@ class PositionalEmbedding(Embedding):
         val = jnp.reshape(val, -1)
 
         half_dim = self.feature_count // 2
-        emb = np.log(self.max_positions) / (half_dim - 1)
+        emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
         emb = jnp.concatenate([jnp.sin(emb), jnp.cos(emb)], axis=1)
-- 
2.43.0


From ed09d9937fb76dbd3f44baeb6f1fa5a910138645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 32/48] fix: log-density of Sigmoid and Tanh in the tails

---
 src/bijx/bijections/scalar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index afc3826..aec0672 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -290,7 +290,8 @@ class Sigmoid(ScalarBijection):
     """
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.log(y) + jnp.log(1 - y)
+        # in terms of x, as y saturates in the tails
+        return -nnx.softplus(x) - nnx.softplus(-x)
 
     def fwd(self, x, **kwargs):
         return nnx.sigmoid(x)
@@ -316,7 +317,8 @@ class Tanh(ScalarBijection):
     """
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.log(jnp.abs(1 - y**2))
+        # in terms of x, as y saturates in the tails
+        return 2 * (jnp.log(2.0) - x - nnx.softplus(-2 * x))
 
     def fwd(self, x, **kwargs):
         return jnp.tanh(x)
-- 
2.43.0


From 73df128c59d5f68ab8808233152d05d2d7faa263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 33/48] fix: ShapeInfo.process_and_flatten fails for empty
 batches

---
 src/bijx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index a3571f3..ce36055 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -387,7 +387,7 @@ class ShapeInfo:
         batched_shape = jnp.shape(x)
         batch_shape, info = self.process_event(batched_shape)
 
-        return jnp.reshape(x, batch_shape + (-1,)), batch_shape, info
+        return jnp.reshape(x, batch_shape + (info.event_size,)), batch_shape, info
 
     def process_and_canonicalize(self, x: jax.Array):
         """Process array and canonicalize event dimensions to (batch, *space, channel).
-- 
2.43.0


From 916abe6d252ef9dd51a12e5c9625bc6e6d82b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 34/48] fix: nonlinear features and convolutional flows fail
 for empty batches

---
 src/bijx/nn/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/features.py b/src/bijx/nn/features.py
index cf9572a..10a9aef 100644
--- a/src/bijx/nn/features.py
+++ b/src/bijx/nn/features.py
@@ -114,7 +114,7 @@ class NonlinearFeatures(nnx.Module):
         divergence = jnp.sum(inputs_grad, np.arange(1, inputs_grad.ndim))
 
         if flatten_features:
-            inputs = inputs.reshape(inputs.shape[:-2] + (-1,))
+            inputs = inputs.reshape(inputs.shape[:-2] + (np.prod(inputs.shape[-2:]),))
         return inputs, divergence
 
 
-- 
2.43.0


From 807cd7e697db9c1133a170288261fb7cee2c0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 35/48] fix: multiplicative coupling gave nan for inner
 bijections not defined at zero

---
 src/bijx/bijections/coupling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index d366ad3..e4158bb 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -644,15 +644,16 @@ class GeneralCouplingLayer(Bijection):
         if self.split:
             return self.mask.split(x)
         else:
-            return self.mask * x, ~self.mask * x
+            # active part stays in its domain also where masked out later
+            return x, ~self.mask * x
 
     def _merge(self, active, passive):
         if self.split:
             return self.mask.merge(active, passive)
         else:
             # assume passive was not modified; no need to mask again
-            # active masked for safety (in case passive part was modified)
-            return self.mask * active + passive
+            # select active entries only (passive part may be modified or not finite)
+            return jnp.where(self.mask.boolean_mask, active, passive)
 
     def _apply(self, x, log_density, inverse=False, **kwargs):
         active, passive = self._split(x)
@@ -690,7 +691,7 @@ class GeneralCouplingLayer(Bijection):
             # (mask is constant along the event axes of the bijection)
             event_axes = tuple(range(broadcast_rank, broadcast_rank + active_rank))
             mask = jnp.any(self.mask.boolean_mask, axis=event_axes)
-            delta_log_density = delta_log_density * mask
+            delta_log_density = jnp.where(mask, delta_log_density, 0)
             axes = tuple(range(-broadcast_rank, 0))
             delta_log_density = jnp.sum(delta_log_density, axis=axes)
         elif active_rank == 0:
-- 
2.43.0


From 4676bd86c39358a43910e584dabafc57c5747e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 36/48] fix: make wrapped FlowJAX modules compilable and
 differentiable

All leaves of the FlowJAX module, including functions, strings and integer
arrays, were stored in one Param, so any module containing a wrapped FlowJAX
component failed under nnx.jit, split/merge with jax.jit and nnx.grad.
---
 src/bijx/flowjax.py | 50 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 6414e01..c23b550 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -28,11 +28,51 @@ import flowjax.bijections
 import flowjax.distributions
 import jax
 import jax.numpy as jnp
+import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
 from .bijections.base import Bijection
 from .distributions import Distribution
+from .utils import Const
+
+
+class _FlowjaxLeaves(nnx.Module):
+    """Store a FlowJAX module so that it can be part of an nnx module.
+
+    Only inexact arrays are exposed as parameters. Other arrays (e.g. permutation
+    indices) are constants, and the remaining leaves (e.g. activation functions or
+    strings) are static, such that the module can be compiled and differentiated.
+    """
+
+    def __init__(self, module):
+        leaves, self.treedef = jax.tree.flatten(module)
+        arrays, params = [], []
+        for leaf in leaves:
+            is_array = isinstance(leaf, jax.Array | np.ndarray | np.generic)
+            arrays.append(is_array)
+            params.append(is_array and jnp.issubdtype(leaf.dtype, jnp.inexact))
+
+        def select(flags):
+            return [leaf if f else None for leaf, f in zip(leaves, flags, strict=True)]
+
+        self.params = nnx.Param(select(params))
+        self.consts = Const(
+            select([a and not p for a, p in zip(arrays, params, strict=True)])
+        )
+        self.static = tuple(select([not a for a in arrays]))
+
+    def reconstruct(self):
+        leaves = [
+            param if param is not None else const if const is not None else other
+            for param, const, other in zip(
+                self.params.get_value(),
+                self.consts.get_value(),
+                self.static,
+                strict=True,
+            )
+        ]
+        return jax.tree.unflatten(self.treedef, leaves)
 
 
 class FlowjaxToBijxBijection(Bijection):
@@ -58,8 +98,7 @@ class FlowjaxToBijxBijection(Bijection):
             flowjax_bijection: FlowJAX bijection to wrap.
             cond_name: Keyword argument name for passing conditional inputs.
         """
-        params, self.treedef = jax.tree.flatten(flowjax_bijection)
-        self.params = nnx.Param(params)
+        self.leaves = _FlowjaxLeaves(flowjax_bijection)
         self.cond_name = cond_name
 
         conditional_shape = flowjax_bijection.cond_shape
@@ -84,7 +123,7 @@ class FlowjaxToBijxBijection(Bijection):
         Returns:
             The FlowJAX bijection with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return self.leaves.reconstruct()
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation using FlowJAX bijection.
@@ -262,8 +301,7 @@ class FlowjaxToBijxDistribution(Distribution):
             rngs: Random number generators for bijx compatibility.
         """
         super().__init__(rngs)
-        params, self.treedef = jax.tree.flatten(flowjax_dist)
-        self.params = nnx.Param(params)
+        self.leaves = _FlowjaxLeaves(flowjax_dist)
         self.cond_name = cond_name
 
         self.event_shape = flowjax_dist.shape
@@ -276,7 +314,7 @@ class FlowjaxToBijxDistribution(Distribution):
         Returns:
             The FlowJAX distribution with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return self.leaves.reconstruct()
 
     def get_batch_shape(self, x):
         """Infer batch shape from input array and known event shape.
-- 
2.43.0


From 082508d6c910f8b9e16f2fd57a1ea69c106e9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 37/48] fix: copy variables when reconstructing bijx modules
 inside FlowJAX

Without the copy, the reconstructed module shares Variables of an outer trace
level, so that e.g. a converted GaussianMixture failed in log_prob and sample.
---
 src/bijx/flowjax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index c23b550..e434c6e 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -204,7 +204,7 @@ class BijxToFlowjaxBijection(flowjax.bijections.AbstractBijection):
         Returns:
             The bijx bijection with current parameter values.
         """
-        return nnx.merge(self.params, self.graph)
+        return nnx.merge(self.params, self.graph, copy=True)
 
     def transform_and_log_det(self, x, condition=None):
         """Apply forward transformation with log determinant.
@@ -411,7 +411,7 @@ class BijxToFlowjaxDistribution(flowjax.distributions.AbstractDistribution):
         Returns:
             The bijx distribution with current parameter values.
         """
-        return nnx.merge(self.params, self.graph)
+        return nnx.merge(self.params, self.graph, copy=True)
 
     def _sample(self, key, condition=None):
         """Sample from the bijx distribution (FlowJAX interface).
-- 
2.43.0


From 5194e293177f4372cf1ca5b23d0a9df8769e403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 38/48] fix: normalise Gaussian embedding stably

Far outside the value range all exponentials underflow, giving 0/0 = nan.
---
 src/bijx/nn/embeddings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 488d23d..81ed8c0 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -130,8 +130,7 @@ class KernelGauss(Embedding):
         pos = jnp.linspace(0, 1, self.feature_count)
         val = rescale_range(val, self.val_range)
         val = -((val - pos) ** 2) * inverse_width
-        out = jnp.exp(val)
-        return out / jnp.sum(out) if self.norm else out
+        return nnx.softmax(val) if self.norm else jnp.exp(val)
 
 
 class KernelLin(Embedding):
-- 
2.43.0


From 61d79732b8f32044ceeff54e767bd29efb6d16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 39/48] fix: count appended input in features of
 PositionalEmbedding

feature_count has to be the size of the output vector, as used by KernelReduced.
---
 src/bijx/nn/embeddings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 81ed8c0..be6feac 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -313,7 +313,7 @@ class PositionalEmbedding(Embedding):
         append_input: bool = False,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        super().__init__(feature_count + append_input, rngs=rngs)
         assert feature_count % 2 == 0, "feature_count must be even"
         self.max_positions = max_positions
         self.append_input = append_input
@@ -340,4 +340,4 @@ class PositionalEmbedding(Embedding):
         #     emb = jnp.pad(emb, [[0, 0], [0, 1]])
         if self.append_input:
             emb = jnp.concatenate([emb, val[:, None]], axis=1)
-        return emb.reshape(*val_shape, self.feature_count + self.append_input)
+        return emb.reshape(*val_shape, self.feature_count)
-- 
2.43.0


From f253231b16c6f78c017dfb2153dbec571da858b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 40/48] fix: give random numbers to dropout in ResNet

Without them any dropout rate above zero raised an error when training.
---
 src/bijx/nn/nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/nets.py b/src/bijx/nn/nets.py
index 5fb6df7..6d90146 100644
--- a/src/bijx/nn/nets.py
+++ b/src/bijx/nn/nets.py
@@ -164,7 +164,7 @@ class ResNet(nnx.Module):
             rngs=rngs,
         )
 
-        self.dropout = nnx.Dropout(rate=dropout)
+        self.dropout = nnx.Dropout(rate=dropout, rngs=rngs if dropout > 0 else None)
 
     def __call__(self, x):
         """Apply residual network to input features.
-- 
2.43.0


From 3481f61f86394aa3f5de88f3afa7898f62e880c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 41/48] fix: mixtures can be differentiated, compiled and
 vectorised as closures

---
 src/bijx/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 737126e..d5de022 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -658,7 +658,8 @@ class MixtureStack(Distribution):
         return self._dist(0).get_batch_shape(x)
 
     def log_density(self, x, **kwargs):
-        lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
+        stack = nnx.merge(self.dist_graph, self.dist_vars, copy=True)
+        lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
     @partial(jax.vmap, in_axes=(None, 0))
-- 
2.43.0


From fac7b97c82062cad50b87965d742e54e573481e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 42/48] fix: Fourier metadata is static, so that conversions
 compile

---
 src/bijx/fourier.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 5c6b928..6d9757e 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -5,7 +5,7 @@ This module provides comprehensive utilities for working with Fourier transforms
 of real-valued fields based on the FFT implementation in JAX.
 """
 
-from dataclasses import replace
+from dataclasses import dataclass, field, replace
 from enum import IntEnum
 from itertools import product
 
@@ -78,8 +78,8 @@ def fft_momenta(
     return np.moveaxis(ks, 0, -1)
 
 
-@nnx.dataclass
-class FourierMeta(nnx.Pytree):
+@dataclass(frozen=True)
+class FourierMeta:
     """Metadata for handling real FFT constraints and symmetries.
 
     Encapsulates all the bookkeeping needed to work with real-valued Fourier
@@ -105,15 +105,17 @@ class FourierMeta(nnx.Pytree):
         should usually not be instantiated directly.
     """
 
+    # static (not traced) as masks and indices have to be concrete; all of them
+    # follow from the shape, which is what is hashed and compared
     shape_info: ShapeInfo
-    mr: jax.Array
-    mi: jax.Array
-    copy_from: jax.Array
-    copy_to: jax.Array
-    ks_full: jax.Array
-    ks_reduced: jax.Array
-    unique_idc: jax.Array  # unique values of |k|
-    unique_unfold: jax.Array
+    mr: np.ndarray = field(compare=False)
+    mi: np.ndarray = field(compare=False)
+    copy_from: np.ndarray = field(compare=False)
+    copy_to: np.ndarray = field(compare=False)
+    ks_full: np.ndarray = field(compare=False)
+    ks_reduced: np.ndarray = field(compare=False)
+    unique_idc: np.ndarray = field(compare=False)  # unique values of |k|
+    unique_unfold: np.ndarray = field(compare=False)
 
     def replace(self, **changes):
         """Create new config with specified parameters replaced."""
@@ -271,7 +273,7 @@ class FourierData(nnx.Pytree):
 
     data: jax.Array = nnx.data()
     rep: FFTRep = nnx.static()
-    meta: FourierMeta = nnx.data()
+    meta: FourierMeta = nnx.static()
 
     def replace(self, **changes):
         """Create new config with specified parameters replaced."""
-- 
2.43.0


From 2a0ee8b0682f63c07634a5cf1ee8a18a19404edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 43/48] fix: transforms of CubicRational are hashable, as
 static parts of modules must be

---
 src/bijx/bijections/analytic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 11a3d03..9762ab0 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -12,7 +12,7 @@ from .scalar import ScalarBijection, TransformedParameter
 _softplus_inv_one = jnp.log(jnp.expm1(1))
 
 
-@dataclass
+@dataclass(frozen=True)
 class SigmoidTransform:
     low: float = -1
     high: float = 8
@@ -27,7 +27,7 @@ class SigmoidTransform:
         return low + diff * nnx.sigmoid(a + offset)
 
 
-@dataclass
+@dataclass(frozen=True)
 class SoftplusTransform:
     eps: float = 1e-1
 
-- 
2.43.0


From b285a4dc4cf57f294a0287af43eff60afa93125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 44/48] fix: noise_model shares no variables with the original
 and keeps dtypes

---
 src/bijx/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index ce36055..483e57f 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -518,7 +518,11 @@ def noise_model(
 
     graph, params, rest = nnx.split(model, filter, ...)
     params = jax.tree.map(
-        lambda x: x + scale * noise_fn(rngs.sample(), x.shape),
+        # keep the precision of the parameters
+        lambda x: jnp.asarray(
+            x + scale * noise_fn(rngs.sample(), jnp.shape(x)), jnp.result_type(x)
+        ),
         params,
     )
-    return nnx.merge(graph, params, rest)
+    # copy, as split state still refers to the variables of the original model
+    return nnx.merge(graph, params, rest, copy=True)
-- 
2.43.0


From b0cf4a962150fa20c66a47bf415532b4002ea87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 45/48] fix: vectorised reconstructed modules accept arguments
 without a given rank

---
 src/bijx/bijections/coupling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index e4158bb..34e3237 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -513,19 +513,26 @@ class AutoVmapReconstructor(nnx.Pytree):
 
     def __call__(self, fn_name, *args, input_ranks: tuple[int, ...] = (0, 0), **kwargs):
 
-        input_ranks = tuple(input_ranks)
+        input_ranks = tuple(input_ranks)[: len(args)]
         input_ranks += (None,) * (len(args) - len(input_ranks))
 
+        # arguments without rank are not mapped over
+        mapped = tuple(a for a, r in zip(args, input_ranks) if r is not None)
+
         @autovmap(
             self.params_rank,
-            input_ranks,
+            tuple(r for r in input_ranks if r is not None),
         )
-        def apply(params, args):
+        def apply(params, mapped):
             module = self.reconstructor.from_params(params)
             fn = getattr(module, fn_name)
-            return fn(*args, **kwargs)
+            mapped = iter(mapped)
+            fn_args = [
+                a if r is None else next(mapped) for a, r in zip(args, input_ranks)
+            ]
+            return fn(*fn_args, **kwargs)
 
-        return apply(self.params, args)
+        return apply(self.params, mapped)
 
     def __getattr__(self, name: str):
         module = self.reconstructor.from_params(self.params)
-- 
2.43.0


From 1b5a14cd0d8b4efcb59a3bcbab374c8732214a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 46/48] fix: invert rational-quadratic spline without biased or
 cancelling denominator

The denominator of the quadratic root had 10 eps (1 + |b|) added to it, which
is not small against it for bins of small height and slope: in single
precision the inverse was off by up to a bin. Take the root in the form that
does not cancel instead.
---
 src/bijx/bijections/splines.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index bf44e25..e583228 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -155,10 +155,14 @@ def rational_quadratic_spline(
         discriminant = quad_b**2 - 4 * quad_a * quad_c
         # Discriminant can become slightly negative from roundoff; clamp at 0
         discriminant = jnp.maximum(discriminant, jnp.asarray(0.0, dtype))
-        denom_safe = -quad_b - jnp.sqrt(discriminant)
-        # Stabilize division by adding a relative tiny term
-        denom_safe = denom_safe + tiny * (1.0 + jnp.abs(quad_b))
-        normalized_pos = (2 * quad_c) / denom_safe
+        root = jnp.sqrt(discriminant)
+        # Of the two forms of the root, use the one without cancellation; the
+        # denominator does not vanish as quad_a + quad_b > 0, and as quad_c = 0
+        # only at the left knot, where quad_b > 0.
+        positive = quad_b >= 0
+        numer = jnp.where(positive, 2 * quad_c, root - quad_b)
+        denom = jnp.where(positive, -quad_b - root, 2 * quad_a)
+        normalized_pos = numer / denom
         normalized_pos = jnp.clip(normalized_pos, 0.0, 1.0)
         outputs_spline = normalized_pos * bin_width + left_knot_x
 
-- 
2.43.0


From b80c8738f0f19a045b662c9b4d21396e37791504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 47/48] fix: hoist all traced values from the closures of
 integrated vector fields

closure_convert leaves values without tangent, such as the index arrays of a
ConvSym kernel, in the closure. Inside of compiled functions these are
tracers that leaked into the custom derivative rules, so that the gradient of
a continuous flow under nnx.jit raised a TypeError.
---
 src/bijx/cg.py      | 52 +++++++++++++++++++++-----------
 src/bijx/solvers.py | 72 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 93 insertions(+), 31 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index ef2847a..94644ce 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -24,9 +24,11 @@ import jax
 import jax.numpy as jnp
 import numpy as np
 from flax import nnx
-from jax import core, custom_derivatives
+from jax import core
 from jax_autovmap import autovmap
 
+from .solvers import _closure_convert
+
 
 class ButcherTableau(nnx.Pytree):
     r"""Butcher tableau defining coefficients for Runge-Kutta integration schemes.
@@ -598,15 +600,22 @@ def crouch_grossmann(
         args_types = jax.tree.map(lambda _: args_types, args)
 
     ts = jnp.array([t0, t1], dtype=float)
-    converted, consts = custom_derivatives.closure_convert(
-        vector_field, ts[0], y0, args
-    )
+    converted, fixed, consts = _closure_convert(vector_field, ts[0], y0, args)
 
     consts_types = jax.tree.map(lambda _: Euclidean(), consts)
     args_types = (args_types, *consts_types)
 
     return _crouch_grossmann(
-        manifold_types, args_types, tableau, converted, step_size, ts, y0, args, *consts
+        manifold_types,
+        args_types,
+        tableau,
+        converted,
+        step_size,
+        fixed,
+        ts,
+        y0,
+        args,
+        *consts,
     )
 
 
@@ -620,7 +629,7 @@ def _bounded_next_time(cur_t, step_size, t_end):
 
 @partial(jax.custom_vjp, nondiff_argnums=(0, 1, 2, 3, 4))
 def _crouch_grossmann(
-    manifold_types, args_types, tableau, vector_field, step_size, ts, y0, *args
+    manifold_types, args_types, tableau, vector_field, step_size, fixed, ts, y0, *args
 ):
     r"""Internal Crouch-Grossmann integrator with custom reverse-mode AD.
 
@@ -629,7 +638,7 @@ def _crouch_grossmann(
     """
 
     def func_(t, y):
-        return vector_field(t, y, *args)
+        return vector_field(fixed, t, y, *args)
 
     step = partial(crouch_grossmann_step, manifold_types, tableau, func_)
 
@@ -652,13 +661,21 @@ def _crouch_grossmann(
 
 
 def _crouch_grossmann_fwd(
-    manifold_types, args_types, tableau, vector_field, step_size, ts, y0, *args
+    manifold_types, args_types, tableau, vector_field, step_size, fixed, ts, y0, *args
 ):
     """Forward pass for custom differentiation."""
     y1 = _crouch_grossmann(
-        manifold_types, args_types, tableau, vector_field, step_size, ts, y0, *args
+        manifold_types,
+        args_types,
+        tableau,
+        vector_field,
+        step_size,
+        fixed,
+        ts,
+        y0,
+        *args,
     )
-    return y1, (ts, y1, args)
+    return y1, (fixed, ts, y1, args)
 
 
 def _crouch_grossmann_rev(
@@ -670,7 +687,7 @@ def _crouch_grossmann_rev(
         The adjoint state is treated as Euclidean for simplicity, though
         more sophisticated cotangent space handling could reduce numerical error.
     """
-    ts, y1, args = res
+    fixed, ts, y1, args = res
 
     g = jax.tree.map(
         lambda y, adj, mtype: mtype.project_adjoint(y, adj),
@@ -679,17 +696,17 @@ def _crouch_grossmann_rev(
         manifold_types,
     )
 
-    def _aux(t, y, args):
-        vect0 = vector_field(t, y, *args)
+    def _aux(fixed, t, y, args):
+        vect0 = vector_field(fixed, t, y, *args)
         vect = jax.tree.map(
             lambda v, y, mtype: mtype.pre_adjoint_vjp(y, v), vect0, y, manifold_types
         )
         return vect, vect0
 
-    def augmented_ode(t, state, args):
+    def augmented_ode(fixed, t, state, args):
         y, adj, *_ = state
 
-        _, vjp, vect = jax.vjp(_aux, t, y, args, has_aux=True)
+        _, vjp, vect = jax.vjp(partial(_aux, fixed), t, y, args, has_aux=True)
         t_bar, y_bar, args_bar = jax.tree.map(jnp.negative, vjp(adj))
 
         y_bar = jax.tree.map(
@@ -707,7 +724,7 @@ def _crouch_grossmann_rev(
     t_bar = sum(
         map(
             lambda v, adj, y, mtype: jnp.sum(mtype.pre_adjoint_vjp(y, v) * adj),
-            jax.tree.leaves(vector_field(ts[1], y1, *args)),
+            jax.tree.leaves(vector_field(fixed, ts[1], y1, *args)),
             jax.tree.leaves(g),
             jax.tree.leaves(y1),
             jax.tree.structure(y1).flatten_up_to(manifold_types),
@@ -732,13 +749,14 @@ def _crouch_grossmann_rev(
         tableau,
         augmented_ode,
         -step_size,
+        fixed,
         ts[::-1],
         state,
         args,
     )
 
     ts_bar = jnp.array([t0_bar, t_bar])
-    return (ts_bar, y_bar, *args_bar)
+    return (None, ts_bar, y_bar, *args_bar)
 
 
 _crouch_grossmann.defvjp(_crouch_grossmann_fwd, _crouch_grossmann_rev)
diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index 00c5ef3..6373fcc 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -16,8 +16,7 @@ import flax.typing as ftp
 import jax
 import jax.numpy as jnp
 from flax import nnx
-from jax import core, custom_derivatives
-from jax.experimental.ode import api_util, ravel_first_arg
+from jax import core
 from jax.flatten_util import ravel_pytree
 
 __all__ = [
@@ -258,6 +257,47 @@ class DiffraxConfig(nnx.Pytree):
 # limitations under the License.
 
 
+def _closure_convert(fun, *example_args):
+    """Closure conversion that hoists all traced values from the closure of `fun`.
+
+    In contrast to `jax.closure_convert`, this includes values that are not
+    differentiable, such as the index arrays of a module that is an argument of
+    a compiled function. These would otherwise leak into custom derivative rules.
+
+    Args:
+        fun: Function to convert.
+        *example_args: Arguments `fun` is specialized to.
+
+    Returns:
+        Tuple (converted, fixed, consts) where consts are the hoisted values that
+        are differentiable, fixed those that are not, and
+        ``converted(fixed, *args, *consts)`` is equal to ``fun(*args)``.
+    """
+    closed, out_shape = jax.make_jaxpr(fun, return_shape=True)(*example_args)
+    out_tree = jax.tree.structure(out_shape)
+
+    consts, fixed = {}, {}
+    for i, const in enumerate(closed.consts):
+        if isinstance(const, core.Tracer):
+            is_diff = jnp.issubdtype(const.dtype, jnp.inexact)
+            (consts if is_diff else fixed)[i] = const
+    const_idx, fixed_idx = tuple(consts), tuple(fixed)
+    constants = [
+        None if i in consts or i in fixed else const
+        for i, const in enumerate(closed.consts)
+    ]
+
+    def converted(fixed, *args):
+        args, consts = args[: len(example_args)], args[len(example_args) :]
+        values = list(constants)
+        for i, const in zip((*fixed_idx, *const_idx), (*fixed, *consts), strict=True):
+            values[i] = const
+        out = core.eval_jaxpr(closed.jaxpr, values, *jax.tree.leaves(args))
+        return jax.tree.unflatten(out_tree, out)
+
+    return converted, list(fixed.values()), list(consts.values())
+
+
 def odeint_rk4(fun, y0, end_time, *args, step_size, start_time=0):
     """Fixed step-size Runge-Kutta implementation with custom adjoint.
 
@@ -300,23 +340,26 @@ def odeint_rk4(fun, y0, end_time, *args, step_size, start_time=0):
             )
     ts = jnp.array([start_time, end_time], dtype=float)
 
-    converted, consts = custom_derivatives.closure_convert(_fun, y0, ts[0], *args)
-    return _odeint_grid_wrapper(converted, step_size, y0, ts, *args, *consts)
+    converted, fixed, consts = _closure_convert(_fun, y0, ts[0], *args)
+    return _odeint_grid_wrapper(converted, step_size, y0, ts, fixed, *args, *consts)
 
 
 @partial(jax.jit, static_argnums=(0, 1))
-def _odeint_grid_wrapper(fun, step_size, y0, ts, *args):
+def _odeint_grid_wrapper(fun, step_size, y0, ts, fixed, *args):
     y0, unravel = ravel_pytree(y0)
-    fun = ravel_first_arg(fun, unravel, api_util.debug_info("odeint", fun, args, {}))
-    out = _rk4_odeint(fun, step_size, y0, ts, *args)
+
+    def flat_fun(fixed, y, t, *args):
+        return ravel_pytree(fun(fixed, unravel(y), t, *args))[0]
+
+    out = _rk4_odeint(flat_fun, step_size, y0, ts, fixed, *args)
     return unravel(out)
 
 
 @partial(jax.custom_vjp, nondiff_argnums=(0, 1))
-def _rk4_odeint(fun, step_size, y0, ts, *args):
+def _rk4_odeint(fun, step_size, y0, ts, fixed, *args):
 
     def func_(y, t):
-        return fun(y, t, *args)
+        return fun(fixed, y, t, *args)
 
     def step_func(cur_t, dt, cur_y):
         """Take one step of RK4."""
@@ -344,13 +387,14 @@ def _rk4_odeint(fun, step_size, y0, ts, *args):
     return y1
 
 
-def _rk4_odeint_fwd(fun, step_size, y0, ts, *args):
-    y_final = _rk4_odeint(fun, step_size, y0, ts, *args)
-    return y_final, (y_final, ts, args)
+def _rk4_odeint_fwd(fun, step_size, y0, ts, fixed, *args):
+    y_final = _rk4_odeint(fun, step_size, y0, ts, fixed, *args)
+    return y_final, (y_final, ts, fixed, args)
 
 
 def _rk4_odeint_rev(fun, step_size, res, g):
-    y_final, ts, args = res
+    y_final, ts, fixed, args = res
+    fun = partial(fun, fixed)
 
     def aug_dynamics(t, augmented_state, *args):
         """Original system augmented with vjp_y, vjp_t and vjp_args."""
@@ -379,7 +423,7 @@ def _rk4_odeint_rev(fun, step_size, res, g):
     )
 
     ts_bar = jnp.array([t0_bar, t_bar])
-    return (y_bar, ts_bar, *args_bar)
+    return (y_bar, ts_bar, None, *args_bar)
 
 
 _rk4_odeint.defvjp(_rk4_odeint_fwd, _rk4_odeint_rev)
-- 
2.43.0


From 5bfb180c3b4c79b60d6082b0a204871b97758902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 48/48] fix: asymptotic form of SinhConjugation only where it
 holds

---
 src/bijx/bijections/analytic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 9762ab0..04f01dc 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -114,6 +114,14 @@ class CubicRational(ScalarBijection):
         return x + self.loc.get_value()
 
 
+def _asymptotic_threshold(beta, mu, nu, threshold):
+    # Asymptotically f(x) = x +- (mu + nu), where the argument of arcsinh and the
+    # part of it that depends on x, relative to beta, are both large.
+    # Bounded such that sinh does not overflow in single precision.
+    margin = jnp.maximum(-(mu + nu), jnp.log1p(jnp.abs(beta)) - nu)
+    return threshold + jnp.clip(margin, 0.0, 60.0)
+
+
 @jax.jit
 @autovmap(x=0, beta=0, mu=0, nu=0)
 def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=15.0):
@@ -125,6 +133,7 @@ def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=15.0):
     """
     # For |x| >= threshold, use asymptotic forms
     log_mu_nu = mu + nu
+    threshold = _asymptotic_threshold(beta, mu, nu, threshold)
 
     # Middle range computation with protected sinh
     x_clamped = jnp.where(jnp.abs(x) < threshold, x, 0.0)
@@ -171,6 +180,7 @@ def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
     asymptotic_result = 0.0
 
     # Check if we're in asymptotic regime
+    threshold = _asymptotic_threshold(beta, mu, nu, threshold)
     in_asymptotic = jnp.abs(x) > threshold
 
     # CRITICAL: Clamp x BEFORE any computation to ensure both branches are safe
@@ -194,7 +204,7 @@ def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
     arg_raw = exp_mu * (exp_nu * sinh_x + beta_safe)
 
     # Protect arg from becoming inf/nan
-    arg_max = 1e10
+    arg_max = 1e18  # can be squared, also in single precision
     arg = jnp.where(jnp.isfinite(arg_raw), jnp.clip(arg_raw, -arg_max, arg_max), 0.0)
     arg_squared = arg * arg
 
-- 
2.43.0

