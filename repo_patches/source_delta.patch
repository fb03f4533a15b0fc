From a709b5f758a9b53658b7714b3685ad9202a23ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 01/52] fix: BufferedSampler skipped every other buffered
 sample

The branch that does not refill already advanced the index, which was then
advanced again after the draw.
---
 src/bijx/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 982fc21..0abf32f 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -192,7 +192,11 @@ class BufferedSampler(Distribution):
                     **kwargs,
                 ),
             ),
-            lambda sampler: (sampler, self.buffer_index + 1, self.buffer.get_value()),
+            lambda sampler: (
+                sampler,
+                self.buffer_index.get_value(),
+                self.buffer.get_value(),
+            ),
             self.dist,
         )
 
-- 
2.43.0


From 92cfef1b091289a7a975cc77057dcca003454b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 02/52] fix: Transformed.log_density dropped keyword arguments
 of the bijection

sample() passes them on, so samples and densities disagreed.
---
 src/bijx/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 0abf32f..da4e2fd 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -113,7 +113,7 @@ class Transformed(Distribution):
             Log density values at the input points.
         """
         log_density = jnp.zeros(self.get_batch_shape(x))
-        x, delta = self.bijection.reverse(x, log_density)
+        x, delta = self.bijection.reverse(x, log_density, **kwargs)
         return self.prior.log_density(x, **kwargs) - delta
 
 
-- 
2.43.0


From af66457cd9c1c32d432effe2ba7f78f30e868734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 03/52] fix: CondInverse.invert() was shadowed by the flag of
 the same name

---
 src/bijx/bijections/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/base.py b/src/bijx/bijections/base.py
index 36a727b..3f146f5 100644
--- a/src/bijx/bijections/base.py
+++ b/src/bijx/bijections/base.py
@@ -154,12 +154,12 @@ class CondInverse(Bijection):
     """
 
     def __init__(self, bijection: Bijection, invert: bool = True):
-        self.invert = Const(jnp.array(invert, dtype=bool))
+        self.is_inverted = Const(jnp.array(invert, dtype=bool))
         self.bijection = bijection
 
     def forward(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.is_inverted.get_value(),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             x,
@@ -169,7 +169,7 @@ class CondInverse(Bijection):
 
     def reverse(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.is_inverted.get_value(),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             x,
@@ -178,7 +178,7 @@ class CondInverse(Bijection):
         )
 
     def invert(self):
-        return CondInverse(self.bijection, ~self.invert)
+        return CondInverse(self.bijection, ~self.is_inverted.get_value())
 
 
 class Inverse(Bijection):
-- 
2.43.0


From e7d9befea21faa7f1d7d5498d295f4abef654b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 04/52] fix: Reshape rejected scalar events

---
 src/bijx/bijections/meta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index be5beb0..3c809c4 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -138,15 +138,15 @@ class Reshape(MetaLayer):
 
     def _forward(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.from_shape)]
-        from_shape = shape[-len(self.from_shape) :]
+        batch_dim = len(shape) - len(self.from_shape)
+        batch_shape, from_shape = shape[:batch_dim], shape[batch_dim:]
         assert from_shape == self.from_shape
         return jnp.reshape(x, batch_shape + self.to_shape)
 
     def _reverse(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.to_shape)]
-        to_shape = shape[-len(self.to_shape) :]
+        batch_dim = len(shape) - len(self.to_shape)
+        batch_shape, to_shape = shape[:batch_dim], shape[batch_dim:]
         assert to_shape == self.to_shape
         return jnp.reshape(x, batch_shape + self.from_shape)
 
-- 
2.43.0


From edfe1d74598098e976c8ceb8c1517ead26add312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 05/52] fix: stacked DiagonalNormal took all components for one
 event

A diagonal GaussianMixture could not determine the batch shape of a sample.
---
 src/bijx/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 86d5253..7821207 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -508,7 +508,7 @@ class DiagonalNormal(ArrayDistribution):
             scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
         )
 
-        super().__init__(rngs=rngs, event_shape=(self.mean.size,))
+        super().__init__(rngs=rngs, event_shape=(self.dim,))
         self.epsilon = epsilon
         assert self.mean.size == self.scales.size
 
@@ -564,7 +564,7 @@ class DiagonalNormal(ArrayDistribution):
     @property
     def dim(self):
         """Dimensionality of the distribution."""
-        return self.mean.size
+        return self.mean.shape[-1] if self.mean.shape else 1
 
     @property
     def variances(self):
-- 
2.43.0


From 412742d1f4c40906655eeac22e8dd66c2e81cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 06/52] fix: GaussianMixture without covariances raised a
 TypeError

---
 src/bijx/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 7821207..f29cb4d 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -697,6 +697,8 @@ class GaussianMixture(Distribution):
         means = default_wrap(means, init_fn=nnx.initializers.normal(), rngs=rngs)
         mean_shape = means.shape
 
+        if covariances is None:
+            covariances = jnp.ones(mean_shape)
         cov_shape = covariances.shape if hasattr(covariances, "shape") else covariances
 
         if len(mean_shape) == len(cov_shape):
-- 
2.43.0


From 17284c8c1a59ca246dafaf91299bedad58429feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 07/52] fix: MultivariateNormal scored and sampled with
 different covariances

For a negative diagonal entry of the Cholesky factor only the sampler and
the normalization used its absolute value.
---
 src/bijx/distributions.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index f29cb4d..3ae4968 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -355,9 +355,17 @@ class MultivariateNormal(ArrayDistribution):
     @property
     def cov(self):
         """Reconstruct covariance matrix from Cholesky factor."""
-        matrix = _cholesky_unfold(self.cholesky)
+        matrix = self._safe_cholesky()
         return jnp.einsum("...ij,...kj->...ik", matrix, matrix)
 
+    def _safe_cholesky(self):
+        """Cholesky factor with positive, regularized diagonal."""
+        cholesky = _cholesky_unfold(self.cholesky)
+        diagonal = jnp.diagonal(cholesky, axis1=-2, axis2=-1)
+        safe_diagonal = jnp.abs(diagonal) + self.epsilon
+        index = jnp.arange(cholesky.shape[-1])
+        return cholesky.at[..., index, index].set(safe_diagonal)
+
     @classmethod
     def given_dim(
         cls, dim: int, *, rngs: nnx.Rngs, var_cls=nnx.Param, epsilon: float = 1e-10
@@ -414,16 +422,14 @@ class MultivariateNormal(ArrayDistribution):
         Returns:
             Log density values with batch dimensions matching input.
         """
-        cholesky = _cholesky_unfold(self.cholesky)
+        cholesky = self._safe_cholesky()
         whitened = jnp.vectorize(
             partial(jax.lax.linalg.triangular_solve, lower=True, transpose_a=True),
             signature="(n,n),(n)->(n)",
         )(cholesky, x - self.mean)
         log_density = -1 / 2 * jnp.einsum("...i,...i->...", whitened, whitened)
         log_density -= self.dim / 2 * jnp.log(2 * jnp.pi)
-        # Apply epsilon regularization to prevent NaN from log(0) or log(negative)
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
-        return log_density - jnp.log(safe_diagonal).sum(-1)
+        return log_density - jnp.log(cholesky.diagonal()).sum(-1)
 
     def sample(self, batch_shape=(), rng=None):
         """Generate samples from the distribution.
@@ -438,10 +444,7 @@ class MultivariateNormal(ArrayDistribution):
         """
         rng = self._get_rng(rng)
         noise = jax.random.normal(rng, (*batch_shape, self.dim))
-        cholesky = _cholesky_unfold(self.cholesky)
-        # Apply epsilon regularization to ensure valid Cholesky decomposition
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
-        cholesky = cholesky.at[jnp.diag_indices(cholesky.shape[-1])].set(safe_diagonal)
+        cholesky = self._safe_cholesky()
         samples = self.mean + jnp.einsum("...ij,...j->...i", cholesky, noise)
         return samples, self.log_density(samples)
 
-- 
2.43.0


From 270866076e023e1ae75966838420cb8b60531eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 08/52] fix: ShapeInfo could not be hashed

---
 src/bijx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index d34d80b..ed1d6eb 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -466,7 +466,7 @@ class ShapeInfo:
 
     def __hash__(self) -> int:
         _, info = self._tree_flatten()
-        return hash(info)
+        return hash(tuple(info.items()))
 
     def __eq__(self, value: object) -> bool:
         _, info_self = self._tree_flatten()
-- 
2.43.0


From c2a6652f739647f1a60a03aeef27e2def195b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 09/52] fix: SpectrumScaling changed the log-density with the
 wrong sign

forward() has to subtract the log-Jacobian like all other bijections.
---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 98042f2..4edd204 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -89,7 +89,7 @@ class SpectrumScaling(ApplyBijection):
 
     def apply(self, x, log_density, reverse=False, **kwargs):
         x, delta = self.scale(x, reverse=reverse)
-        return x, log_density - delta if reverse else log_density + delta
+        return x, log_density + delta if reverse else log_density - delta
 
 
 class FreeTheoryScaling(SpectrumScaling):
-- 
2.43.0


From f3e35bcc0799682e2ac53f5524b69496f5ff5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 10/52] fix: SpectrumScaling with channel dimensions

The scaling was not broadcast over channels and its log-Jacobian counted
one channel only.
---
 src/bijx/bijections/fourier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 4edd204..29a9ff4 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -79,11 +79,14 @@ class SpectrumScaling(ApplyBijection):
         _, shape_info = self.shape_info.process_event(r.shape)
         meta = FourierMeta.create(shape_info.space_shape)
         r = jnp.fft.rfftn(r, shape_info.space_shape, shape_info.space_axes)
-        r = r / self.scaling if reverse else r * self.scaling
+        channel_axes = tuple(range(-self.channel_dim, 0))
+        scaling = jnp.expand_dims(self.scaling, channel_axes)
+        r = r / scaling if reverse else r * scaling
         r = jnp.fft.irfftn(r, shape_info.space_shape, shape_info.space_axes)
 
         factor = meta.mr.astype(int) + meta.mi.astype(int)
         delta_ld = jnp.sum(factor * jnp.log(jnp.abs(self.scaling)))
+        delta_ld = delta_ld * shape_info.channel_size
 
         return r, delta_ld
 
-- 
2.43.0


From 2754bc2e0900424601e3641d451bbf4c09151484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 11/52] fix: FreeTheoryScaling failed without precomputed
 spectrum

This includes every use with a variable mass.
---
 src/bijx/bijections/fourier.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 29a9ff4..b287cfd 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -151,10 +151,14 @@ class FreeTheoryScaling(SpectrumScaling):
         self.m2 = m2 if isinstance(m2, nnx.Variable) else Const(m2)
         if precompute_spectrum and not isinstance(m2, nnx.Variable):
             scaling = Const(self.spectrum_function(ks, m2))
+            super().__init__(scaling, channel_dim=channel_dim)
         else:
-            scaling = None
-
-        super().__init__(scaling, channel_dim=channel_dim)
+            self.ks = Const(ks)
+            self.scaling_var = None
+            self.channel_dim = channel_dim
+            self.shape_info = ShapeInfo(
+                space_dim=len(space_shape), channel_dim=channel_dim
+            )
 
     def spectrum_function(self, ks, m2):
         """Compute free field scaling factors from momenta and mass.
@@ -171,10 +175,9 @@ class FreeTheoryScaling(SpectrumScaling):
     @property
     def scaling(self):
         """Multiplicative factor in Fourier space."""
-        scaling_var = self.scaling_var.get_value()
-        if scaling_var is None:
-            return self.spectrum_function(self.ks, self.m2)
-        return scaling_var
+        if self.scaling_var is None:
+            return self.spectrum_function(self.ks.get_value(), self.m2.get_value())
+        return self.scaling_var.get_value()
 
 
 class ToFourierData(Bijection):
-- 
2.43.0


From 30f3714838982689ef66cfaedaa360c0d028cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 12/52] fix: Fourier representations failed for data with
 channel dimensions

---
 src/bijx/fourier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index f52f1be..3225af0 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -167,7 +167,11 @@ class FourierMeta(nnx.Pytree):
         )
 
         return cls(
-            shape_info=ShapeInfo(event_shape=real_shape, channel_dim=channel_dim),
+            shape_info=ShapeInfo(
+                space_shape=real_shape,
+                channel_shape=() if channel_dim == 0 else None,
+                channel_dim=channel_dim,
+            ),
             mr=mr,
             mi=mi,
             copy_from=copy_from,
@@ -351,7 +355,7 @@ class FourierData(nnx.Pytree):
             channel_shape = xk.shape[-meta.shape_info.channel_dim :]
 
         rfft = jnp.zeros(batch_shape + meta.mr.shape + channel_shape, dtype=xk.dtype)
-        rfft = rfft.at[..., meta.mr].set(xk)
+        rfft = rfft.at[meta.idc_rfft_independent].set(xk)
 
         if len(meta.copy_to) > 0:
             rfft = rfft.at[meta.idc_copy_to].set(rfft[meta.idc_copy_from].conj())
-- 
2.43.0


From e2e4e8b180438070c5f210a9333669695f33e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 13/52] fix: AffineLinear log-density was NaN for negative
 scales

transform_scale is a user choice, e.g. None as for Scaling.
---
 src/bijx/bijections/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 8334975..1477c5c 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -498,7 +498,7 @@ class AffineLinear(ScalarBijection):
         )
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.broadcast_to(jnp.log(self.scale.get_value()), jnp.shape(x))
+        return jnp.broadcast_to(jnp.log(jnp.abs(self.scale.get_value())), jnp.shape(x))
 
     def fwd(self, x, **kwargs):
         return self.scale.get_value() * x + self.shift.get_value()
-- 
2.43.0


From 6ab7c513f4b4c9e3fdd4b3097b8b3c5b37ff113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 14/52] fix: scalar bijections did not pass keyword arguments
 to log_jac

They are documented to reach fwd, rev and log_jac alike.
---
 src/bijx/bijections/analytic.py | 6 +++---
 src/bijx/bijections/scalar.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 1a01bce..11a3d03 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -89,7 +89,7 @@ class CubicRational(ScalarBijection):
             transform=loc_transform,
         )
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         x = x - self.loc.get_value()
         bx1 = self.beta.get_value() * x**2 + 1
         return -jnp.log(bx1) + jnp.log(
@@ -281,7 +281,7 @@ class SinhConjugation(ScalarBijection):
         nu = self.nu.get_value()
         return alpha, beta, loc, mu, nu
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         alpha, beta, loc, mu, nu = self._params()
         a = (x - loc) / alpha
         return log_grad_sinh_nonlinearity(a, beta, mu, nu)
@@ -359,7 +359,7 @@ class CubicConjugation(ScalarBijection):
         b = self.b.get_value()
         return beta, loc, a, b
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         beta, loc, a, b = self._params()
         return log_grad_cubic_nonlinearity(x - loc, a, b, beta)
 
diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 1477c5c..afc3826 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -155,7 +155,7 @@ class ScalarBijection(Bijection):
             Tuple of (transformed_data, updated_log_density).
         """
         y = self.fwd(x, **kwargs)
-        return y, sum_log_jac(x, log_density, -self.log_jac(x, y))
+        return y, sum_log_jac(x, log_density, -self.log_jac(x, y, **kwargs))
 
     def reverse(self, y, log_density, **kwargs):
         """Apply reverse transformation with log-density update.
@@ -172,7 +172,7 @@ class ScalarBijection(Bijection):
             Tuple of (inverse_transformed_data, updated_log_density).
         """
         x = self.rev(y, **kwargs)
-        return x, sum_log_jac(x, log_density, self.log_jac(x, y))
+        return x, sum_log_jac(x, log_density, self.log_jac(x, y, **kwargs))
 
 
 class GaussianCDF(ScalarBijection):
@@ -289,7 +289,7 @@ class Sigmoid(ScalarBijection):
         >>> y, log_det = bijection.forward(x, jnp.zeros(3))
     """
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         return jnp.log(y) + jnp.log(1 - y)
 
     def fwd(self, x, **kwargs):
-- 
2.43.0


From 69776e3da8a91b2450e2c77cbba2066d85c90c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 15/52] fix: solve_cubic returned NaN at a triple root

---
 src/bijx/bijections/analytic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 11a3d03..9eecae9 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -55,7 +55,9 @@ def solve_cubic(a, b, c, d):
         minus,
     )
     c = jnp.cbrt(c_arg / 2)
-    return -(b + c + d0 / c) / (3 * a)
+    # c = 0 (hence d0 = 0) at a triple root
+    d0_over_c = jnp.where(c == 0, 0.0, d0 / jnp.where(c == 0, 1.0, c))
+    return -(b + c + d0_over_c) / (3 * a)
 
 
 class CubicRational(ScalarBijection):
-- 
2.43.0


From ba375fc901d751f7436b4fc76cbd1798fcb3f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 16/52] fix: MonotoneRQSpline ignored its minimal widths,
 heights and slope

---
 src/bijx/bijections/splines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index 13b39be..bf44e25 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -325,6 +325,9 @@ class MonotoneRQSpline(ApplyBijection):
             self.heights,
             self.slopes,
             inverse=reverse,
+            min_bin_width=self.min_bin_width,
+            min_bin_height=self.min_bin_height,
+            min_slope=self.min_slope,
         )
 
         return y, log_density - jnp.sum(log_jac, axis=si.event_axes)
-- 
2.43.0


From cdf983a4e558b366a5d2938fbc5cc9e866cf4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 17/52] fix: some bijections rejected the common keyword
 arguments of a chain

Every Bijection takes **kwargs; shape-only layers, masks and RayTransform
raised a TypeError when a Chain passed them on.
---
 src/bijx/bijections/coupling.py |  4 ++--
 src/bijx/bijections/meta.py     |  4 ++--
 src/bijx/bijections/radial.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 07ceaf0..1927748 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -221,7 +221,7 @@ class BinaryMask(Bijection):
 
         return output
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         """Split input as bijection forward pass.
 
         When used as a bijection, forward pass splits the input into
@@ -236,7 +236,7 @@ class BinaryMask(Bijection):
         """
         return self.split(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         """Merge parts as bijection reverse pass.
 
         When used as a bijection, reverse pass merges the split parts
diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 3c809c4..c71f2b2 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -43,10 +43,10 @@ class MetaLayer(Bijection):
         self._forward = forward
         self._reverse = reverse
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         return self._forward(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         return self._reverse(x), log_density
 
 
diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 23c656d..897074a 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -31,14 +31,14 @@ class RayTransform(Bijection):
     def __init__(self, bijection: Bijection):
         self.bijection = bijection
 
-    def forward(self, x, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        y, ld = self.bijection.forward(x, ld)
+    def forward(self, x, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
-    def reverse(self, y, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        return self.bijection.reverse(y + offset, ld)
+    def reverse(self, y, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
 class Radial(ApplyBijection):
-- 
2.43.0


From 2a410d34b7a4936d5232fdbd12fb8fe8d192a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 18/52] fix: multiplicative coupling layers with vector
 bijections

The log-density change has one entry per vector, not per element, and was
multiplied with (and broadcast to) the mask of all elements.
---
 src/bijx/bijections/coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 1927748..38c2416 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -687,7 +687,8 @@ class GeneralCouplingLayer(Bijection):
 
         if not self.split:
             # sum over event axes that were vmap'd over
-            delta_log_density *= self.mask
+            event_axes = tuple(range(-active_rank, 0))
+            delta_log_density *= jnp.any(self.mask.boolean_mask, axis=event_axes)
             axes = tuple(range(-broadcast_rank, 0))
             delta_log_density = jnp.sum(delta_log_density, axis=axes)
         elif active_rank == 0:
-- 
2.43.0


From 229c55cef98f7830a92926b90211f61e59fdc87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 19/52] fix: continuum momenta were not symmetric under k -> -k

FreeTheoryScaling(finite_size=False) multiplied a real field's Fourier modes
k and -k with different factors, which discards information: the bijection
did not invert itself.
---
 src/bijx/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 3225af0..b67a588 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -70,6 +70,9 @@ def fft_momenta(
         # with this true, (finite) lattice spectrum ~ 1 / m^2 + k^2
         # otherwise get ~ 1 / k^2 - 2 (cos(2 pi k) - 1)
         ks = 2 * jnp.sin(ks / 2)
+    else:
+        # first Brillouin zone, so that |k|^2 is the same for k and -k
+        ks = jnp.where(ks > jnp.pi, ks - 2 * jnp.pi, ks)
     # move "i" (space-dim index) to last axis
     return np.moveaxis(ks, 0, -1)
 
-- 
2.43.0


From 0def8822595ee6d34dc76bc1a6f3ec50bc3a1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 20/52] fix: ModuleReconstructor could not read the empty array
 of a parameterless module

---
 src/bijx/bijections/coupling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 38c2416..f365a81 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -452,6 +452,8 @@ class ModuleReconstructor(nnx.Pytree):
 
         if isinstance(params, np.ndarray | jax.Array):
             params_leaves = jnp.split(params, self.params_array_splits, -1)
+            # without any parameters, split still returns the (empty) array
+            params_leaves = params_leaves[: len(self.params_shapes)]
             params_leaves = [
                 jnp.reshape(p, p.shape[:-1] + s)
                 for p, s in zip(params_leaves, self.params_shapes, strict=True)
-- 
2.43.0


From 4852db277792a6871a4d967475284054c2acb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 21/52] fix: resize_kernel_weights moved the kernel off its
 center

Growing an odd kernel padded more on one side than the other, shrinking
cropped too much and an even kernel lost half of its edge weights even
when its size did not change.
---
 src/bijx/nn/conv.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/bijx/nn/conv.py b/src/bijx/nn/conv.py
index bc013c4..503541e 100644
--- a/src/bijx/nn/conv.py
+++ b/src/bijx/nn/conv.py
@@ -392,15 +392,15 @@ def resize_kernel_weights(
 
     # divide copied values by two
     _slice = np.index_exp[:]
-    for dim, length in enumerate(shape):
-        if length % 2 == 0:
+    for dim, wrap in enumerate(wraps):
+        if wrap != (0, 0):
             kernel[_slice * dim + ([0, -1],)] /= 2
 
-    # add zeros to reach desired shape
-    padding = [
-        ((new - old - 1) // 2, (old % 2) + (new - old) // 2) if new > old else (0, 0)
-        for new, old in zip(new_shape, shape)
-    ]
+    # add zeros to reach desired shape, keeping the center (s - 1) // 2 in place
+    padding = []
+    for new, length, wrap in zip(new_shape, kernel.shape, wraps):
+        before = max((new - 1) // 2 - ((length - sum(wrap) - 1) // 2 + wrap[0]), 0)
+        padding.append((before, max(new - length - before, 0)))
     w = np.pad(
         kernel,
         padding + [(0, 0)] * 2,
@@ -415,9 +415,8 @@ def resize_kernel_weights(
         if new >= old:
             crop += np.index_exp[:]
         else:
-            crop += np.index_exp[
-                (old - new + (old % 2)) // 2 : -(old - new + (new % 2)) // 2
-            ]
+            start = (old - 1) // 2 - (new - 1) // 2
+            crop += np.index_exp[start : start + new]
     return w[crop]
 
 
-- 
2.43.0


From f0201dc86121b4fbfbf1c671b8c09faf414586ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 22/52] fix: action densities used the backward instead of the
 forward neighbour

kinetic_term and phi4_term_alt document phi(x + mu); the density at each
site was the one of the site before it in every direction.
---
 src/bijx/lattice/scalar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index d252d2b..846d762 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -293,7 +293,7 @@ def kinetic_term(phi: jax.Array) -> jax.Array:
         >>> jnp.allclose(T, 0.0)
         Array(True, dtype=bool)
     """
-    a = reduce(jnp.add, [(jnp.roll(phi, 1, y) - phi) ** 2 for y in range(phi.ndim)])
+    a = reduce(jnp.add, [(jnp.roll(phi, -1, y) - phi) ** 2 for y in range(phi.ndim)])
     return a
 
 
@@ -395,7 +395,7 @@ def phi4_term_alt(
     kinetic = (
         (-2 * kappa)
         * phi
-        * reduce(jnp.add, [jnp.roll(phi, 1, y) for y in range(phi.ndim)])
+        * reduce(jnp.add, [jnp.roll(phi, -1, y) for y in range(phi.ndim)])
     )
     if lam is None:
         return kinetic + phi**2
-- 
2.43.0


From feb6ba428d7a8419ebe3639be4eee7f095868c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 23/52] fix: two_point_central was not translation invariant

The disconnected part <phi(0)><phi(x)> has to be averaged over
translations like the full correlator it is subtracted from.
---
 src/bijx/lattice/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index 846d762..d14337c 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -235,7 +235,7 @@ def two_point_central(phis: jnp.ndarray) -> jnp.ndarray:
         Array(True, dtype=bool)
     """
     phis_mean = jnp.mean(phis, axis=0)
-    outer = phis_mean * jnp.mean(phis_mean)
+    outer = cyclic_corr(phis_mean, phis_mean)
 
     return two_point(phis, True) - outer
 
-- 
2.43.0


From 74aebb35fc707990022439c7519285047120f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 24/52] fix: odeint_rk4 returned the initial value when the end
 time lies before the start time

---
 src/bijx/solvers.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index 00c5ef3..667ae50 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -270,9 +270,10 @@ def odeint_rk4(fun, y0, end_time, *args, step_size, start_time=0):
             the current position y and time t. The output must have the same
             shape and type as `y0`.
         y0: Initial value.
-        end_time: Final time of the integration.
+        end_time: Final time of the integration. May lie before ``start_time``,
+            in which case the integration runs backwards in time.
         ``*args``: Additional arguments for `func`.
-        step_size: Step size for the fixed-grid solver.
+        step_size: (Positive) step size for the fixed-grid solver.
         start_time: Initial time of the integration.
 
     Returns:
@@ -326,15 +327,21 @@ def _rk4_odeint(fun, step_size, y0, ts, *args):
         k4 = func_(cur_y + dt * k3, cur_t + dt)
         return (k1 + 2 * k2 + 2 * k3 + k4) * (dt / 6)
 
+    forward = ts[0] <= ts[1]
+
     def cond_fun(carry):
         """Check if we've reached the last timepoint."""
         cur_y, cur_t = carry
-        return cur_t < ts[1]
+        return jnp.where(forward, cur_t < ts[1], cur_t > ts[1])
 
     def body_fun(carry):
         """Take one step of RK4."""
         cur_y, cur_t = carry
-        next_t = jnp.minimum(cur_t + step_size, ts[1])
+        next_t = jnp.where(
+            forward,
+            jnp.minimum(cur_t + step_size, ts[1]),
+            jnp.maximum(cur_t - step_size, ts[1]),
+        )
         dt = next_t - cur_t
         dy = step_func(cur_t, dt, cur_y)
         return cur_y + dy, next_t
-- 
2.43.0


From 305d3ebfc2d12e35ba65fddb8a56c319130889f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 25/52] fix: UnitaryDeriv.project subtracted the trace from
 every matrix entry

---
 src/bijx/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 50185ff..60709ce 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -375,7 +375,7 @@ class UnitaryDeriv(ManifoldType):
     def project(self, x):
         if self.special:
             trace = jnp.linalg.trace(x)
-            x = x - trace / x.shape[-1]
+            x = x - trace / x.shape[-1] * jnp.eye(x.shape[-1])
         x = (x - x.mT.conj()) / 2
         return x
 
-- 
2.43.0


From adee26773bc666b0670ad75a4d50d63a9cf55c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 26/52] fix: crouch_grossmann ignored the projection options of
 manifold types

---
 src/bijx/cg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 60709ce..9c5a1a6 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -523,10 +523,18 @@ def crouch_grossmann_step(manifold_types, tableau, vector_field, step_size, t, y
         ti = t + step_size * tableau.c[i]
         # intermediate state
         intermediate = cg_stage(y0, vectors, manifold_types, ai, step_size)
+        intermediate = jax.tree.map(
+            lambda state, mtype: mtype.post_stage(state), intermediate, manifold_types
+        )
         # evaluate vector field
         vectors[i] = vector_field(ti, intermediate)
 
-    return cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    y1 = cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    return jax.tree.map(
+        lambda state, mtype: mtype.post_step(mtype.post_stage(state)),
+        y1,
+        manifold_types,
+    )
 
 
 def crouch_grossmann(
-- 
2.43.0


From 803c2ef26d250ad0c481151bb09ee4251ebe0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 27/52] fix: crouch_grossmann with transport_adjoint returned
 the transported gradient of the initial state

---
 src/bijx/cg.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 9c5a1a6..2d5a94c 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -226,6 +226,18 @@ class ManifoldType(nnx.Pytree):
         """
         return adj
 
+    def restore_adjoint(self, x, adj):
+        """Invert :meth:`project_adjoint` (back to the ambient cotangent space).
+
+        Args:
+            x: Current state.
+            adj: Projected adjoint state.
+
+        Returns:
+            Ambient adjoint (identity by default).
+        """
+        return adj
+
 
 class Euclidean(ManifoldType):
     """Euclidean space with standard vector addition.
@@ -318,6 +330,11 @@ class Matrix(ManifoldType):
             return jnp.einsum("...ij,...kj->...ik", adj, x)
         return adj
 
+    def restore_adjoint(self, x, adj):
+        if self.transport_adjoint:
+            return jnp.einsum("...ij,...kj->...ik", adj, jnp.linalg.inv(x))
+        return adj
+
     def post_adjoint_vjp(self, x, adj_vec, v, adj):
         # if transporting adjoint, add term to keep at origin
         if self.transport_adjoint:
@@ -733,7 +750,7 @@ def _crouch_grossmann_rev(
         jax.tree.map(lambda _, mtype: mtype.derivative_type(), args, args_types),
     )
 
-    _, y_bar, t0_bar, args_bar = _crouch_grossmann(
+    y0, y_bar, t0_bar, args_bar = _crouch_grossmann(
         state_types,
         args_types,
         tableau,
@@ -744,6 +761,13 @@ def _crouch_grossmann_rev(
         args,
     )
 
+    y_bar = jax.tree.map(
+        lambda y, adj, mtype: mtype.restore_adjoint(y, adj),
+        y0,
+        y_bar,
+        manifold_types,
+    )
+
     ts_bar = jnp.array([t0_bar, t_bar])
     return (ts_bar, y_bar, *args_bar)
 
-- 
2.43.0


From 86904d826d775ace108924bc87facfef68437dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 28/52] fix: divergence of site-wise features was wrong for
 several channels

---
 src/bijx/nn/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/nn/features.py b/src/bijx/nn/features.py
index 04c948e..9e68140 100644
--- a/src/bijx/nn/features.py
+++ b/src/bijx/nn/features.py
@@ -99,7 +99,9 @@ class NonlinearFeatures(nnx.Module):
         inputs, bwd = jax.vjp(apply, inputs)
 
         if flatten_features:
-            local_coupling = local_coupling.reshape(orig_channels, orig_channels, -1)
+            # (in channels * features, out channels), features in the order below
+            local_coupling = local_coupling.reshape(orig_channels, -1, orig_channels)
+            local_coupling = local_coupling.swapaxes(1, 2)
 
         idc = np.arange(local_coupling.shape[1])
         cotangent_reshape = (*inputs.shape[:-2], 1, 1)
-- 
2.43.0


From 70d87c0dbd2fc21f18529d060a6bc33a14ae5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 29/52] fix: ConvVF.build failed without feature reduction

---
 src/bijx/bijections/conv_cnf.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 82a015f..84814df 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -120,17 +120,19 @@ class ConvVF(nnx.Module):
 
         conv = nnx.merge(conv_graph, conv_params)
 
-        feature_superposition = (
-            self.feature_superposition / self.feature_map.out_channel_size
-        )
-
         # extract the local-coupling weights; shape=(in features, out features)
         w00 = conv.kernel_params[0]
-        # contract with feature superposition
-        w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
+        if self.feature_superposition is None:
+            features, div = self.feature_map(x, w00)
+        else:
+            feature_superposition = (
+                self.feature_superposition / self.feature_map.out_channel_size
+            )
+            # contract with feature superposition
+            w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
-        features, div = self.feature_map(x, w00)
-        features = jnp.einsum("fw,...w->...f", feature_superposition, features)
+            features, div = self.feature_map(x, w00)
+            features = jnp.einsum("fw,...w->...f", feature_superposition, features)
         grad_phi = conv(features)
 
         grad_phi = grad_phi.reshape(*batch_shape, *shape_info.event_shape)
@@ -168,7 +170,8 @@ class ConvVF(nnx.Module):
             time_kernel: Time embedding module for kernel modulation.
             time_kernel_reduced: Dimensionality reduction for time embeddings.
             features: Tuple of feature transformation classes to compose.
-            features_reduced: Dimensionality reduction for feature superposition.
+            features_reduced: Dimensionality reduction for feature superposition
+                (no superposition if None).
             rngs: Random number generator state for parameter initialization.
 
         Returns:
@@ -195,6 +198,7 @@ class ConvVF(nnx.Module):
         )
 
         conv_in_features = features.out_channel_size
+        feature_superposition = None
         if features_reduced is not None:
             feature_superposition = nnx.Param(
                 nnx.initializers.orthogonal()(
-- 
2.43.0


From 00056bc0dcf63971828cadbf4a25c39dbd4c5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 30/52] fix: ConvVF divergence missed self-couplings other than
 the first orbit

---
 src/bijx/bijections/conv_cnf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 84814df..53a0a16 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -121,7 +121,7 @@ class ConvVF(nnx.Module):
         conv = nnx.merge(conv_graph, conv_params)
 
         # extract the local-coupling weights; shape=(in features, out features)
-        w00 = conv.kernel_params[0]
+        w00 = self._local_weights(conv, shape_info.space_shape)
         if self.feature_superposition is None:
             features, div = self.feature_map(x, w00)
         else:
@@ -138,6 +138,16 @@ class ConvVF(nnx.Module):
         grad_phi = grad_phi.reshape(*batch_shape, *shape_info.event_shape)
         return grad_phi, -div.reshape(*batch_shape)
 
+    @staticmethod
+    def _local_weights(conv, space_shape):
+        """Kernel weights coupling each site to itself (accounts for wrap-around)."""
+        # kernel sites at a displacement of zero modulo the lattice
+        local = tuple(
+            slice((k - 1) // 2 % s, None, s)
+            for k, s in zip(conv.kernel_size, space_shape)
+        )
+        return jnp.sum(conv.kernel[local], axis=tuple(range(len(local))))
+
     @classmethod
     def build(
         cls,
-- 
2.43.0


From b4303e9b74585b95221a1efa9c6899439b92c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 31/52] fix: ContFlowRK4 ignored the length of the time
 interval

---
 src/bijx/bijections/continuous.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 63e6336..b25d4cf 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -219,13 +219,12 @@ class ContFlowRK4(Bijection):
         steps = steps if steps is not None else self.steps
 
         delta_t = t_end - t_start
-        sgn = jnp.where(delta_t < 0, -1.0, 1.0)
 
         def vf(s, state, args):
             x, log_density = state
             t = t_start + s * delta_t
             dx_dt, dld_dt = jax.tree.map(
-                lambda x: sgn * x,
+                lambda x: delta_t * x,
                 self.vf(t, x, **args),
             )
             return dx_dt, dld_dt
-- 
2.43.0


From b240daa76a3355bc07fbdd787286e1070336176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 32/52] fix: reverse of continuous flows failed when the time
 interval is overridden

---
 src/bijx/bijections/continuous.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index b25d4cf..836391c 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -130,11 +130,12 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(x, log_density, **kwargs)
         return jax.tree.map(lambda x: x[-1], sol.ys)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         """Solve the ODE flow in reverse and return the final state.
 
         Note that the same optional overrides as in :meth:`solve_flow`
-        can be set here (start/end times, step size).
+        can be set here (start/end times, step size). The start and end times
+        are those of the forward flow that is undone.
         The ``saveat`` argument should probably not be modified as the
         this method assumes the final state is computed, which is returned by
         this function. Use :meth:`solve_flow` directly for this.
@@ -142,8 +143,8 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(
             x,
             log_density,
-            t_start=self.config.t_end,
-            t_end=self.config.t_start,
+            t_start=t_end if t_end is not None else self.config.t_end,
+            t_end=t_start if t_start is not None else self.config.t_start,
             **kwargs,
         )
         return jax.tree.map(lambda x: x[-1], sol.ys)
@@ -243,12 +244,13 @@ class ContFlowRK4(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
+        """Undo :meth:`forward` for the same (overrides of) start and end times."""
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=t_end if t_end is not None else self.t_end,
+            t_end=t_start if t_start is not None else self.t_start,
             **kwargs,
         )
 
@@ -347,12 +349,13 @@ class ContFlowCG(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
+        """Undo :meth:`forward` for the same (overrides of) start and end times."""
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=t_end if t_end is not None else self.t_end,
+            t_end=t_start if t_start is not None else self.t_start,
             **kwargs,
         )
 
-- 
2.43.0


From 82170fefdc515fa025bd45103d7eb4df418f7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 33/52] fix: lie.grad with has_aux returns the gradient and the
 auxiliary output

---
 src/bijx/lie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 3138d93..0ac1f8c 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -682,6 +682,7 @@ def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless
 
     Returns:
         Function computing gradient, or (value, gradient) if return_value=True.
+        As in JAX, has_aux=True gives (gradient, aux) or ((value, aux), gradient).
 
     Example:
         >>> def potential(U):
@@ -705,13 +706,17 @@ def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless
             )
         else:
             a = jax.grad(fn, argnums=argnum, has_aux=has_aux)(*args, **kwargs)
+            if has_aux:
+                a, aux = a
 
         if callable(algebra):
             a = algebra(a, u)
         else:
             a = jnp.sum(_proj(a, u, algebra), axis=0)
 
-        return (val, a) if return_value else a
+        if return_value:
+            return val, a
+        return (a, aux) if has_aux else a
 
     return wrapped
 
-- 
2.43.0


From 8a310fd325db447940d4ce640cd7d984e8cbf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 34/52] fix: lie.grad projects each group element of a batch
 separately

---
 src/bijx/lie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 0ac1f8c..c765d02 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -642,11 +642,12 @@ def skew_traceless_cot(a, u):
     # Df^dagger
     a = jnp.swapaxes(a, -1, -2)
     # transport to identity
-    a = jnp.einsum("...ij,jk->...ik", u, a)
+    a = jnp.einsum("...ij,...jk->...ik", u, a)
     # project to skew symmetric
     a = jnp.swapaxes(a, -1, -2).conj() - a
     # project to traceless
-    a = a - jnp.trace(a) / a.shape[-1] * np.eye(a.shape[-1])
+    tr = jnp.trace(a, axis1=-2, axis2=-1)[..., None, None]
+    a = a - tr / a.shape[-1] * np.eye(a.shape[-1])
     return a
 
 
@@ -656,7 +657,7 @@ def _proj(a, u, gen):
 
     This can be used to project onto a general basis of generators.
     """
-    return jnp.sum(a * (gen @ u)).real * gen
+    return jnp.sum(a * (gen @ u), axis=(-2, -1), keepdims=True).real * gen
 
 
 def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless_cot):
-- 
2.43.0


From 52a1769d47fb595a4def0f395b9d864bd302bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 35/52] fix: eigenvalue angle functions keep the batch shape of
 the angles

---
 src/bijx/lie.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index c765d02..23933a2 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -334,9 +334,7 @@ def compute_haar_density(eigenvalue_angles):
         - For visualization, divide by total volume to get probability density
         - For SU(2), this reduces to $\abs{2i \sin(\theta)}^2 = 4\sin^2(\theta)$
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     # Add the constraint angle θₙ = -∑ᵢ₌₁ⁿ⁻¹ θᵢ
     all_angles = jnp.concatenate(
@@ -356,9 +354,7 @@ def compute_haar_density(eigenvalue_angles):
             diff = eigenvalues[..., i] - eigenvalues[..., j]
             density *= jnp.abs(diff) ** 2
 
-    return (
-        jnp.squeeze(density) if density.ndim > 0 and density.shape[-1] == 1 else density
-    )
+    return density
 
 
 def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
@@ -402,9 +398,7 @@ def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
         - The eigenvectors are sampled uniformly, giving the correct Haar measure
         - Each call with the same rng and angles gives identical results
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     batch_shape = eigenvalue_angles.shape[:-1]
     n = eigenvalue_angles.shape[-1] + 1  # SU(n) dimension
-- 
2.43.0


From 0daa4bea9b62b9b172d8d110a33e507dd683f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 36/52] fix: solve_cubic does not overflow for large
 coefficients

---
 src/bijx/bijections/analytic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 9eecae9..26cdc12 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -42,6 +42,13 @@ def solve_cubic(a, b, c, d):
 
     Uses numerically stable computation for the real root.
     """
+    # rescale x such that no coefficient exceeds one: powers must not overflow
+    b, c, d = b / a, c / a, d / a
+    scale = jnp.maximum(jnp.abs(b), jnp.sqrt(jnp.abs(c)))
+    scale = jax.lax.stop_gradient(jnp.maximum(scale, jnp.cbrt(jnp.abs(d))))
+    scale = jnp.where(scale == 0, 1.0, scale)
+    a, b, c, d = 1.0, b / scale, c / scale / scale, d / scale / scale / scale
+
     d0 = b**2 - 3 * a * c
     d1 = 2 * b**3 - 9 * a * b * c + 27 * a**2 * d
 
@@ -57,7 +64,7 @@ def solve_cubic(a, b, c, d):
     c = jnp.cbrt(c_arg / 2)
     # c = 0 (hence d0 = 0) at a triple root
     d0_over_c = jnp.where(c == 0, 0.0, d0 / jnp.where(c == 0, 1.0, c))
-    return -(b + c + d0_over_c) / (3 * a)
+    return -(b + c + d0_over_c) / (3 * a) * scale
 
 
 class CubicRational(ScalarBijection):
-- 
2.43.0


From d9b8b6763fd48fc066e01c88334777db23193b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 37/52] fix: sinh_nonlinearity is monotone and differentiable
 across its threshold

---
 src/bijx/bijections/analytic.py | 90 +++++----------------------------
 1 file changed, 14 insertions(+), 76 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 26cdc12..4bda7a8 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -132,25 +132,23 @@ def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=15.0):
 
     Threshold is used for numerical stability.
     """
-    # For |x| >= threshold, use asymptotic forms
-    log_mu_nu = mu + nu
+    # Tails: sinh(x) = sign(x) exp(|x|)/2 (1 - exp(-2|x|)), such that the argument
+    # of arcsinh is sign(x) exp(t)/2 with t as below
+    abs_x, sign = jnp.abs(x), jnp.sign(x)
+    rest = 2 * sign * beta * jnp.exp(-nu - abs_x) - jnp.exp(-2 * abs_x)
+    in_tail = (abs_x >= threshold) & (rest > -0.5)
 
     # Middle range computation with protected sinh
-    x_clamped = jnp.where(jnp.abs(x) < threshold, x, 0.0)
+    x_clamped = jnp.where(in_tail, 0.0, x)
     sinh_val = jnp.sinh(x_clamped)
     arg = jnp.exp(mu) * (jnp.exp(nu) * sinh_val + beta)
     middle_result = jnp.arcsinh(arg)
 
-    # Asymptotic approximations
-    result = jnp.where(
-        x >= threshold,
-        x + log_mu_nu,  # Large positive: f(x) ≈ x + log(mu*nu)
-        jnp.where(
-            x <= -threshold,
-            x - log_mu_nu,  # Large negative: f(x) ≈ x - log(mu*nu)
-            middle_result,
-        ),
-    )
+    t = jnp.where(in_tail, abs_x, threshold) + mu + nu
+    t = t + jnp.log1p(jnp.where(in_tail, rest, 0.0))
+    tail_result = t + jnp.log1p(jnp.sqrt(1 + 4 * jnp.exp(-2 * t))) - jnp.log(2.0)
+
+    result = jnp.where(in_tail, sign * tail_result, middle_result)
 
     return result
 
@@ -176,69 +174,9 @@ def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
     Numerically stable computation of log(f'(x)) where
     f(x) = arcsinh(exp(mu) * (exp(nu) * sinh(x) + beta)).
     """
-    # For large |x|, the gradient approaches 1, so log(gradient) → 0
-    asymptotic_result = 0.0
-
-    # Check if we're in asymptotic regime
-    in_asymptotic = jnp.abs(x) > threshold
-
-    # CRITICAL: Clamp x BEFORE any computation to ensure both branches are safe
-    # This prevents sinh overflow even when gradients flow through the middle branch
-    x_clamped = jnp.clip(x, -threshold, threshold)
-    sinh_x = jnp.sinh(x_clamped)
-
-    # Compute exp(mu) and exp(nu) - protect against overflow
-    exp_mu_raw = jnp.exp(mu)
-    exp_nu_raw = jnp.exp(nu)
-    exp_max = 1e10
-    exp_mu = jnp.where(
-        jnp.isfinite(exp_mu_raw), jnp.clip(exp_mu_raw, 0.0, exp_max), exp_max
-    )
-    exp_nu = jnp.where(
-        jnp.isfinite(exp_nu_raw), jnp.clip(exp_nu_raw, 0.0, exp_max), exp_max
-    )
-
-    # Compute arg - safe because sinh_x is bounded
-    beta_safe = jnp.clip(beta, -1e5, 1e5)
-    arg_raw = exp_mu * (exp_nu * sinh_x + beta_safe)
-
-    # Protect arg from becoming inf/nan
-    arg_max = 1e10
-    arg = jnp.where(jnp.isfinite(arg_raw), jnp.clip(arg_raw, -arg_max, arg_max), 0.0)
-    arg_squared = arg * arg
-
-    # Stable log(cosh(x)) computation - safe because x_clamped is bounded
-    log_cosh_x = log_cosh_stable(x_clamped)
-
-    # Stable computation of log(sqrt(1 + arg^2)) = 0.5 * log(1 + arg^2)
-    # For small arg^2, use log1p for accuracy
-    # For large arg^2, use 0.5 * log(arg^2) which is more stable on GPU than log(|arg|)
-    threshold_arg_sq = 1e8  # Lower threshold for smoother transition on GPU
-
-    # When arg^2 is small: use log1p for precision
-    log_sqrt_denom_small = 0.5 * jnp.log1p(arg_squared)
-
-    # When arg^2 is large: log(sqrt(1 + arg^2)) ≈ 0.5 * log(arg^2) = log(|arg|)
-    # Use 0.5 * log(arg^2) directly for better GPU numerical stability
-    # Add small epsilon to prevent log(0) in edge cases
-    log_sqrt_denom_large = 0.5 * jnp.log(jnp.maximum(arg_squared, 1e-20))
-
-    log_sqrt_denom = jnp.where(
-        arg_squared < threshold_arg_sq, log_sqrt_denom_small, log_sqrt_denom_large
-    )
-
-    # Final safeguard: ensure result is finite (handles GPU numerical edge cases)
-    log_sqrt_denom = jnp.where(
-        jnp.isfinite(log_sqrt_denom), log_sqrt_denom, log_sqrt_denom_small
-    )
-
-    # Combine - this is safe even when |x| > threshold because x_clamped is bounded
-    middle_result = mu + nu + log_cosh_x - log_sqrt_denom
-
-    # Select based on x magnitude - both branches are now safe
-    result = jnp.where(in_asymptotic, asymptotic_result, middle_result)
-
-    return result
+    # sqrt(1 + arg^2) = cosh(f(x)) for the argument of arcsinh
+    y = sinh_nonlinearity(x, beta, mu, nu, threshold=threshold)
+    return mu + nu + log_cosh_stable(x) - log_cosh_stable(y)
 
 
 class SinhConjugation(ScalarBijection):
-- 
2.43.0


From d6702f186ef196e68312b96c516b46c3064ec560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 38/52] fix: solve_cubic returns nan when rounding makes the
 discriminant negative

---
 src/bijx/bijections/analytic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 4bda7a8..c6ad57b 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -52,7 +52,12 @@ def solve_cubic(a, b, c, d):
     d0 = b**2 - 3 * a * c
     d1 = 2 * b**3 - 9 * a * b * c + 27 * a**2 * d
 
-    sqrt = jnp.sqrt(d1**2 - 4 * d0**3)
+    discriminant = d1**2 - 4 * d0**3
+    # negative only by rounding: real roots that (almost) coincide
+    rounding = 16 * jnp.finfo(jnp.result_type(d1)).eps * d1**2
+    is_zero = (discriminant <= 0) & (discriminant >= -rounding)
+    sqrt = jnp.sqrt(jnp.where(is_zero, 1.0, discriminant))
+    sqrt = jnp.where(is_zero, 0.0, sqrt)
 
     minus = d1 - sqrt
     plus = d1 + sqrt
-- 
2.43.0


From b928bcf7331e0e87cab95a0b09eab3bd861eac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 39/52] fix: BetaStretch.rev is nan at the upper end of the
 interval

---
 src/bijx/bijections/scalar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index afc3826..1c0cfc9 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -657,5 +657,5 @@ class BetaStretch(ScalarBijection):
 
     def rev(self, y, **kwargs):
         a = self.a.get_value()
-        r = (y / (1 - y)) ** (1 / a)
-        return r / (r + 1)
+        # y / (1 - y) and its powers may be infinite, their logarithms can be
+        return nnx.sigmoid((jnp.log(y) - jnp.log1p(-y)) / a)
-- 
2.43.0


From c396179e194c71f136d965b5bd7d085cab7ff2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 40/52] fix: normal distributions and mixtures reject keyword
 arguments of a conditional transformation

---
 src/bijx/distributions.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 3ae4968..4656fa9 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -413,11 +413,12 @@ class MultivariateNormal(ArrayDistribution):
         cholesky = _cov_to_cholesky(cov)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
             x: Points at which to evaluate density, shape (..., dim).
+            **kwargs: Additional arguments (unused).
 
         Returns:
             Log density values with batch dimensions matching input.
@@ -431,12 +432,13 @@ class MultivariateNormal(ArrayDistribution):
         log_density -= self.dim / 2 * jnp.log(2 * jnp.pi)
         return log_density - jnp.log(cholesky.diagonal()).sum(-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
             batch_shape: Shape of batch dimensions for vectorized sampling.
             rng: Random key for sampling, or None to use internal rngs.
+            **kwargs: Additional arguments (unused).
 
         Returns:
             Tuple of (samples, log_densities) where samples have shape
@@ -583,11 +585,12 @@ class DiagonalNormal(ArrayDistribution):
     def scales(self):
         return jnp.abs(self.scales_bare) + self.epsilon
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
             x: Points at which to evaluate density, shape (..., dim).
+            **kwargs: Additional arguments (unused).
 
         Returns:
             Log density values with batch dimensions matching input.
@@ -598,12 +601,13 @@ class DiagonalNormal(ArrayDistribution):
         log_density -= 0.5 * self.dim * jnp.log(2 * jnp.pi)
         return log_density - jnp.sum(jnp.log(self.scales), axis=-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
             batch_shape: Shape of batch dimensions for vectorized sampling.
             rng: Random key for sampling, or None to use internal rngs.
+            **kwargs: Additional arguments (unused).
 
         Returns:
             Tuple of (samples, log_densities) where samples have shape
@@ -656,26 +660,26 @@ class MixtureStack(Distribution):
     def get_batch_shape(self, x):
         return self._dist(0).get_batch_shape(x)
 
-    def log_density(self, x):
-        lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
+    def log_density(self, x, **kwargs):
+        lds = nnx.vmap(lambda d: d.log_density(x, **kwargs), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
-    @partial(jax.vmap, in_axes=(None, 0))
-    def _sample(self, rng):
+    def _sample(self, rng, **kwargs):
         rng_choice, rng_sample = jax.random.split(rng)
         component_indices = jax.random.choice(
             rng_choice,
             self.dist_count,
             p=self.weights_normalized,
         )
-        return self._dist(component_indices).sample((), rng=rng_sample)[0]
+        return self._dist(component_indices).sample((), rng=rng_sample, **kwargs)[0]
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
-        samples = self._sample(jax.random.split(rng, total))
+        sample = jax.vmap(partial(self._sample, **kwargs))
+        samples = sample(jax.random.split(rng, total))
         samples = jax.tree.map(lambda x: x.reshape(*batch_shape, *x.shape[1:]), samples)
-        log_density = self.log_density(samples)
+        log_density = self.log_density(samples, **kwargs)
         return samples, log_density
 
 
@@ -741,8 +745,8 @@ class GaussianMixture(Distribution):
     def weights(self):
         return self.mixture.weights_normalized
 
-    def log_density(self, x):
-        return self.mixture.log_density(x)
+    def log_density(self, x, **kwargs):
+        return self.mixture.log_density(x, **kwargs)
 
-    def sample(self, batch_shape=(), rng=None):
-        return self.mixture.sample(batch_shape, rng)
+    def sample(self, batch_shape=(), rng=None, **kwargs):
+        return self.mixture.sample(batch_shape, rng, **kwargs)
-- 
2.43.0


From 06de3fef0da1c0daee87db9c81391281ae648cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 41/52] fix: HaarDistribution.sample requires a batch shape

---
 src/bijx/lie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 23933a2..dc61e5a 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -258,7 +258,7 @@ class HaarDistribution(ArrayDistribution):
         base_shape = (*lat_shape, len(lat_shape))
         return cls(n, base_shape, rngs)
 
-    def sample(self, batch_shape, rng=None, **kwargs):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Sample SU(N) matrices from Haar measure.
 
         Args:
-- 
2.43.0


From d05c87ff1c0b55ebe774c5a21730c0b286079a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 42/52] fix: mixtures cannot be scored inside transformations
 that trace their input

---
 src/bijx/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 4656fa9..ef9e9ea 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -661,7 +661,12 @@ class MixtureStack(Distribution):
         return self._dist(0).get_batch_shape(x)
 
     def log_density(self, x, **kwargs):
-        lds = nnx.vmap(lambda d: d.log_density(x, **kwargs), out_axes=-1)(self.stack)
+        # jax.vmap, because nnx.vmap rejects modules created at another trace level
+        def component(dist_vars):
+            dist = nnx.merge(self.dist_graph, dist_vars)
+            return dist.log_density(x, **kwargs)
+
+        lds = jax.vmap(component, out_axes=-1)(self.dist_vars)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
     def _sample(self, rng, **kwargs):
-- 
2.43.0


From ac4b8dfb44dd6e72fcb8c2a6768f2dbbfb4d6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 43/52] fix: wrapped FlowJAX components cannot be compiled,
 buffered or trained as modules

---
 src/bijx/flowjax.py | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 6414e01..103db85 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -28,11 +28,43 @@ import flowjax.bijections
 import flowjax.distributions
 import jax
 import jax.numpy as jnp
+import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
 from .bijections.base import Bijection
 from .distributions import Distribution
+from .utils import Const
+
+
+_PARAM, _ARRAY = "param", "array"
+
+
+def _flatten(component):
+    """Split a FlowJAX component into parameters, other arrays, and static parts.
+
+    Leaves of a FlowJAX component may be shapes, flags and functions, which are
+    not variables and must stay out of the state of the wrapping module.
+    """
+
+    def kind(leaf):
+        if isinstance(leaf, jax.Array) and jnp.issubdtype(leaf.dtype, jnp.inexact):
+            return _PARAM
+        return _ARRAY if isinstance(leaf, jax.Array | np.ndarray) else None
+
+    leaves, treedef = jax.tree.flatten(component)
+    kinds = tuple(kind(leaf) for leaf in leaves)
+    params = [v for v, k in zip(leaves, kinds, strict=True) if k is _PARAM]
+    arrays = [v for v, k in zip(leaves, kinds, strict=True) if k is _ARRAY]
+    static = tuple(v for v, k in zip(leaves, kinds, strict=True) if k is None)
+    return params, arrays, (treedef, kinds, static)
+
+
+def _unflatten(params, arrays, structure):
+    """Reconstruct the component taken apart by :func:`_flatten`."""
+    treedef, kinds, static = structure
+    parts = {_PARAM: iter(params), _ARRAY: iter(arrays), None: iter(static)}
+    return jax.tree.unflatten(treedef, [next(parts[kind]) for kind in kinds])
 
 
 class FlowjaxToBijxBijection(Bijection):
@@ -58,8 +90,9 @@ class FlowjaxToBijxBijection(Bijection):
             flowjax_bijection: FlowJAX bijection to wrap.
             cond_name: Keyword argument name for passing conditional inputs.
         """
-        params, self.treedef = jax.tree.flatten(flowjax_bijection)
+        params, arrays, self.structure = _flatten(flowjax_bijection)
         self.params = nnx.Param(params)
+        self.arrays = Const(arrays)
         self.cond_name = cond_name
 
         conditional_shape = flowjax_bijection.cond_shape
@@ -84,7 +117,7 @@ class FlowjaxToBijxBijection(Bijection):
         Returns:
             The FlowJAX bijection with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _unflatten(self.params, self.arrays, self.structure)
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation using FlowJAX bijection.
@@ -262,8 +295,9 @@ class FlowjaxToBijxDistribution(Distribution):
             rngs: Random number generators for bijx compatibility.
         """
         super().__init__(rngs)
-        params, self.treedef = jax.tree.flatten(flowjax_dist)
+        params, arrays, self.structure = _flatten(flowjax_dist)
         self.params = nnx.Param(params)
+        self.arrays = Const(arrays)
         self.cond_name = cond_name
 
         self.event_shape = flowjax_dist.shape
@@ -276,7 +310,7 @@ class FlowjaxToBijxDistribution(Distribution):
         Returns:
             The FlowJAX distribution with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _unflatten(self.params, self.arrays, self.structure)
 
     def get_batch_shape(self, x):
         """Infer batch shape from input array and known event shape.
-- 
2.43.0


From dfcdddb4338cfd0ad67b5a73889066063d49b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 44/52] fix: conditions of wrapped FlowJAX distributions add
 their batch shape to that of the samples

---
 src/bijx/flowjax.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 103db85..8c55c01 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -339,6 +339,16 @@ class FlowjaxToBijxDistribution(Distribution):
         condition = kwargs.get(self.cond_name, None)
 
         flowjax_dist = self.flowjax_dist
+        if condition is not None and self.conditional_shape is not None:
+            # FlowJAX adds batch dimensions of conditions to those of the samples
+            batch_dim = jnp.ndim(condition) - len(self.conditional_shape)
+            batch_shape = jnp.broadcast_shapes(
+                batch_shape, jnp.shape(condition)[:batch_dim]
+            )
+            condition = jnp.broadcast_to(
+                condition, batch_shape + self.conditional_shape
+            )
+            batch_shape = ()
         samples = flowjax_dist.sample(rng, batch_shape, condition)
         log_density = flowjax_dist.log_prob(samples, condition)
 
-- 
2.43.0


From cca581fb914452032ed886c21ea530de0687726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 45/52] fix: reshaping layers hold bound methods of themselves,
 which makes copying them recurse forever

---
 src/bijx/bijections/meta.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index c71f2b2..f701d70 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -134,7 +134,6 @@ class Reshape(MetaLayer):
     ):
         self.from_shape = from_shape
         self.to_shape = to_shape
-        super().__init__(self._forward, self._reverse)
 
     def _forward(self, x):
         shape = jnp.shape(x)
-- 
2.43.0


From 9484a12c8f1274be3c697e953f670d123228427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 46/52] fix: residual networks with dropout cannot be evaluated
 because dropout has no random stream

---
 src/bijx/nn/nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/nets.py b/src/bijx/nn/nets.py
index 5fb6df7..6d90146 100644
--- a/src/bijx/nn/nets.py
+++ b/src/bijx/nn/nets.py
@@ -164,7 +164,7 @@ class ResNet(nnx.Module):
             rngs=rngs,
         )
 
-        self.dropout = nnx.Dropout(rate=dropout)
+        self.dropout = nnx.Dropout(rate=dropout, rngs=rngs if dropout > 0 else None)
 
     def __call__(self, x):
         """Apply residual network to input features.
-- 
2.43.0


From 814550730f9726430026390c9ca2afbce65ee8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 47/52] fix: effective sample size loses all digits to a large
 normalization of the weights

---
 src/bijx/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index ed1d6eb..6d6b221 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -184,6 +184,8 @@ def effective_sample_size(
         Uses numerically stable log-sum-exp computations.
     """
     logw = target_ld - sample_ld
+    # remove the overall normalization, which would dominate the rounding errors
+    logw = logw - jnp.max(logw, axis=0)
     log_ess = 2 * jax.nn.logsumexp(logw, axis=0) - jax.nn.logsumexp(2 * logw, axis=0)
     ess_per_sample = jnp.exp(log_ess) / len(logw)
     return ess_per_sample
-- 
2.43.0


From 73d38f669200bf6d0d4a8346664cd28d28e12cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 48/52] fix: normalized Gaussian embedding is nan far from all
 centers

---
 src/bijx/nn/embeddings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index eefa07a..b023f56 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -130,8 +130,7 @@ class KernelGauss(Embedding):
         pos = jnp.linspace(0, 1, self.feature_count)
         val = rescale_range(val, self.val_range)
         val = -((val - pos) ** 2) * inverse_width
-        out = jnp.exp(val)
-        return out / jnp.sum(out) if self.norm else out
+        return nnx.softmax(val) if self.norm else jnp.exp(val)
 
 
 class KernelLin(Embedding):
-- 
2.43.0


From 8bb2223fbe2c15443795c9a8b426ca674fcc8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 49/52] fix: positional embedding with two features divides by
 zero

---
 src/bijx/nn/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index b023f56..2731d61 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -331,7 +331,7 @@ class PositionalEmbedding(Embedding):
         val = jnp.reshape(val, -1)
 
         half_dim = self.feature_count // 2
-        emb = np.log(self.max_positions) / (half_dim - 1)
+        emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
         emb = jnp.concatenate([jnp.sin(emb), jnp.cos(emb)], axis=1)
-- 
2.43.0


From 31e4d3a5836f5f00a653b0e011fcc3062e544bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 50/52] fix: embeddings state a feature count other than that
 of the features they return

---
 src/bijx/nn/embeddings.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 2731d61..bea1fe4 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -208,7 +208,8 @@ class KernelFourier(Embedding):
         val_range: tuple[float, float] | None = None,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        # sine and cosine per frequency plus the constant
+        super().__init__(2 * ((feature_count - 1) // 2) + 1, rngs=rngs)
         self.val_range = val_range
 
     @autovmap(val=0)
@@ -312,7 +313,7 @@ class PositionalEmbedding(Embedding):
         append_input: bool = False,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        super().__init__(feature_count + append_input, rngs=rngs)
         assert feature_count % 2 == 0, "feature_count must be even"
         self.max_positions = max_positions
         self.append_input = append_input
@@ -330,7 +331,7 @@ class PositionalEmbedding(Embedding):
         val_shape = jnp.shape(val)
         val = jnp.reshape(val, -1)
 
-        half_dim = self.feature_count // 2
+        half_dim = (self.feature_count - self.append_input) // 2
         emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
@@ -339,4 +340,4 @@ class PositionalEmbedding(Embedding):
         #     emb = jnp.pad(emb, [[0, 0], [0, 1]])
         if self.append_input:
             emb = jnp.concatenate([emb, val[:, None]], axis=1)
-        return emb.reshape(*val_shape, self.feature_count + self.append_input)
+        return emb.reshape(*val_shape, self.feature_count)
-- 
2.43.0


From ce1a2782e0918712e44ac415a0856ab03982dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 51/52] fix: a covariance given as a variable loses its
 variable class

---
 src/bijx/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index ef9e9ea..3297825 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -411,6 +411,8 @@ class MultivariateNormal(ArrayDistribution):
         if not hasattr(cov, "shape"):
             cov = _cov_init(rngs.params(), cov)
         cholesky = _cov_to_cholesky(cov)
+        if isinstance(cov, nnx.Variable):
+            cholesky = type(cov)(cholesky)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
     def log_density(self, x, **kwargs):
-- 
2.43.0


From 6a684cb47582983f5bf60e073582131100475337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 52/52] fix: the variable class is ignored for initialized
 parameters and mixture means and weights

---
 src/bijx/distributions.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 3297825..af99cec 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -330,7 +330,11 @@ class MultivariateNormal(ArrayDistribution):
         """
         self.epsilon = epsilon
         self.mean = default_wrap(
-            mean, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.normal()
+            mean,
+            cls=var_cls,
+            init_cls=var_cls,
+            rngs=rngs,
+            init_fn=nnx.initializers.normal(),
         )
         dim = self.mean.shape[-1]
 
@@ -338,7 +342,11 @@ class MultivariateNormal(ArrayDistribution):
             cholesky = (*self.mean.shape[:-1], _dim_to_chol_size(dim))
 
         self.cholesky = default_wrap(
-            cholesky, cls=var_cls, rngs=rngs, init_fn=_init_cholesky
+            cholesky,
+            cls=var_cls,
+            init_cls=var_cls,
+            rngs=rngs,
+            init_fn=_init_cholesky,
         )
         assert dim == _chol_size_to_dim(self.cholesky.shape[-1]), (
             f"mean dimension {dim} does not match covariance dimension "
@@ -507,12 +515,20 @@ class DiagonalNormal(ArrayDistribution):
         """
         # Wrap parameters first
         self.mean = default_wrap(
-            mean, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.normal()
+            mean,
+            cls=var_cls,
+            init_cls=var_cls,
+            rngs=rngs,
+            init_fn=nnx.initializers.normal(),
         )
         if scales is None:
             scales = self.mean.shape
         self.scales_bare = default_wrap(
-            scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
+            scales,
+            cls=var_cls,
+            init_cls=var_cls,
+            rngs=rngs,
+            init_fn=nnx.initializers.ones,
         )
 
         super().__init__(rngs=rngs, event_shape=(self.dim,))
@@ -708,7 +724,13 @@ class GaussianMixture(Distribution):
         epsilon: float = 1e-10,
     ):
         super().__init__(rngs=rngs)
-        means = default_wrap(means, init_fn=nnx.initializers.normal(), rngs=rngs)
+        means = default_wrap(
+            means,
+            cls=var_cls,
+            init_cls=var_cls,
+            init_fn=nnx.initializers.normal(),
+            rngs=rngs,
+        )
         mean_shape = means.shape
 
         if covariances is None:
@@ -734,6 +756,13 @@ class GaussianMixture(Distribution):
 
         if weights is None:
             weights = (means.shape[0],)
+        weights = default_wrap(
+            weights,
+            cls=var_cls,
+            init_cls=var_cls,
+            init_fn=nnx.initializers.zeros,
+            rngs=rngs,
+        )
 
         self.mixture = MixtureStack(stack, weights, rngs=rngs)
 
-- 
2.43.0

