From 5a982c58531f9832e14c351ff437300c662aea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 01/16] fix: single-lens Jacobian determinant is 1 - 1/|z|^4,
 not 1 - 1/|z|^2

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From c48341b537f986e225c498d338d5ff3b8f5a6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 02/16] fix: linear_chi2 with a scalar error (including the
 default 0.0) divided by zero and used sum(w)=w

---
 src/microjax/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..f754b96 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,6 +62,7 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
+    err = jnp.broadcast_to(jnp.asarray(err, dtype=jnp.result_type(float, x)), jnp.shape(x))
     wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
-- 
2.43.0


From 70ee7ee36ecd90cf5b44c74a2d3589a13a228661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 03/16] fix: planetary-caustic test must look at the planetary
 caustic in the mid-point frame of its arguments

---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..6d5a449 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # planetary caustic in the mid-point frame (planet at +a)
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..eef55b3 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # planetary caustic in the mid-point frame (planet at +a)
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From 760d7a7a38a7bfcefa4ff74feae947fe39929f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 04/16] fix: triple-lens hexadecapole ignored the position
 angle psi of the third lens

---
 src/microjax/multipole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..d4d4497 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -291,6 +291,7 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3 = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
-- 
2.43.0


From b3f51388f12ef5c047a934f3b9c370e62ec7dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 05/16] fix: triple-lens contour magnification used a wrong
 mass fraction for the primary

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From 47d2f17e687430214d4c04c67e1a9c0fdd15c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 06/16] fix: limb-darkened ray shooting traced the limb of a
 triple lens with the binary-lens solver

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From a41c8e91639ef566041ddd412fb75be45bd53727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 07/16] fix: contour light curves dropped limb darkening in the
 multipole branch and compared complex positions for one lens

---
 src/microjax/caustics/lightcurve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 6d5a449..ca10b5b 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -244,13 +244,16 @@ def magnifications(
         **_params
     )
 
+    # limb darkening applies to the multipole branch as well
+    u1_multi = u1 if limb_darkening else 0.0
+
     if nlenses==1:
-        test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        test = jnp.abs(w_points) > 2*rho
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 05c828743f83b5173e2d4482f8807ad61a18d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 08/16] fix: ray shooting with an unsupported lens count raises
 ValueError

---
 src/microjax/inverse_ray/extended_source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index fc47a71..fe6a141 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -116,6 +116,8 @@ def mag_limb_dark(
         e1 = q / total_mass
         e2 = 1.0 / total_mass 
         _params = {"a": a, "r3": r3, "e1": e1, "e2": e2, "q": q, "s": s, "q3": q3, "psi": psi}
+    else:
+        raise ValueError("Only 2 or 3 lenses are supported.")
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
@@ -263,6 +265,8 @@ def mag_uniform(
         e1 = q / total_mass
         e2 = 1.0 / total_mass 
         _params = {"a": a, "r3": r3, "e1": e1, "e2": e2, "q": q, "s": s, "q3": q3, "psi": psi}
+    else:
+        raise ValueError("Only 2 or 3 lenses are supported.")
     
     shifted = a * (1.0 - q) / (1.0 + q)  
     w_center_shifted = w_center - shifted
-- 
2.43.0


From dd361def50f5d5c77c90c05fe6ad9fa49352c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 09/16] fix: sign of d I0/d u1 in the derivative rule of the
 limb-darkening profile

---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From fd9c92a7a3cad07f6079ba0b8e770078e1177ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 10/16] fix: gamma is undefined only at the poles, not on the
 whole lines Re z = 0, -1, -2, ...

---
 src/microjax/fastlens/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..8ef33d7 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -56,8 +56,10 @@ def gamma_(z):
     # Select the appropriate results based on the masks
     g = jnp.where(not_special_case, positive_results, negative_results)
 
-    non_positive_integer_mask = negative_real_mask & (
-        jnp.real(z) == jnp.floor(jnp.real(z))
+    non_positive_integer_mask = (
+        negative_real_mask
+        & (jnp.real(z) == jnp.floor(jnp.real(z)))
+        & (jnp.imag(z) == 0)
     )
     g = jnp.where(non_positive_integer_mask, jnp.nan, g)
 
-- 
2.43.0


From 1caddb6ed781a634b16f21d8c1c1259fa07ba82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 11/16] fix: FFT linear limb darkening uses the exact profile
 transform and the right central weights

---
 src/microjax/fastlens/mag_fft_jax.py | 32 +++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..ea773a3 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -8,6 +8,15 @@ from jax import jit, lax, vmap
 def A_point(u):
     return (u**2 + 2) / jnp.abs(u) / (u**2 + 4)**0.5
 
+def _sk_linear_limb(k, rho, a1):
+    """Fourier profile of the unit-flux source with brightness 1 - a1 * (1 - sqrt(1 - r^2 / rho^2))."""
+    x = jnp.atleast_1d(k) * rho
+    x_disk = jnp.where(x > 0, x, 1.0)
+    x_limb = jnp.where(x > 1e-2, x, 1.0)
+    sk_disk = jnp.where(x > 0, 2 * j1(x_disk) / x_disk, 1.0)
+    sk_limb = jnp.where(x > 1e-2, 3.0 * (jnp.sin(x_limb) - x_limb * jnp.cos(x_limb)) / x_limb**3, 1.0 - x**2 / 10.0 + x**4 / 280.0)
+    return ((1.0 - a1) * sk_disk + 2.0 * a1 / 3.0 * sk_limb) / (1.0 - a1 / 3.0)
+
 class mag_:
     def __init__(self, fft_logumin=-6, fft_logumax=3, N_fft=1024, normalize_sk=True, rho_switch=1e-4, u_switch=10):
         """
@@ -97,18 +106,13 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k, rho, a1)
 
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        norm = 1.0 - a1 / 3.0
+        return ((1.0 - a1) * A0_disk + 2.0 * a1 / 3.0 * A0_term1) / norm
 
 # FFT based magnification
 class magnification:
@@ -266,13 +270,7 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k, rho, self.a1)
 
     def sk__(self, k, rho):
         k = jnp.atleast_1d(k)
@@ -299,8 +297,8 @@ class mag_limb1(magnification):
     def A0(self, rho):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        norm = 1.0 - self.a1 / 3.0
+        return ((1.0 - self.a1) * A0_disk + 2.0 * self.a1 / 3.0 * A0_term1) / norm
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From f4a840ca881ed3867f9b3fd79b1355608586aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 12/16] fix: limb-darkened Fourier profiles are 1 at zero
 frequency

---
 src/microjax/fastlens/mag_fft.py     | 2 +-
 src/microjax/fastlens/mag_fft_jax.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft.py b/src/microjax/fastlens/mag_fft.py
index 392de2f..983123e 100644
--- a/src/microjax/fastlens/mag_fft.py
+++ b/src/microjax/fastlens/mag_fft.py
@@ -178,7 +178,7 @@ class magnification_limb(magnification):
         k = np.atleast_1d(k)
         x   = k*rho
         nu  = 1+self.n_limb/2
-        a   = np.ones(x.shape)*1.0/(self.n_limb+2)
+        a   = np.ones(x.shape)
         idx = x>0
         a[idx] = 2**nu*gamma(nu)*jn(nu, x[idx])/x[idx]**nu * nu
         return a
diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index ea773a3..547acfd 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -309,7 +309,7 @@ class magnification_limb1(magnification):
         k = jnp.atleast_1d(k)
         x = k * rho
         nu = 1.5
-        a_base = jnp.ones(x.shape)*1.0 / (1 + 2)
+        a_base = jnp.ones(x.shape)
         sk = jnp.where(x > 0, nu * 2**nu * gamma(nu) * j1p5(x) / x**nu, a_base)
         return sk
 
@@ -324,7 +324,7 @@ class magnification_limb2(magnification):
         k = jnp.atleast_1d(k)
         x = k * rho
         nu = 2
-        a_base = jnp.ones(x.shape)*1.0 / (2 + 2)
+        a_base = jnp.ones(x.shape)
         a = jnp.where(x > 0, 2**nu * gamma(nu) * j2(x) / x**nu * nu, a_base)
         return a
 
-- 
2.43.0


From ce71fb94217918404104f1aa93d3b514318738ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 13/16] fix: last_nonzero supports the documented axis argument
 on multi-dimensional input

---
 src/microjax/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/microjax/utils.py b/src/microjax/utils.py
index fffbdcc..3c36c6a 100644
--- a/src/microjax/utils.py
+++ b/src/microjax/utils.py
@@ -94,12 +94,8 @@ def last_nonzero(x: Array, axis: int = 0) -> Array:
         Index of the last non-zero entry. If all entries are zero the result is
         ``0``.
     """
-    return lax.cond(
-        jnp.any(x, axis=axis),  # if any non-zero
-        lambda: (x.shape[axis] - 1)
-        - jnp.argmax(jnp.flip(x, axis=axis) != 0, axis=axis),
-        lambda: 0,
-    )
+    last = (x.shape[axis] - 1) - jnp.argmax(jnp.flip(x, axis=axis) != 0, axis=axis)
+    return jnp.where(jnp.any(x, axis=axis), last, 0)
 
 
 def first_zero(x: Array, axis: int = 0) -> Array:
-- 
2.43.0


From 2444cdc8044bae3de9633ad4cfc7595610a58ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 14/16] fix: keep image regions ending at theta = 2*pi unless
 they are joined with one starting at 0

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..ef26b7f 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) shape: absorbed by a region starting at th=0
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From df5ecd8603434c940bc71e101d948ee83dcf5625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 15/16] fix: keep the limb images of smallest and largest
 radius in the refined radial ranges

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index ef26b7f..c0227e7 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -232,7 +232,7 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     r_limb_expanded = r_limb.reshape(1, N)
     r_mins  = r_ranges[:, 0].reshape(M, 1)
     r_maxs  = r_ranges[:, 1].reshape(M, 1)
-    cond_in = (r_limb_expanded > r_mins) & (r_limb_expanded < r_maxs)  # shape: (M, N)
+    cond_in = (r_limb_expanded >= r_mins) & (r_limb_expanded <= r_maxs)  # shape: (M, N), ends included
     valid_mins = jnp.where(cond_in, r_limb_expanded, jnp.inf)
     valid_maxs = jnp.where(cond_in, r_limb_expanded, -jnp.inf)
     r_mins = jnp.where(jnp.any(cond_in, axis=1), jnp.min(valid_mins, axis=1), 0.0)
-- 
2.43.0


From 600889541283ff7c08d4e6b0dde7c34e28b0a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 16/16] fix: do not count the overlapping ends of a full ring
 twice

---
 src/microjax/inverse_ray/merge_area.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index c0227e7..fa211f2 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -105,6 +105,8 @@ def _refine_final(
     r_max_new  = jnp.where(case_org, r_max_ref, r_max) 
     th_min_new = jnp.where(case_org, th_min_ref, th_min) - margin_th
     th_max_new = jnp.where(case_org, th_max_ref, th_max) + margin_th
+    # a ring must not be counted twice where its ends overlap
+    th_max_new = jnp.minimum(th_max_new, th_min_new + 2 * jnp.pi)
     # th_range==0 if r_range==0
     th_min_new = jnp.where((r_min_new==0)&(r_max_new==0), 0.0, th_min_new)
     th_max_new = jnp.where((r_min_new==0)&(r_max_new==0), 0.0, th_max_new)
-- 
2.43.0

