From 8b2181ff0fafaf6dcd02f1a71c5741b09c943d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 01/27] fix: linear_chi2 default and scalar err weights
 (ZeroDivisionError / unbroadcast weights)

---
 src/microjax/likelihood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..798e4b2 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,7 +62,8 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
-    wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
+    err = jnp.broadcast_to(jnp.asarray(err), jnp.shape(y))
+    wt = jnp.where(err > 0, 1.0 / jnp.where(err > 0, err, 1.0) ** 2, 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
     sumy = jnp.sum(wt * y)
-- 
2.43.0


From 750da9648f630199b7f6e2340c12652c18eb1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 02/27] fix: hexadecapole for triple lenses ignored psi of the
 third lens

---
 src/microjax/multipole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..d4d4497 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -291,6 +291,7 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3 = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
-- 
2.43.0


From 2e2302d9f2d0ba897d350385604d584c52cf70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 03/27] fix: mag_limb_dark traced the source limb of a triple
 lens with the binary solver

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From bc7e4cfb5b945417eb7b20ddd7dd5deb49830230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 04/27] fix: wrong primary mass fraction in mag_extended_source
 for triple lenses

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From 5bb4905c9c55d4082a95e8e635efe39babd5dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 05/27] fix: planetary-caustic test was centred off the
 planetary caustic

---
 src/microjax/caustics/lightcurve.py       | 3 +--
 src/microjax/inverse_ray/cond_extended.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..0156573 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -123,8 +123,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     e1, a = params["e1"], params["a"]
     s = 2 * a
     q = e1 / (1.0 - e1)
-    x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame: companion at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..a599945 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -111,7 +111,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     e1, a = params["e1"], params["a"]
     s = 2 * a
     q = e1 / (1.0 - e1)
-    x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame: companion at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From f5cc0ad18852905be4344b62adf9ca22d37c7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 06/27] fix: magnifications compared a complex position with
 2*rho and dropped u1 in the multipole branch

---
 src/microjax/caustics/lightcurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 0156573..8c3533f 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -244,12 +244,12 @@ def magnifications(
     )
 
     if nlenses==1:
-        test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        test = jnp.abs(w_points) > 2*rho
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1 if limb_darkening else 0.0, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1 if limb_darkening else 0.0, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 6f46f93649cf5089d543146d6e1dbd3f6e914026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 07/27] fix: last_nonzero treated purely imaginary entries as
 zero

---
 src/microjax/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/utils.py b/src/microjax/utils.py
index fffbdcc..ebb03ac 100644
--- a/src/microjax/utils.py
+++ b/src/microjax/utils.py
@@ -95,7 +95,7 @@ def last_nonzero(x: Array, axis: int = 0) -> Array:
         ``0``.
     """
     return lax.cond(
-        jnp.any(x, axis=axis),  # if any non-zero
+        jnp.any(x != 0, axis=axis),  # if any non-zero
         lambda: (x.shape[axis] - 1)
         - jnp.argmax(jnp.flip(x, axis=axis) != 0, axis=axis),
         lambda: 0,
-- 
2.43.0


From c0095686b3143cb30343aa9fd2b96809eb9038d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 08/27] fix: root solver lost all images of a source within
 1e-8 of a lens of a triple system

A tiny leading coefficient puts the starting circle far out; 100 iterations were
too few to come back, and a root overflowing to infinity poisoned the others.
---
 src/microjax/poly_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 91a64e5..0a80d32 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -32,7 +32,7 @@ from functools import partial
 from jax import custom_jvp
 
 # Default iteration cap for EA method; used if not specified.
-_DEFAULT_MAX_ITER = 100
+_DEFAULT_MAX_ITER = 400
 
 __all__ = [
     "poly_roots",
@@ -141,7 +141,9 @@ def _ea_step(
     fp = jnp.polyval(dcoeffs, roots)
     # Pairwise differences and reciprocal sum
     diffs = roots[:, None] - roots[None, :]
-    inv_diffs = jnp.where(diffs == 0, 0.0 + 0.0j, 1.0 / diffs)
+    # a root that escaped to infinity (vanishing leading coefficient) does not contribute
+    skip = (diffs == 0) | ~jnp.isfinite(diffs)
+    inv_diffs = jnp.where(skip, 0.0 + 0.0j, 1.0 / diffs)
     s = jnp.sum(inv_diffs, axis=1)
     # Denominator stabilization: if nearly zero, fall back to Newton step
     den = fp - f * s
-- 
2.43.0


From d148df5bd69d1687bae1b3cb133433af29219e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 09/27] fix: root solver trapped by symmetric or non-finite
 initial guesses

Starts that share a mirror symmetry with the polynomial never leave it: image tracking
along the lens axis lost images for the rest of the path, and some cold starts failed.
---
 src/microjax/poly_solver.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 0a80d32..a10abf2 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -192,13 +192,21 @@ def poly_roots_EA(
     n = coeffs.shape[0] - 1
     assert n >= 1, "Polynomial degree must be >= 1"
 
-    # Initial roots by Cauchy bound on a circle
+    # Initial roots by Cauchy bound on a circle. The angular offset keeps the start
+    # asymmetric: iterates that share a mirror symmetry with the polynomial (e.g. real
+    # coefficients) can never leave it.
+    k = jnp.arange(n)
+    default_roots = _cauchy_radius(coeffs) * jnp.exp(1j * (2.0 * jnp.pi * k / n + 0.4))
     if initial_roots is None:
-        r = _cauchy_radius(coeffs)
-        k = jnp.arange(n)
-        initial_roots = r * jnp.exp(2j * jnp.pi * k / n)
+        initial_roots = default_roots
     else:
+        # break such a symmetry of supplied guesses (e.g. all real) too, and replace
+        # unusable ones (a previous root at infinity)
         initial_roots = _as_complex(initial_roots)
+        nudge = 1e-6 * jnp.exp(1j * (k + 1.0)) * (1e-3 + jnp.abs(initial_roots))
+        initial_roots = jnp.where(
+            jnp.isfinite(initial_roots), initial_roots + nudge, default_roots
+        )
 
     dcoeffs = _polyder_coeffs(coeffs)
     eps = jnp.finfo(initial_roots.real.dtype).eps * 10
-- 
2.43.0


From 08d4c7c4bc014e024ab85a05f94cf5208b5b166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 10/27] fix: single-lens Jacobian determinant used |z|^2
 instead of |z|^4

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From 846bbaad7a015df133dd3e24fc05385e03949f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 11/27] fix: image tracking of triple lenses ignored the
 initial guesses

---
 src/microjax/point_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index ebc2555..feca511 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -331,7 +331,10 @@ def _images_point_source(
         r3_complex = r3 * jnp.exp(1j * psi)
         coeffs, shift_cm = _poly_coeffs_triple_CM(w, a, r3_complex, e1, e2)
         #coeffs = _poly_coeffs_triple(w, a, r3_complex, e1, e2)
-        z = poly_roots(coeffs)
+        if custom_init:
+            z = poly_roots(coeffs, custom_init=True, roots_init=z_init - shift_cm)
+        else:
+            z = poly_roots(coeffs)
         z += shift_cm
         z = jnp.moveaxis(z, -1, 0)
         lens_eq_eval = lens_eq(z, nlenses=3, **params) - w
-- 
2.43.0


From 5cc702edc52c5595fbeec2a67201e8e14c2bf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 12/27] fix: image regions ending at 2pi were dropped when
 another radial range wrapped around

---
 src/microjax/inverse_ray/merge_area.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..2473a8f 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,8 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    # a region ending at 2pi is absorbed only by a region of the same radial range starting at 0
+    cond_vanish = jnp.any(same_r & (th_mins == 0), axis=1) & (th_maxs == 2*jnp.pi)  # (N, ) shape
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From 3411aa660825c4204143197e262795a600a30f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 13/27] fix: inverse-ray regions lost images that fragment in
 angle, enclose the origin or share a radius with a ring

The angular clusters were shared by all radial ranges and truncated to a
fixed number of rows, so a binary or triple lens could lose whole images
(magnification near 0). Cut bands and arcs at the widest gaps of the limb
images instead, so that every limb image is in exactly one region.
---
 src/microjax/inverse_ray/extended_source.py |   8 +-
 src/microjax/inverse_ray/merge_area.py      | 299 +++++---------------
 2 files changed, 80 insertions(+), 227 deletions(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index fc47a71..4e6c765 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -120,8 +120,10 @@ def mag_limb_dark(
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
     image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
+    origin_inside = jnp.abs(lens_eq(-shifted + 0.0j, nlenses=nlenses, **_params) - w_center_shifted) < rho
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
-                                     margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
+                                     margin_r=margin_r, margin_th=margin_th, nlenses=nlenses,
+                                     origin_inside=origin_inside)
 
     def _process_r(r0: float, th_values: Array) -> Array:
         """Integrand over angle for a fixed radius.
@@ -267,8 +269,10 @@ def mag_uniform(
     shifted = a * (1.0 - q) / (1.0 + q)  
     w_center_shifted = w_center - shifted
     image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
+    origin_inside = jnp.abs(lens_eq(-shifted + 0.0j, nlenses=nlenses, **_params) - w_center_shifted) < rho
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
-                                     margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
+                                     margin_r=margin_r, margin_th=margin_th, nlenses=nlenses,
+                                     origin_inside=origin_inside)
 
     #@jax.checkpoint 
     def _process_r(r0: float, th_values: Array) -> Array:
diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 2473a8f..fe91ceb 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -10,7 +10,7 @@ import jax.numpy as jnp
 from jax import jit, lax, vmap
 from functools import partial
 from microjax.point_source import lens_eq, _images_point_source
-from typing import Tuple
+from typing import Tuple, Union
 
 Array = jnp.ndarray
 
@@ -23,240 +23,89 @@ def define_regions(
     margin_r: float = 0.5,
     margin_th: float = 0.5,
     nlenses: int = 2,
+    origin_inside: Union[bool, Array] = False,
 ) -> Tuple[Array, Array]:
     """Determine polar subregions for inverse-ray integration.
 
-    Clusters the radii and angles of image points mapped from the source limb
-    and builds minimal rectangles in ``(r, theta)`` covering them, then expands
-    by margins and merges wrap-around angular intervals when appropriate.
+    The radii of the limb images are split into bands at their widest gaps and
+    the angles within each band into arcs at the widest (circular) gaps; every
+    limb image lies in exactly one arc. Gaps that the sampling of the limb or
+    the margins can close are not used, and at most ``M`` regions are made (the
+    narrowest gaps are ignored if there are more). ``origin_inside`` tells that
+    the coordinate origin belongs to an image; the innermost band is then the
+    whole disk. Angular intervals may start below zero (wrap-around).
+
     Returns arrays of shape ``(M, 2)`` for ``r_scan`` and ``th_scan`` with the
-    min/max of each region.
+    min/max of each region; unused rows are zero.
     """
     if nlenses == 2:
-        nimages_init = 10
-        nimage_real = 5
+        n_region = 5
     elif nlenses == 3:
-        nimages_init = 18
-        nimage_real = 9
+        n_region = 9
     else:
         raise ValueError("Only 2 or 3 lenses are supported.")
 
-    image_limb = image_limb.ravel()
-    mask_limb = mask_limb.ravel()
-
-    r_limb     = jnp.abs(image_limb * mask_limb)
-    th_limb    = jnp.mod(jnp.arctan2(image_limb.imag, image_limb.real), 2*jnp.pi) * mask_limb
-    r_mins, r_maxs   = cluster_1d(r_limb, bins=bins_r, max_cluster=nimages_init)
-    th_mins, th_maxs = cluster_1d(th_limb, bins=bins_th, mode_r=False, max_cluster=nimages_init)
-
-    r_map  = jnp.array([r_mins, r_maxs]).T
-    th_map = jnp.array([th_mins, th_maxs]).T
-    th_map = jnp.where(jnp.isclose(th_map, 0.0), 0.0, th_map)
-    th_map = jnp.where(jnp.isclose(th_map, 2*jnp.pi), 2*jnp.pi, th_map)
-
-    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
-
-    in_mask   = _compute_in_mask(r_limb, th_limb, r_map_refine, th_map)
-    r_masked  = jnp.repeat(r_map_refine, th_map.shape[0], axis=0) * in_mask.ravel()[:, None]
-    th_masked = jnp.tile(th_map, (r_map_refine.shape[0], 1)) * in_mask.ravel()[:, None]
-
-    r_excess   = r_masked[jnp.argsort(jnp.isclose(r_masked[:, 1], 0.0))][:nimages_init]
-    th_excess  = th_masked[jnp.argsort(jnp.isclose(th_masked[:, 1], 0.0))][:nimages_init]
-    r_scan, th_scan = _merge_final(r_excess, th_excess)
-    r_scan, th_scan = r_scan[:nimage_real], th_scan[:nimage_real]
-    # refine intervals
-    r_scan_refine, th_scan_refine = _refine_final(
-        r_limb, th_limb, r_scan, th_scan, margin_r=margin_r*rho, margin_th=jnp.deg2rad(margin_th)
-    )
-    #return r_scan, th_scan
-    return r_scan_refine, th_scan_refine
-
-def _refine_final(
-    r_limb: Array,
-    th_limb: Array,
-    r_scan: Array,
-    th_scan: Array,
-    margin_r: float = 0.0,
-    margin_th: float = 0.0,
-) -> Tuple[Array, Array]:
-    """Refine region bounds based on actual limb samples within each region."""
-    r_min, r_max = r_scan[:, 0], r_scan[:, 1] # (M,) shape
-    th_min, th_max = th_scan[:, 0], th_scan[:, 1] # (M,) shape
-    cond_r = (r_min[:, None] < r_limb) & (r_limb < r_max[:, None])  # (M, N) shape
-    cond_flip = (-jnp.pi < th_min) & (th_min < 0.0) & (0.0 < th_max) & (th_max < jnp.pi) # (M,) shape
-    cond_flip_ex = cond_flip[:, None]
-    th_limb_new = jnp.where(cond_flip_ex, 
-                            jnp.where(th_limb[None, :] > jnp.pi, th_limb[None, :] - 2*jnp.pi, th_limb[None, :]), 
-                            th_limb[None, :]) # (M, N) shape
-    
-    cond_th = (th_min[:, None] < th_limb_new) & (th_limb_new < th_max[:, None]) & (th_limb_new != 0) & (r_limb[None, :] != 0)  # (M, N)
-    in_mask = cond_r & cond_th  # (M, N)
-    # r refine
-    r_min_ref  = jnp.min(jnp.where(in_mask, r_limb[None, :], 1e+5), axis=1) # (M,)
-    r_max_ref  = jnp.max(jnp.where(in_mask, r_limb[None, :], 0.0), axis=1)
-    r_min_ref  = jnp.maximum(0.0, r_min_ref - margin_r)
-    r_max_ref  = jnp.where(r_max_ref != 0, r_max_ref + margin_r, 0.0)
-    # theta refine
-    th_min_ref = jnp.min(jnp.where(in_mask, th_limb_new, 1e+5), axis=1)
-    th_max_ref = jnp.max(jnp.where(in_mask, th_limb_new, -1e+5), axis=1)
-    # apply or not 
-    case_org = (th_min > 0.0)|(cond_flip)
-    r_min_new  = jnp.where(case_org, r_min_ref, r_min)
-    r_max_new  = jnp.where(case_org, r_max_ref, r_max) 
-    th_min_new = jnp.where(case_org, th_min_ref, th_min) - margin_th
-    th_max_new = jnp.where(case_org, th_max_ref, th_max) + margin_th
-    # th_range==0 if r_range==0
-    th_min_new = jnp.where((r_min_new==0)&(r_max_new==0), 0.0, th_min_new)
-    th_max_new = jnp.where((r_min_new==0)&(r_max_new==0), 0.0, th_max_new)
-    r_scan_refine = jnp.stack([r_min_new, r_max_new], axis=1)
-    th_scan_refine = jnp.stack([th_min_new, th_max_new], axis=1)
-
-    return r_scan_refine, th_scan_refine
-
-def refine_final(
-    r_limb: Array,
-    th_limb: Array,
-    r_scan: Array,
-    th_scan: Array,
-    margin_r: float = 0.0,
-    margin_th: float = 0.0,
-) -> Tuple[Array, Array]:
-    M = r_scan.shape[0] # number of regions
-    N = r_limb.shape[0] # number of image limb points
-    arr=[]
-    for r_inteval, th_interval in zip(r_scan, th_scan):
-        r_min, r_max = r_inteval
-        th_min, th_max = th_interval 
-        case_0 = th_min > 0.0 # (N,) shape
-        cond_r = (r_min < r_limb)&(r_limb < r_max) # (N,) shape
-        cond_th = (th_min < th_limb)&(th_limb < th_max)&(th_limb!=0)
-        in_mask = (cond_r)&(cond_th)
-        th_min_   = jnp.min(jnp.where(in_mask, th_limb, 1e+10))  
-        th_max_   = jnp.max(jnp.where(in_mask, th_limb, -1e+10))
-        r_min_new = jnp.min(jnp.where(in_mask, r_limb, 1e+10))
-        r_max_new = jnp.max(jnp.where(in_mask, r_limb, -1e+10))
-        r_min_new  = jnp.maximum(0.0, r_min_new - margin_r)
-        r_max_new  = r_max_new + margin_r 
-        th_min_new = jnp.where(case_0, th_min_, th_min)
-        th_max_new = jnp.where(case_0, th_max_, th_max)
-        th_min_new = th_min_new - margin_th
-        th_max_new = th_max_new + margin_th
-        #arr.append([r_min, r_max, th_min_new, th_max_new])
-        arr.append([r_min_new, r_max_new, th_min_new, th_max_new])
-    arr = jnp.vstack(arr)
-    r_scan_refine = arr[:, :2]
-    th_scan_refine = arr[:, 2:]
-    return r_scan_refine, th_scan_refine
-
-def cluster_1d(arr: Array, bins: int = 100, max_cluster: int = 5, mode_r: bool = True) -> Tuple[Array, Array]:
-    """Cluster 1D values via occupancy bins and return start/end edges.
-
-    - For radii (``mode_r=True``), the bin range is fit to nonzero samples.
-    - For angles, uses [0, 2pi] with light regularization of intervals.
-    Returns two arrays of the same length with left/right edges of up to
-    ``max_cluster`` occupied intervals.
-    """
-    if mode_r:
-        bin_min = jnp.min(jnp.where(arr == 0, jnp.inf, arr))
-        bin_max = jnp.max(jnp.where(arr == 0, -jnp.inf, arr))
-    else:
-        # Here I do not want to optimize the intervals so much.
-        bin_min = 0
-        bin_max = 2 * jnp.pi
-    delta = (bin_max - bin_min) / bins
-    bin_edges = jnp.linspace(bin_min - delta, bin_max + delta, bins + 3, endpoint=True) # [0]-[bin+1]
-    bin_indices = jnp.digitize(arr, bin_edges) - 1  # [0]-[bin+1]
-    bin_indices = jnp.clip(bin_indices, 1, bins)    # [1]-[bin]
-    counts = jnp.bincount(bin_indices, length=bins + 2)
-    bin_mask = counts > 0 # bins + 2 
-    diff_mask = jnp.diff(bin_mask.astype(int))  #length: bin + 1
-    start_mask = diff_mask == 1 
-    end_mask   = diff_mask == -1
-
-    start_edges = jnp.sort(bin_edges[1:-1] * start_mask.astype(float), descending=False)[-max_cluster:]
-    end_edges   = jnp.sort(bin_edges[1:-1] * end_mask.astype(float), descending=False)[-max_cluster:] 
-    return start_edges, end_edges
-
-def _compute_in_mask(r_limb: Array, th_limb: Array, r_use: Array, th_use: Array) -> Array:
-    """Compute mask of shape (M, K) for regions (r_use[m], th_use[k]) covering any limb points."""
-    M = r_use.shape[0]  
-    K = th_use.shape[0]  
-    N = r_limb.shape[0]
-    r_limb_expanded = r_limb.reshape(1, 1, N)
-    th_limb_expanded = th_limb.reshape(1, 1, N)
-    r_use_min = r_use[:, 0].reshape(M, 1, 1)
-    r_use_max = r_use[:, 1].reshape(M, 1, 1)
-    th_use_min = th_use[:, 0].reshape(1, K, 1)
-    th_use_max = th_use[:, 1].reshape(1, K, 1)
-
-    r_condition = (r_limb_expanded > r_use_min) & (r_limb_expanded < r_use_max)  # shape: (M, 1, N)
-    th_condition = (th_limb_expanded > th_use_min) & (th_limb_expanded < th_use_max)  # shape: (1, K, N)
-    combined_condition = r_condition & th_condition  # shape: (M, K, N)
-
-    # condition for all the combination
-    in_mask = jnp.any(combined_condition, axis=2)  # shape: (M, K)
-    return in_mask
-
-def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
-    """Merge angular intervals at 0/2pi boundaries for identical radial ranges."""
-    r_mins, r_maxs   = r_map[:, 0],  r_map[:, 1]  # (N,)
-    th_mins, th_maxs = th_map[:, 0], th_map[:, 1]  # (N,)
-    matrix = jnp.stack([r_mins, r_maxs, th_mins, th_maxs], axis=1)  # (N, 4)
-
-    r_min_col = matrix[:, 0:1]   # (N, 1)
-    r_max_col = matrix[:, 1:2]   # (N, 1)
-    th_min_col = matrix[:, 2:3]  # (N, 1)
-    th_max_col = matrix[:, 3:4]  # (N, 1)
-    
-    same_r = (r_min_col == r_mins) & (r_max_col == r_maxs) & (~jnp.all(matrix[:, None, :] == matrix, axis=2))  # (N, N)
-    cond_merge = (th_min_col == 0) & (same_r) & (th_maxs == 2 * jnp.pi) # (N, N)
-    th_min_adjusted = jnp.where(cond_merge, th_mins - 2 * jnp.pi, 0.0)  # (N, N)
-    th_min_new = jnp.sum(th_min_adjusted, axis=1)  # (N,)
-    th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
-
-    new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    # a region ending at 2pi is absorbed only by a region of the same radial range starting at 0
-    cond_vanish = jnp.any(same_r & (th_mins == 0), axis=1) & (th_maxs == 2*jnp.pi)  # (N, ) shape
-    new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
-    
-    sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-    new_matrix = new_matrix[sort_order]
-    new_r_map = new_matrix[:, :2]
-    new_th_map = new_matrix[:, 2:]
-    return new_r_map, new_th_map
-
-def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.0) -> Array:
-    """Refine radial ranges to actual limb extents, add margin, and merge overlaps."""
-    # refine range
-    M = r_ranges.shape[0]  
-    N = r_limb.shape[0]
-    r_limb_expanded = r_limb.reshape(1, N)
-    r_mins  = r_ranges[:, 0].reshape(M, 1)
-    r_maxs  = r_ranges[:, 1].reshape(M, 1)
-    cond_in = (r_limb_expanded > r_mins) & (r_limb_expanded < r_maxs)  # shape: (M, N)
-    valid_mins = jnp.where(cond_in, r_limb_expanded, jnp.inf)
-    valid_maxs = jnp.where(cond_in, r_limb_expanded, -jnp.inf)
-    r_mins = jnp.where(jnp.any(cond_in, axis=1), jnp.min(valid_mins, axis=1), 0.0)
-    r_maxs = jnp.where(jnp.any(cond_in, axis=1), jnp.max(valid_maxs, axis=1), 0.0)
-    # add margin
-    r_mins = jnp.maximum(0.0, r_mins - margin)
-    r_maxs = jnp.where(r_maxs!=0, r_maxs + margin, 0.0)
-    # merge
-    rows = jnp.array([r_mins, r_maxs]).T # (N, 2) shape
-    N = rows.shape[0]
-    rows_new = rows.copy()
-    for i in range(N-1):
-        row_0 = rows_new[i]
-        row_1 = rows_new[i+1]
-        update = row_0[1] > row_1[0]
-        def true_fn(rows):
-            rows = rows.at[i].set(jnp.array([0.0, 0.0]))
-            rows = rows.at[i + 1].set(jnp.array([row_0[0], row_1[1]]))
-            return rows
-        def false_fn(rows):
-            return rows
-        rows_new = lax.cond(update, true_fn, false_fn, rows_new)
-    return rows_new
+    two_pi = 2.0 * jnp.pi
+    margin_r = margin_r * rho
+    margin_th = jnp.deg2rad(margin_th)
+    # images of adjacent limb samples next to a cusp are about cbrt(step) apart
+    jump = 2.0 * jnp.cbrt(two_pi * rho / image_limb.shape[-1])
+
+    valid = mask_limb.ravel() > 0
+    image = jnp.where(valid, image_limb.ravel(), 1.0)
+    r_limb = jnp.where(valid, jnp.abs(image), 0.0)
+    th_limb = jnp.mod(jnp.arctan2(image.imag, image.real), two_pi)
+
+    # radial bands
+    r_sort = jnp.sort(jnp.where(valid, r_limb, jnp.max(r_limb)))
+    r_gap = jnp.diff(r_sort)
+    min_gap = jnp.maximum(jnp.maximum(2.0 * margin_r, jump), (r_sort[-1] - r_sort[0]) / bins_r)
+    r_gap, i_gap = lax.top_k(jnp.where(r_gap > min_gap, r_gap, 0.0), n_region - 1)
+    r_cut = jnp.where(r_gap > 0.0, 0.5 * (r_sort[i_gap] + r_sort[i_gap + 1]), jnp.inf)
+    band = jnp.sum(r_limb[:, None] > r_cut, axis=1)
+    in_band = (band == jnp.arange(n_region)[:, None]) & valid  # (K, N)
+    used = jnp.any(in_band, axis=1)
+
+    # arcs of each band, from the end of one gap to the start of the next
+    def cut_band(members):
+        last = jnp.argmax(jnp.where(members, th_limb, -1.0))
+        th = jnp.where(members, th_limb, th_limb[last])
+        r = jnp.where(members, r_limb, r_limb[last])
+        order = jnp.argsort(th)
+        th, r = th[order], r[order]
+        gap = jnp.append(jnp.diff(th), th[0] + two_pi - th[-1])
+        min_gap = jnp.maximum(jnp.maximum(two_pi / bins_th, 2.0 * margin_th), jump / jnp.maximum(r, jnp.roll(r, -1)))
+        gap, i = lax.top_k(jnp.where(gap > min_gap, gap, 0.0), n_region)
+        return gap, th[jnp.mod(i + 1, th.shape[0])], th[i]
+
+    gap, th_start, th_end = vmap(cut_band)(in_band)  # (K, K)
+    gap = gap.at[0].set(jnp.where(origin_inside, 0.0, gap[0]))  # an image around the origin has no gap
+    # the widest gap of a band opens its circle; each further one adds a region
+    extra = gap.at[:, 0].set(0.0).ravel()
+    rank = jnp.argsort(jnp.argsort(-extra)).reshape(gap.shape)
+    cut = ((rank < n_region - jnp.sum(used)) | (jnp.arange(n_region) == 0)) & (gap > 0.0) & used[:, None]
+    width = jnp.mod(th_end[:, None, :] - th_start[:, :, None], two_pi)
+    width = jnp.min(jnp.where(cut[:, None, :], width, two_pi), axis=2)  # to the next gap
+    closed = used & ~cut[:, 0]  # no gap: the whole circle
+    keep = cut.at[:, 0].set(used)
+    th_min = jnp.where(closed[:, None], 0.0, th_start)
+    th_min = th_min - jnp.where(th_min + width > two_pi, two_pi, 0.0)
+
+    order = jnp.argsort(~keep.ravel())[:n_region]
+    keep, closed = keep.ravel()[order], jnp.repeat(closed, n_region)[order]
+    th_min, width = th_min.ravel()[order], width.ravel()[order]
+    band_of = order // n_region
+
+    # radial extent of the limb images in each region
+    in_arc = jnp.mod(th_limb - th_min[:, None] + 1e-9, two_pi) <= width[:, None] + 2e-9
+    inside = in_band[band_of] & (in_arc | closed[:, None])
+    r_min = jnp.maximum(jnp.min(jnp.where(inside, r_limb, jnp.inf), axis=1) - margin_r, 0.0)
+    r_min = jnp.where((band_of == 0) & origin_inside, 0.0, r_min)
+    r_max = jnp.max(jnp.where(inside, r_limb, 0.0), axis=1) + margin_r
+    pad = jnp.where(closed, 0.0, margin_th)
+    r_scan = jnp.where(keep[:, None], jnp.stack([r_min, r_max], axis=1), 0.0)
+    th_scan = jnp.where(keep[:, None], jnp.stack([th_min - pad, th_min + width + pad], axis=1), 0.0)
+    return r_scan, th_scan
 
 def calc_source_limb(
     w_center: complex,
-- 
2.43.0


From 04ae770783008a1fa01e1c523b354f6abbaae604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 14/27] fix: inverse-ray integration dropped the outermost
 angular cells of every region

The crossing stencils use one (uniform) or two (limb dark) cells less at
either end, so full rings were 0.7% too faint at 200 cells.
---
 src/microjax/inverse_ray/extended_source.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 4e6c765..3c86e9b 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -170,7 +170,9 @@ def mag_limb_dark(
         of this subregion.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
-        th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # the stencil drops 1.5 cells at either end
+        dth = (th_range[1] - th_range[0]) / (th_resolution - 4)
+        th_values = jnp.linspace(th_range[0] - 1.5 * dth, th_range[1] + 1.5 * dth, th_resolution, endpoint=True)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
         total_area = dr * jnp.sum(area_r) # trapezoidal integration
@@ -308,7 +310,9 @@ def mag_uniform(
         sum across the per-radius angular integrals from ``_process_r``.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
-        th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # the stencil drops one cell at either end
+        dth = (th_range[1] - th_range[0]) / (th_resolution - 3)
+        th_values = jnp.linspace(th_range[0] - dth, th_range[1] + dth, th_resolution, endpoint=True)
         #area_r = jax.checkpoint(vmap(lambda r: _process_r(r, th_values, cubic)))(r_values)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
-- 
2.43.0


From 9a13c941c0a34232ce7ad21d69ebd29a4c2cd840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 15/27] fix: contour stitching dropped image segments and
 overran its point buffer for strongly lensed limbs

---
 src/microjax/caustics/extended_source/segments.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index 69b5819..3e83d68 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -159,7 +159,7 @@ def _get_segments(z, z_mask, z_parity, nlenses=2):
         already form loops and open segments still need merging.
     """
     n_images = nlenses**2 + 1
-    nr_of_segments = 3 * n_images
+    nr_of_segments = 6 * n_images
 
     z = z * z_mask
     z_parity = z_parity * z_mask
@@ -427,9 +427,11 @@ def _merge_open_segments(
 
     tail_idcs = vmap(last_nonzero)(segments[:, 0, :].real)
 
-    segments = jnp.pad(
-        segments, ((0, 0), (0, 0), (0, 3 * segments.shape[-1])), constant_values=0.0
-    )
+    # A merged contour may collect every point of every image track (`_get_segments`
+    # keeps six segments per track) plus the point that closes it.
+    n_tracks = max(4, -(-segments.shape[0] // 6))
+    n_pad = (n_tracks - 1) * segments.shape[-1] + 1
+    segments = jnp.pad(segments, ((0, 0), (0, 0), (0, n_pad)), constant_values=0.0)
 
     segments_merged_list = []
 
-- 
2.43.0


From 1f593958cb03bcefe6017ea5d37c651f08c554f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 16/27] fix: a stitched contour that had already closed could
 swallow a neighbouring image

---
 .../caustics/extended_source/segments.py         | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index 3e83d68..ea01ae6 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -400,8 +400,22 @@ def _merge_open_segments(
         def branch2(segments, tidcs):
             return seg_active, tidx_active, segments, tidcs
 
+        # The contour is complete when its own ends meet more closely than any
+        # candidate that could be attached to it.
+        d_close = jnp.abs(seg_active[0, tidx_active] - seg_active[0, 0])
+        d_attach = jnp.min(
+            jnp.where(
+                jnp.array([success1, success2, success3, success4]),
+                jnp.sort(distances.reshape(-1))[:4],
+                jnp.inf,
+            )
+        )
+        is_closed = (d_close < d_attach) & _connection_condition(
+            seg_active, seg_active, tidx_active, tidx_active, 0
+        )
+
         return lax.cond(
-            jnp.any(jnp.array([success1, success2, success3, success4])),
+            (d_attach < jnp.inf) & ~is_closed,
             branch1,
             branch2,
             segments,
-- 
2.43.0


From d3e2a8295a9ac855ac11eb6171443dd3b43b5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 17/27] fix: single-lens contour magnification was lost when
 the limb passes through the lens

---
 src/microjax/caustics/extended_source/contours.py | 3 ++-
 src/microjax/caustics/extended_source/limb.py     | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/extended_source/contours.py b/src/microjax/caustics/extended_source/contours.py
index ad3ea42..78d8159 100644
--- a/src/microjax/caustics/extended_source/contours.py
+++ b/src/microjax/caustics/extended_source/contours.py
@@ -34,7 +34,8 @@ def _contours_from_closed_segments(segments):
         to close the polygon explicitly and ``contours_p`` stores the parity per
         contour.
     """
-    contours_p = segments[:, 1, 0].real
+    # a sample exactly on a critical curve has parity zero, so use all of them
+    contours_p = jnp.sign(jnp.sum(segments[:, 1].real, axis=1))
 
     contours = segments[:, 0]
     contours = jnp.hstack([contours, contours[:, 0][:, None]])
diff --git a/src/microjax/caustics/extended_source/limb.py b/src/microjax/caustics/extended_source/limb.py
index 70778f5..d91a97c 100644
--- a/src/microjax/caustics/extended_source/limb.py
+++ b/src/microjax/caustics/extended_source/limb.py
@@ -175,6 +175,8 @@ def _images_of_source_limb(
         z,
     )
 
-    z, z_mask, z_parity = _permute_images(z, z_mask, z_parity)
+    # the two images of a single lens are already ordered (outer, inner)
+    if nlenses > 1:
+        z, z_mask, z_parity = _permute_images(z, z_mask, z_parity)
 
     return z, z_mask, z_parity
-- 
2.43.0


From 089f984748e6a093d12f753a90540951a59f9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 18/27] fix: contour stitching stalled near the coordinate
 origin because emptied slots counted as candidates

---
 src/microjax/caustics/extended_source/segments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index ea01ae6..263101d 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -354,6 +354,9 @@ def _merge_open_segments(
         )(segments, tidcs)
 
         distances = jnp.stack([dist_th, dist_ht, dist_hh, dist_tt])
+        # slots that are empty (unused or already merged) are no candidates
+        is_empty = jnp.all(segments[:, 1] == 0.0, axis=1)
+        distances = jnp.where(is_empty, jnp.inf, distances)
 
         ctype1, idx1 = jnp.unravel_index(jnp.argsort(distances.reshape(-1))[0], distances.shape)
         ctype2, idx2 = jnp.unravel_index(jnp.argsort(distances.reshape(-1))[1], distances.shape)
-- 
2.43.0


From 1b2aa20b95cd8a5f6232f5bb206bb2151c09a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 19/27] fix: j2 and j1p5 lost all digits for small arguments
 and j1 had no derivative at zero

---
 src/microjax/fastlens/special.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..4c3053c 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -499,7 +499,8 @@ def j1_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     primal_out = j1_(m)
-    tangent_out = j0_(m) * m_dot - j1_(m) * m_dot / m
+    j1_over_m = jnp.where(m == 0, 0.5, j1_(m) / jnp.where(m == 0, 1.0, m))
+    tangent_out = j0_(m) * m_dot - j1_over_m * m_dot
     # tangent_out = lax.cond(m == 0, lambda _: 0.0, lambda _: tangent_out - j1(m) * m_dot / m, operand=None)
     return primal_out, tangent_out
 
@@ -509,14 +510,30 @@ j1 = jit(vmap(j1_, in_axes=(0,)))
 
 
 def j2_(x):
-    return (2 / x) * j1_(x) - j0_(x)
+    # the recurrence cancels for small x, where the power series is used
+    small = jnp.abs(x) < 0.5
+    xs = jnp.where(small, x, 0.0)
+    xl = jnp.where(small, 1.0, x)
+    t = xs**2 / 4
+    series = t * (1 / 2 - t * (1 / 6 - t * (1 / 48 - t * (1 / 720 - t * (1 / 17280 - t / 604800)))))
+    return jnp.where(small, series, (2 / xl) * j1_(xl) - j0_(xl))
 
 
 j2 = jit(vmap(j2_, in_axes=(0,)))
 
 
 def j1p5_(x):
-    return jnp.sqrt(2 / (jnp.pi * x)) * (jnp.sin(x) / x - jnp.cos(x))
+    # the closed form cancels for small x, where the power series is used
+    small = (x >= 0.0) & (x < 0.5)
+    xs = jnp.where(small, x, 0.0)
+    xl = jnp.where(small, 1.0, x)
+    t = xs**2
+    series = xs**1.5 * (1 / 3 - t * (1 / 30 - t * (1 / 840 - t * (1 / 45360 - t * (1 / 3991680 - t / 518918400)))))
+    return jnp.where(
+        small,
+        jnp.sqrt(2 / jnp.pi) * series,
+        jnp.sqrt(2 / (jnp.pi * xl)) * (jnp.sin(xl) / xl - jnp.cos(xl)),
+    )
 
 
 j1p5 = jit(vmap(j1p5_, in_axes=(0,)))
-- 
2.43.0


From 58016d8a444de9c76175c7cc58aba74303686d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 20/27] fix: derivatives of the complete elliptic integrals
 were NaN or inaccurate near m = 0

---
 src/microjax/fastlens/special.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 4c3053c..5390129 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -150,7 +150,11 @@ def ellipk_jvp(primals, tangents):
         m,
     )
     # Derivative of the complete elliptic integral of the first kind with respect to m
-    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m * (1 - m))
+    # (power series near m = 0, where the quotient is 0 / 0)
+    ms = jnp.where(jnp.abs(m) < 1e-3, 0.5, m)
+    series = jnp.pi / 2 * (1 / 4 + m * (9 / 32 + m * (75 / 256 + m * 1225 / 4096)))
+    dk_dm = (ellipe_(ms) - (1 - ms) * ellipk_(ms)) / (2 * ms * (1 - ms))
+    dk_dm = jnp.where(jnp.abs(m) < 1e-3, series, dk_dm)
     return k_val, m_dot * dk_dm
 
 
@@ -188,7 +192,10 @@ def ellipe_jvp(primals, tangents):
     e_val = ellipe_(m)
     k_val = ellipk_(m)
     # Derivative of the complete elliptic integral of the second kind with respect to m
-    de_dm = (e_val - k_val) / (2 * m)
+    # (power series near m = 0, where the quotient is 0 / 0)
+    ms = jnp.where(jnp.abs(m) < 1e-3, 0.5, m)
+    series = -jnp.pi / 2 * (1 / 4 + m * (3 / 32 + m * (15 / 256 + m * 175 / 4096)))
+    de_dm = jnp.where(jnp.abs(m) < 1e-3, series, (e_val - k_val) / (2 * ms))
     return e_val, m_dot * de_dm
 
 
@@ -210,7 +217,7 @@ def ellipe(m):
 
 def ellipk(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipk_(m),
         1.0 / jnp.sqrt(jnp.abs(m) + 1.0) * ellipk_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -219,7 +226,7 @@ def ellipk(m):
 
 def ellipe(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipe_(m),
         jnp.sqrt(jnp.abs(m) + 1.0) * ellipe_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
-- 
2.43.0


From 0a93647f29e46c59cae24a8eef8b993079857404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 21/27] fix: FFTLog dropped a sample for odd totals with
 extrapolation only, and a one-sample window gave NaN

---
 src/microjax/fastlens/fftlog.py     | 4 ++--
 src/microjax/fastlens/fftlog_jax.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/fftlog.py b/src/microjax/fastlens/fftlog.py
index 018b5a1..d91d587 100644
--- a/src/microjax/fastlens/fftlog.py
+++ b/src/microjax/fastlens/fftlog.py
@@ -45,7 +45,7 @@ class fftlog(object):
 			self.x= self.x[:-1]
 			self.fx=self.fx[:-1]
 			self.N -= 1
-			if(N_pad):
+			if(self.N_extrap_high):
 				self.N_extrap_high -=1
 
 		self.m, self.c_m = self.get_c_m()
@@ -162,7 +162,7 @@ def c_window(n,n_cut):
 	# n_left = n[0]+ n_cut 
 	n_r=n[ n[:]  > n_right ] 
 	# n_l=n[ n[:]  <  n_left ] 
-	theta_right=(n[-1]-n_r)/float(n[-1]-n_right-1) 
+	theta_right=(n[-1]-n_r)/float(max(n_cut-1, 1)) 
 	# theta_left=(n_l - n[0])/float(n_left-n[0]-1) 
 	W=np.ones(n.size)
 	W[n[:] > n_right]= theta_right - 1/(2*np.pi)*np.sin(2*np.pi*theta_right)
diff --git a/src/microjax/fastlens/fftlog_jax.py b/src/microjax/fastlens/fftlog_jax.py
index b3b0544..c3814f6 100644
--- a/src/microjax/fastlens/fftlog_jax.py
+++ b/src/microjax/fastlens/fftlog_jax.py
@@ -35,7 +35,7 @@ class fftlog(object):
             self.x= self.x[:-1]
             self.fx=self.fx[:-1]
             self.N -= 1
-            if(N_pad):
+            if(self.N_extrap_high):
                 self.N_extrap_high -=1 
 
         self.m, self.c_m = self.get_c_m()
@@ -165,7 +165,7 @@ def log_extrap_(x, N_extrap_low, N_extrap_high):
 def c_window(n, n_cut):
     n_right = n[-1] - n_cut
     idx = n > n_right
-    theta_right = (n[-1] - n) / (n[-1] - n_right - 1).astype(float)
+    theta_right = (n[-1] - n) / float(max(n_cut - 1, 1))
     W = jnp.where(idx, theta_right - 1 / (2 * jnp.pi) * jnp.sin(2 * jnp.pi * theta_right), jnp.ones_like(n))
     return W
 
-- 
2.43.0


From 142fba3731ea1ecfe51e0888474ef5bb1cca4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 22/27] fix: FFT magnification (JAX) was off by more than 1%
 for sources just above rho_switch (point-source kernel truncated at both
 ends)

---
 src/microjax/fastlens/mag_fft_jax.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..e1309e6 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -27,9 +27,10 @@ class mag_:
         Initializing the FFT counter part of point-source magnification
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        # (A(u) - 1) * u**2, written without the cancellation at large u
+        us = u * (u**2 + 4.0)**0.5
+        u2Au = 4.0 * u**2 / (us * (u**2 + 2.0 + us))
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -143,9 +144,10 @@ class magnification:
         Initializing the FFT counter part of point-source magnification
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        # (A(u) - 1) * u**2, written without the cancellation at large u
+        us = u * (u**2 + 4.0)**0.5
+        u2Au = 4.0 * u**2 / (us * (u**2 + 2.0 + us))
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0


From 7c6672c631adbe0772236a886f5fcad468423195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 23/27] fix: linear limb-darkened FFT magnification (mag_limb,
 mag_limb1) was wrong by 10-100%: aliased profile transform and wrong
 normalisation at u = 0

---
 src/microjax/fastlens/mag_fft_jax.py | 29 ++++++++++++----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index e1309e6..a2e254c 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -98,18 +98,16 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        x = jnp.atleast_1d(k) * rho
+        x_safe = jnp.where(x > 0, x, 1.0)
+        sk_disk = jnp.where(x > 0, 2.0 * j1(x_safe) / x_safe, 1.0)
+        sk_term1 = jnp.where(x > 0, 1.5 * 2**1.5 * gamma(1.5) * j1p5(x_safe) / x_safe**1.5, 1.0)
+        return ((1.0 - a1) * sk_disk + a1 * sk_term1 * 2.0 / 3.0) / (1.0 - a1 / 3.0)
 
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        return ((1.0 - a1) * A0_disk + a1 * A0_term1 * 2.0 / 3.0) / (1.0 - a1 / 3.0)
 
 # FFT based magnification
 class magnification:
@@ -268,13 +266,11 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        x = jnp.atleast_1d(k) * rho
+        x_safe = jnp.where(x > 0, x, 1.0)
+        sk_disk = jnp.where(x > 0, 2.0 * j1(x_safe) / x_safe, 1.0)
+        sk_term1 = jnp.where(x > 0, 1.5 * 2**1.5 * gamma(1.5) * j1p5(x_safe) / x_safe**1.5, 1.0)
+        return ((1.0 - self.a1) * sk_disk + self.a1 * sk_term1 * 2.0 / 3.0) / (1.0 - self.a1 / 3.0)
 
     def sk__(self, k, rho):
         k = jnp.atleast_1d(k)
@@ -301,8 +297,7 @@ class mag_limb1(magnification):
     def A0(self, rho):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        return ((1.0 - self.a1) * A0_disk + self.a1 * A0_term1 * 2.0 / 3.0) / (1.0 - self.a1 / 3.0)
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From 8ef240f69a96a73212f568ebae38307a83ba0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 24/27] fix: peri_vernal returned the equinox paired with the
 perihelion, up to 259 days away, not the one closest to tref

---
 src/microjax/trajectory/parallax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/microjax/trajectory/parallax.py b/src/microjax/trajectory/parallax.py
index 04c3bf6..248fa74 100644
--- a/src/microjax/trajectory/parallax.py
+++ b/src/microjax/trajectory/parallax.py
@@ -106,9 +106,9 @@ def peri_vernal(tref: Union[float, Array]) -> Tuple[Array, Array]:
         6006.71806, 6371.95972, 6737.20625, 7102.44792, 7467.68750, 7832.93611,
         8198.17708, 8563.41528, 8928.65903
     ])
-    dperi = jnp.abs(peris - tref)
-    imin = jnp.argmin(dperi)
-    return peris[imin], vernals[imin]
+    iperi = jnp.argmin(jnp.abs(peris - tref))
+    ivernal = jnp.argmin(jnp.abs(vernals - tref))
+    return peris[iperi], vernals[ivernal]
 
 def getpsi(phi: Union[float, Array], ecc: float) -> Array:
     """Solve Kepler's equation for the eccentric anomaly ``psi``.
-- 
2.43.0


From 7459d0ac1d3fd3ac85292b0c0054c8ffe0299866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 25/27] fix: contour stitching lost samples lying exactly on
 the imaginary axis

---
 src/microjax/caustics/extended_source/contours.py | 2 +-
 src/microjax/caustics/extended_source/mag.py      | 2 +-
 src/microjax/caustics/extended_source/segments.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/caustics/extended_source/contours.py b/src/microjax/caustics/extended_source/contours.py
index 78d8159..9da49c0 100644
--- a/src/microjax/caustics/extended_source/contours.py
+++ b/src/microjax/caustics/extended_source/contours.py
@@ -73,7 +73,7 @@ def _contours_from_open_segments(
 
     contours_p = segments_merged[:, 1, 0].real
     contours = segments_merged[:, 0]
-    tail_idcs = vmap(last_nonzero)(contours.real)
+    tail_idcs = vmap(last_nonzero)(contours)
     contours = vmap(lambda idx, c: c.at[idx + 1].set(c[0]))(tail_idcs, contours)
 
     return contours, contours_p
diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index b3deea2..949a480 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -151,7 +151,7 @@ def mag_extended_source(
             contours, contours_p = _contours_from_open_segments(
                 segments, max_nr_of_contours=max_nr_of_contours
             )
-            tail_idcs = vmap(last_nonzero)(contours.real)
+            tail_idcs = vmap(last_nonzero)(contours)
             I = vmap(integrate)(contours, tail_idcs)
             return I * contours_p
 
diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index 263101d..7b03d83 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -428,7 +428,7 @@ def _merge_open_segments(
     def body_fn(carry, _):
         seg_active, tidx_active, segments, tidcs = carry
 
-        stopping_criterion = ~jnp.any(segments[:, 0, 0])
+        stopping_criterion = ~jnp.any(segments[:, 0, 0] != 0)
         seg_active, tidx_active, segments, tidcs = lax.cond(
             stopping_criterion,
             lambda: (seg_active, tidx_active, segments, tidcs),
@@ -442,7 +442,7 @@ def _merge_open_segments(
             tidcs,
         ), 0.0
 
-    tail_idcs = vmap(last_nonzero)(segments[:, 0, :].real)
+    tail_idcs = vmap(last_nonzero)(segments[:, 0, :])
 
     # A merged contour may collect every point of every image track (`_get_segments`
     # keeps six segments per track) plus the point that closes it.
-- 
2.43.0


From eb32e9d6e41ffab47e1fca602c672143e28d48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 26/27] fix: derivative rule of the limb-darkening profile
 (sign of the u1 normalisation, limb smoothed twice)

---
 src/microjax/inverse_ray/limb_darkening.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..d97d595 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -38,20 +38,16 @@ def Is_limb_1st_jvp(primals, tangents):
     d, u1 = primals
     d_dot, u1_dot = tangents
 
-    fac = 100.0
+    # The limb itself is smoothed by ``in_source``; smoothing it here as well
+    # would count it twice and lose about two percent of the disk.
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-    dmu_dd = -d / mu
-    z = 1.0 - d
-    sigmoid = jax.nn.sigmoid(fac * z)
-    dsig_dz = fac * sigmoid * (1.0 - sigmoid)
-    dz_dd = -1.0
-
-    primal_out = I0 * prof * sigmoid
-    tangent_out = u1_dot * (dI0_du1 * prof * sigmoid + I0 * dprof_du1 * sigmoid) \
-      + d_dot * (I0 * dprof_dmu * dmu_dd * sigmoid + I0 * prof * dsig_dz * dz_dd)
+    dmu_dd = jnp.where(1.0 - d**2 > 1e-3, -d / mu, 0.0)
+
+    primal_out = I0 * prof
+    tangent_out = u1_dot * (dI0_du1 * prof + I0 * dprof_du1) + d_dot * I0 * dprof_dmu * dmu_dd
     return primal_out, tangent_out
-- 
2.43.0


From 33aa2868c9701bbc2feb4aff15ed842e00bb509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:41 +0000
Subject: [PATCH 27/27] fix: finite reverse-mode gradients of the JAX FFT
 magnification at u = 0

log10(0) in an unselected branch turned the derivatives with respect to u and
rho into NaN.
---
 src/microjax/fastlens/mag_fft_jax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index a2e254c..221c3d2 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -67,7 +67,7 @@ class mag_:
         max_u_fft = 100
         u_fft_truncated = jnp.where(u_fft < max_u_fft, u_fft, max_u_fft)
         a_fft_truncated = jnp.where(u_fft < max_u_fft, a_fft, 1)
-        log_u = jnp.log10(u)
+        log_u = jnp.log10(jnp.where(u > 0, u, 1.0))  # keeps gradients finite at u = 0
         log_u_fft_truncated = jnp.log10(u_fft_truncated)
         interp_values = jnp.interp(log_u, log_u_fft_truncated, a_fft_truncated, right=1)
         a = jnp.where(u > 0, interp_values, a_base)
@@ -187,7 +187,7 @@ class magnification:
         x = jnp.where(idx, u / rho, jnp.ones_like(u))
         val = jnp.where(idx, self.Aext0(x) / rho + 1, jnp.ones_like(u))
         # Assign approximated solution: point-source magnification
-        a = jnp.where(idx, val, A_point(u))
+        a = jnp.where(idx, val, A_point(jnp.where(idx, 1.0, u)))
         #a = jnp.where(~idx, A_point(u), a)
         return a
 
@@ -215,7 +215,7 @@ class magnification:
         max_u_fft = 100
         u_fft_truncated = jnp.where(u_fft < max_u_fft, u_fft, max_u_fft)
         a_fft_truncated = jnp.where(u_fft < max_u_fft, a_fft, 1)
-        log_u = jnp.log10(u)
+        log_u = jnp.log10(jnp.where(u > 0, u, 1.0))  # keeps gradients finite at u = 0
         log_u_fft_truncated = jnp.log10(u_fft_truncated)
         interp_values = jnp.interp(log_u, log_u_fft_truncated, a_fft_truncated, right=1)
         a = jnp.where(u > 0, interp_values, a_base)
-- 
2.43.0

