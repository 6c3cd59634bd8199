From 6d77335752e73dbebde67a72c9acbdec4578d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 01/20] fix: single-lens Jacobian determinant is 1 - 1/|z|^4,
 not 1 - 1/|z|^2

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From 9e5aec9df4d169c16eb555d340cbfbea59cb2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 02/20] fix: multipole expansion of a triple lens must place
 the third lens at r3*exp(i*psi)

---
 src/microjax/multipole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..d4d4497 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -291,6 +291,7 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3 = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
-- 
2.43.0


From 00d7dbeaf67a2d431802c358820d94f4a412c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 03/20] fix: the planetary caustic lies at a - 1/s in the
 mid-point frame, not -1/s

---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..32533b9 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..e538900 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From fb85c88b03964ff8d6c279b840b31b7f426e9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 04/20] fix: magnifications must limb-darken the multipole
 approximation as well

---
 src/microjax/caustics/lightcurve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 32533b9..00843af 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -244,13 +244,14 @@ def magnifications(
         **_params
     )
 
+    u1_multi = u1 if limb_darkening else 0.0
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 72a0ed76282c45f8cdaec1d583bbf4d66627baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 05/20] fix: mag_limb_dark must trace the source limb with the
 requested number of lenses

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From cc0637ac8f3a3edc93155c870b161f91abecf57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 06/20] fix: host mass fraction of a triple lens is 1/(1+q+q3)
 in the contour integrator

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From 72bd3ba7fe28d4136ae95e990e240b93ec17f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 07/20] fix: derivative of the limb-darkened profile with
 respect to u1 had the wrong sign in its normalisation term

---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From 5dbe4185da1c0f60c403d9cabe0dc488443f47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 08/20] fix: wrap-around merge must only remove the angular
 intervals it absorbed

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..cdd9960 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) rows absorbed by the row starting at 0
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From 255a1e5ed195c2f8323f0348166578de74e2fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 09/20] fix: an empty radial cluster must not erase the cluster
 before it

---
 src/microjax/inverse_ray/merge_area.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index cdd9960..330d107 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -232,7 +232,7 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     r_limb_expanded = r_limb.reshape(1, N)
     r_mins  = r_ranges[:, 0].reshape(M, 1)
     r_maxs  = r_ranges[:, 1].reshape(M, 1)
-    cond_in = (r_limb_expanded > r_mins) & (r_limb_expanded < r_maxs)  # shape: (M, N)
+    cond_in = (r_limb_expanded >= r_mins) & (r_limb_expanded <= r_maxs)  # shape: (M, N)
     valid_mins = jnp.where(cond_in, r_limb_expanded, jnp.inf)
     valid_maxs = jnp.where(cond_in, r_limb_expanded, -jnp.inf)
     r_mins = jnp.where(jnp.any(cond_in, axis=1), jnp.min(valid_mins, axis=1), 0.0)
@@ -247,7 +247,7 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     for i in range(N-1):
         row_0 = rows_new[i]
         row_1 = rows_new[i+1]
-        update = row_0[1] > row_1[0]
+        update = (row_0[1] > row_1[0]) & (row_1[1] > 0.0) # an empty row absorbs nothing
         def true_fn(rows):
             rows = rows.at[i].set(jnp.array([0.0, 0.0]))
             rows = rows.at[i + 1].set(jnp.array([row_0[0], row_1[1]]))
-- 
2.43.0


From 7e59e58a856a42943dece07395d6fef1b1197ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 10/20] fix: linear_chi2 with a scalar err must weight every
 point and accept the default err

---
 src/microjax/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..36dffd9 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,6 +62,7 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
+    err = jnp.broadcast_to(jnp.asarray(err), jnp.shape(x))
     wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
-- 
2.43.0


From c387a58074f15cab4dbfdf2b137d7d6739777e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 11/20] fix: single-lens contour integrals must include the
 closing edge

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index b3deea2..9730ec8 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -130,7 +130,7 @@ def mag_extended_source(
         contours, contours_p = _contours_from_closed_segments(
             jnp.moveaxis(jnp.stack([z, z_parity]), 0, 1)
         )
-        tail_idcs = jnp.array([z.shape[1] - 1, z.shape[1] - 1])
+        tail_idcs = jnp.repeat(contours.shape[1] - 1, contours.shape[0])
         I = vmap(integrate)(contours, tail_idcs)
         return jnp.abs(jnp.sum(I * contours_p)) / (np.pi * rho**2)
 
-- 
2.43.0


From 6cc770704eb71ada20b736c11a10fcdab6ba34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 12/20] fix: gamma has poles only on the real axis

---
 src/microjax/fastlens/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..8ef33d7 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -56,8 +56,10 @@ def gamma_(z):
     # Select the appropriate results based on the masks
     g = jnp.where(not_special_case, positive_results, negative_results)
 
-    non_positive_integer_mask = negative_real_mask & (
-        jnp.real(z) == jnp.floor(jnp.real(z))
+    non_positive_integer_mask = (
+        negative_real_mask
+        & (jnp.real(z) == jnp.floor(jnp.real(z)))
+        & (jnp.imag(z) == 0)
     )
     g = jnp.where(non_positive_integer_mask, jnp.nan, g)
 
-- 
2.43.0


From 6370c578d16d12c5036c1e45dca8b82084193d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 13/20] fix: the derivative of j1 at zero is one half, not nan

---
 src/microjax/fastlens/special.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 8ef33d7..a2f4197 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -501,7 +501,9 @@ def j1_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     primal_out = j1_(m)
-    tangent_out = j0_(m) * m_dot - j1_(m) * m_dot / m
+    # J1(x)/x -> 1/2 for x -> 0
+    safe_m = jnp.where(m == 0, 1.0, m)
+    tangent_out = (j0_(m) - jnp.where(m == 0, 0.5, j1_(m) / safe_m)) * m_dot
     # tangent_out = lax.cond(m == 0, lambda _: 0.0, lambda _: tangent_out - j1(m) * m_dot / m, operand=None)
     return primal_out, tangent_out
 
-- 
2.43.0


From 37d5f53ae6c0b1861213db0a497c88ef44d90ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 14/20] fix: derivatives of the elliptic integrals at m = 0

---
 src/microjax/fastlens/special.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index a2f4197..61820d9 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -152,7 +152,12 @@ def ellipk_jvp(primals, tangents):
         m,
     )
     # Derivative of the complete elliptic integral of the first kind with respect to m
-    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m * (1 - m))
+    safe_m = jnp.where(m == 0, 0.5, m)
+    dk_dm = jnp.where(
+        m == 0,
+        jnp.pi / 8,
+        (ellipe_(m) - (1 - m) * k_val) / (2 * safe_m * (1 - m)),
+    )
     return k_val, m_dot * dk_dm
 
 
@@ -190,7 +195,8 @@ def ellipe_jvp(primals, tangents):
     e_val = ellipe_(m)
     k_val = ellipk_(m)
     # Derivative of the complete elliptic integral of the second kind with respect to m
-    de_dm = (e_val - k_val) / (2 * m)
+    safe_m = jnp.where(m == 0, 0.5, m)
+    de_dm = jnp.where(m == 0, -jnp.pi / 8, (e_val - k_val) / (2 * safe_m))
     return e_val, m_dot * de_dm
 
 
@@ -212,7 +218,7 @@ def ellipe(m):
 
 def ellipk(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipk_(m),
         1.0 / jnp.sqrt(jnp.abs(m) + 1.0) * ellipk_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -221,7 +227,7 @@ def ellipk(m):
 
 def ellipe(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipe_(m),
         jnp.sqrt(jnp.abs(m) + 1.0) * ellipe_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
-- 
2.43.0


From 8beefdbf55b20133c4d89f0c655137ce44695c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 15/20] fix: a one-sample taper of the log-FFT window must not
 be 0/0

---
 src/microjax/fastlens/fftlog.py     | 2 +-
 src/microjax/fastlens/fftlog_jax.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/fftlog.py b/src/microjax/fastlens/fftlog.py
index 018b5a1..cd0ac9c 100644
--- a/src/microjax/fastlens/fftlog.py
+++ b/src/microjax/fastlens/fftlog.py
@@ -162,7 +162,7 @@ def c_window(n,n_cut):
 	# n_left = n[0]+ n_cut 
 	n_r=n[ n[:]  > n_right ] 
 	# n_l=n[ n[:]  <  n_left ] 
-	theta_right=(n[-1]-n_r)/float(n[-1]-n_right-1) 
+	theta_right=(n[-1]-n_r)/float(max(n[-1]-n_right-1, 1)) 
 	# theta_left=(n_l - n[0])/float(n_left-n[0]-1) 
 	W=np.ones(n.size)
 	W[n[:] > n_right]= theta_right - 1/(2*np.pi)*np.sin(2*np.pi*theta_right)
diff --git a/src/microjax/fastlens/fftlog_jax.py b/src/microjax/fastlens/fftlog_jax.py
index b3b0544..14ba371 100644
--- a/src/microjax/fastlens/fftlog_jax.py
+++ b/src/microjax/fastlens/fftlog_jax.py
@@ -165,7 +165,7 @@ def log_extrap_(x, N_extrap_low, N_extrap_high):
 def c_window(n, n_cut):
     n_right = n[-1] - n_cut
     idx = n > n_right
-    theta_right = (n[-1] - n) / (n[-1] - n_right - 1).astype(float)
+    theta_right = (n[-1] - n) / jnp.maximum(n[-1] - n_right - 1, 1).astype(float)
     W = jnp.where(idx, theta_right - 1 / (2 * jnp.pi) * jnp.sin(2 * jnp.pi * theta_right), jnp.ones_like(n))
     return W
 
-- 
2.43.0


From 2e67fefd89b5f5c764c82a372ed2363acc642a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 16/20] fix: the limb profiles in Fourier space are 1 at k = 0

---
 src/microjax/fastlens/mag_fft.py     | 2 +-
 src/microjax/fastlens/mag_fft_jax.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft.py b/src/microjax/fastlens/mag_fft.py
index 392de2f..983123e 100644
--- a/src/microjax/fastlens/mag_fft.py
+++ b/src/microjax/fastlens/mag_fft.py
@@ -178,7 +178,7 @@ class magnification_limb(magnification):
         k = np.atleast_1d(k)
         x   = k*rho
         nu  = 1+self.n_limb/2
-        a   = np.ones(x.shape)*1.0/(self.n_limb+2)
+        a   = np.ones(x.shape)
         idx = x>0
         a[idx] = 2**nu*gamma(nu)*jn(nu, x[idx])/x[idx]**nu * nu
         return a
diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..3f917d8 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -311,7 +311,7 @@ class magnification_limb1(magnification):
         k = jnp.atleast_1d(k)
         x = k * rho
         nu = 1.5
-        a_base = jnp.ones(x.shape)*1.0 / (1 + 2)
+        a_base = jnp.ones(x.shape)
         sk = jnp.where(x > 0, nu * 2**nu * gamma(nu) * j1p5(x) / x**nu, a_base)
         return sk
 
@@ -326,7 +326,7 @@ class magnification_limb2(magnification):
         k = jnp.atleast_1d(k)
         x = k * rho
         nu = 2
-        a_base = jnp.ones(x.shape)*1.0 / (2 + 2)
+        a_base = jnp.ones(x.shape)
         a = jnp.where(x > 0, 2**nu * gamma(nu) * j2(x) / x**nu * nu, a_base)
         return a
 
-- 
2.43.0


From 3721eaeecaf2b50279ba9d32a3d9722e4f0a10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 17/20] fix: central magnification of a linearly limb-darkened
 source uses the flux normalisation 1 - a1/3

---
 src/microjax/fastlens/mag_fft_jax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 3f917d8..683a718 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -107,8 +107,8 @@ class mag_limb(mag_):
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        norm = 1.0 - a1 / 3.0
+        return ((1.0 - a1) * A0_disk + 2.0 / 3.0 * a1 * A0_term1) / norm
 
 # FFT based magnification
 class magnification:
@@ -299,8 +299,8 @@ class mag_limb1(magnification):
     def A0(self, rho):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        norm = 1.0 - self.a1 / 3.0
+        return ((1.0 - self.a1) * A0_disk + 2.0 / 3.0 * self.a1 * A0_term1) / norm
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From e7aef88d4d673d0e3c7faa563afecdff5ced4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 18/20] fix: linearly limb-darkened profile in Fourier space
 evaluated at the requested wavenumbers with unit flux

---
 src/microjax/fastlens/mag_fft_jax.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 683a718..10ad4c8 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -97,12 +97,14 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        k = jnp.atleast_1d(k)
+        x = k * rho
+        nu = 1.5
+        sk_disk = 2 * j1(x) / x
+        sk_term1 = nu * 2**nu * gamma(nu) * j1p5(x) / x**nu
+        norm = 1.0 - a1 / 3.0
+        sk = ((1.0 - a1) * sk_disk + 2.0 / 3.0 * a1 * sk_term1) / norm
+        return jnp.where(x > 0, sk, jnp.ones_like(x))
 
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
@@ -266,13 +268,14 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        k = jnp.atleast_1d(k)
+        x = k * rho
+        nu = 1.5
+        sk_disk = 2 * j1(x) / x
+        sk_term1 = nu * 2**nu * gamma(nu) * j1p5(x) / x**nu
+        norm = 1.0 - self.a1 / 3.0
+        sk = ((1.0 - self.a1) * sk_disk + 2.0 / 3.0 * self.a1 * sk_term1) / norm
+        return jnp.where(x > 0, sk, jnp.ones_like(x))
 
     def sk__(self, k, rho):
         k = jnp.atleast_1d(k)
-- 
2.43.0


From debe1c38aad25070b9b7ac5b2d212eb3e67953c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 19/20] fix: extrapolate the point-source spectrum so the JAX
 FFT magnification keeps its documented precision just above rho_switch

---
 src/microjax/fastlens/mag_fft_jax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 10ad4c8..ba2a4a7 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -28,8 +28,8 @@ class mag_:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        # the spectrum is needed beyond the grid in k for small rho: extrapolate to small u
+        h = hankel(u, u2Au, nu=1.5, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -146,8 +146,8 @@ class magnification:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        # the spectrum is needed beyond the grid in k for small rho: extrapolate to small u
+        h = hankel(u, u2Au, nu=1.5, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0


From ebaaff685255ec4bbede138b09c74dce9d5533bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 20/20] fix: extrapolate the point-source profile on both sides
 in the JAX FFT magnification, as the NumPy version does (it was low by 4e-4
 everywhere, below 1 at large separations)

---
 src/microjax/fastlens/mag_fft_jax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index ba2a4a7..fb9512c 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -28,8 +28,8 @@ class mag_:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        # the spectrum is needed beyond the grid in k for small rho: extrapolate to small u
-        h = hankel(u, u2Au, nu=1.5, N_extrap_low=512)
+        # the spectrum is needed beyond the grid in k for small rho, and free of the wrap-around of its tail: extrapolate
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -146,8 +146,8 @@ class magnification:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        # the spectrum is needed beyond the grid in k for small rho: extrapolate to small u
-        h = hankel(u, u2Au, nu=1.5, N_extrap_low=512)
+        # the spectrum is needed beyond the grid in k for small rho, and free of the wrap-around of its tail: extrapolate
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0

