From 4f5ded3978a37cefae87fb90346b0f96926a6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 001/145] fix: mean radiance and flux use the direct beam at
 the output level, only Stokes I, and no beam without a solar source

---
 src/prototypes/xrtm_radiance_p.h |  4 ++--
 src/xrtm_model.c                 | 41 ++++++++++++++++++++++++--------
 src/xrtm_radiance.c              |  8 +++----
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/prototypes/xrtm_radiance_p.h b/src/prototypes/xrtm_radiance_p.h
index d8344aa..e899291 100644
--- a/src/prototypes/xrtm_radiance_p.h
+++ b/src/prototypes/xrtm_radiance_p.h
@@ -4,5 +4,5 @@ void radiance_toa_ref(int n_quad, int n_derivs, double **R_m, double *S_p, doubl
 void radiance_boa_ref(int n_quad, int n_derivs, double **R12_p, double *S12_m, double ***R12_p_l, double **S12_m_l, double **R23_m, double ***R23_m_l, double *I3_p, double **I3_p_l, double *I2_p, double **I2_p_l, double *I2_m, double **I2_m_l, uchar *derivs, work_data work);
 void radiance_toa_all(int n_quad, int n_derivs, double **R_m, double **T_p, double *S_p, double ***R_m_l, double ***T_p_l, double **S_p_l, double *I1_m, double *I2_p, double **I1_m_l, double **I2_p_l, double *I1_p, double *I1m_, double **I1_p_l, double **I1m_l_, uchar *derivs, work_data work);
 void radiance_boa_all(int n_quad, int n_derivs, double **R12_p, double **T12_m, double **R23_m, double *S12_m, double ***R12_p_l, double ***T12_m_l, double ***R23_m_l, double **S12_m_l, double *I3_p, double *I1_m, double **I3_p_l, double **I1_m_l, double *I2_p, double *I2_m, double **I2_p_l, double **I2_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_mean(int n_quad, int n_stokes, double *qx, double *qw, double F_0, double mu_0, double btran, double *I);
+double radiance_to_flux(int n_quad, int n_stokes, double *qx, double *qw, double F_0, double mu_0, double btran, double *I);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..0d4060a 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6096,6 +6096,23 @@ static void azimuth_modes(int n_quad, int n_stokes,
 
 
 
+static double direct_beam_transmittance(xrtm_data *d, int i_ulevel) {
+
+     int i_level;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i_level = d->ulevels[i_ulevel];
+
+     if (d->options & XRTM_OPTION_OUTPUT_AT_TAUS)
+          return d->btran[i_level] * exp(-d->utaus2[i_ulevel] * d->as_0[i_level]);
+
+     return d->btran[i_level];
+}
+
+
+
 static double max_radiance_ratio(double I1, double I2) {
 
      double a;
@@ -6114,7 +6131,6 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
 
      int i;
      int j;
-     int jj;
      int k;
      int kk;
      int l;
@@ -6265,12 +6281,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam_transmittance(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              mean_m[j] += d->F_0 * a / (4. * PI);
+                    }
                }
           }
 
@@ -6280,12 +6299,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam_transmittance(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              flux_m[j] += d->F_0 * d->mu_0 * a;
+                    }
                }
           }
 
@@ -6295,7 +6317,6 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
 
                }
           }
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..e5dd7f4 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -571,7 +571,7 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
+double radiance_to_mean(int n_quad, int n_stokes, double *qx, double *qw,
                         double F_0, double mu_0, double btran, double *I) {
 
      int i;
@@ -579,7 +579,7 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
      double a = 0.;
 
      for (i = 0; i < n_quad; ++i)
-          a += qw_v[i] * I[i];
+          a += qw[i] * I[i * n_stokes];
 
      return a / 2.; // + F_0 * btran / (4. * PI);
 }
@@ -589,7 +589,7 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
+double radiance_to_flux(int n_quad, int n_stokes, double *qx, double *qw,
                         double F_0, double mu_0, double btran, double *I) {
 
      int i;
@@ -597,7 +597,7 @@ double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
      double a = 0.;
 
      for (i = 0; i < n_quad; ++i)
-          a += qx_v[i] * qw_v[i] * I[i];
+          a += qx[i] * qw[i] * I[i * n_stokes];
 
      return a * 2. * PI; // + F_0 * mu_0 * btran;
 }
-- 
2.43.0


From 0f888eda946bf314bd3d1508ba8e59008a5164c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 002/145] fix: MEM_BVP applies the isotropic radiance at the
 top of the atmosphere

---
 src/xrtm_mem_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index 5581202..6c2f4e4 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -184,7 +184,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad_v; ++i)
-          B[i] = 0.;
+          B[i] = I1_m[i];
 
 
      for (i = 0; i < n_quad_v; ++i)
@@ -334,7 +334,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
           xvec_zero(B_l[m], n_comp);
 
           for (i = 0; i < n_quad_v; ++i)
-               B_l[m][i] = 0.;
+               B_l[m][i] = I1_m_l[m][i];
 
           for (i = 0; i < n_quad_v; ++i) {
                B_l[m][n_comp - n_quad_v + i] = In_p_l[m][i];
-- 
2.43.0


From 89832b9270a450959f6f490a09eb89388ce8a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 003/145] fix: SOS includes boundary radiances at the
 boundaries, once, and converges on magnitude

---
 src/xrtm_sos.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 03ac50d..43f91e7 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -222,15 +222,15 @@ int rtm_sos(int i_four,
 i_last_ulevel = n_ulevels - 1;
 
 if (ulevels[0] == 0)
-     init_array1_d(I_m[0], n_quad_v, 0.);
+     dvec_copy(I_m[0], I1_m, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-     init_array1_d(I_p[i_last_ulevel], n_quad_v, 0.);
+     dvec_copy(I_p[i_last_ulevel], In_p, n_quad_v);
 
      if (n_derivs > 0) {
 if (ulevels[0            ] == 0)
-          init_array2_d(I_m_l[0], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_m_l[0], I1_m_l, n_derivs, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-          init_array2_d(I_p_l[i_last_ulevel], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_p_l[i_last_ulevel], In_p_l, n_derivs, n_quad_v);
      }
 
 
@@ -412,6 +412,11 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
+if (ulevels[i_last_ulevel] == n_layers) {
+          dvec_add(I_p[i_last_ulevel], i_p[i][n_layers2], I_p[i_last_ulevel], n_quad_v);
+          if (n_derivs > 0)
+               dmat_add(I_p_l[i_last_ulevel], i_p_l[i][n_layers2], I_p_l[i_last_ulevel], n_derivs, n_quad_v);
+}
           for (j = n_layers2 - 1; j >= 0; --j) {
                dm_v_diag_mul(T[j], i_p[i][j+1], i_p[i][j], n_quad_v);
 
@@ -449,12 +454,12 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
-          b = i_p[i][0][0];
+          b = fabs(i_p[i][0][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_p[i][0][jj] > b)
-                    b = i_p[i][0][jj];
+               if (fabs(i_p[i][0][jj]) > b)
+                    b = fabs(i_p[i][0][jj]);
                jj += n_stokes;
           }
 if (ulevels[0] == 0) {
@@ -467,9 +472,9 @@ if (ulevels[0] == 0) {
           if (n_derivs > 0)
                dmat_add(I_p_l[0], i_p_l[i][0], I_p_l[0], n_derivs, n_quad_v);
 }
-          dvec_copy(i_m[i][0], I1_m, n_quad_v);
+          init_array1_d(i_m[i][0], n_quad_v, 0.);
           if (n_derivs > 0)
-               dmat_copy(i_m_l[i][0], I1_m_l, n_derivs, n_quad_v);
+               init_array2_d(i_m_l[i][0], n_derivs, n_quad_v, 0.);
 
           for (j = 0; j < n_layers2; ++j) {
                dm_v_diag_mul(T[j], i_m[i][j], i_m[i][j+1], n_quad_v);
@@ -508,12 +513,12 @@ if (ulevels[0] == 0) {
                }
           }
 
-          c = i_m[i][n_layers2][0];
+          c = fabs(i_m[i][n_layers2][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_m[i][n_layers2][jj] > c)
-                    c = i_m[i][n_layers2][jj];
+               if (fabs(i_m[i][n_layers2][jj]) > c)
+                    c = fabs(i_m[i][n_layers2][jj]);
                jj += n_stokes;
           }
 
-- 
2.43.0


From 06c05fa4eb956bd5adce9ff7421d3447968aa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 004/145] fix: thermal emission is unpolarized in the layer
 source

---
 src/xrtm_source.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 8c5a70e..84a334f 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -398,6 +398,21 @@ void build_source_vectors_solar_classic_2n2
 
 
 
+/*******************************************************************************
+ * Thermal emission is unpolarized so only the first Stokes component is set.
+ ******************************************************************************/
+static void init_emission_vector(double *v, double a, int n, int n_stokes) {
+
+     int i;
+
+     dvec_zero(v, n * n_stokes);
+
+     for (i = 0; i < n; ++i)
+          v[i * n_stokes] = a;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -472,7 +487,7 @@ void build_thermal_source_coefficients
 
      bb = aa * c[n - 1];
 
-     dvec_init(a[n - 1], bb, n_quad_v2);
+     init_emission_vector(a[n - 1], bb, n_quad * 2, n_stokes);
 
      dmat_getrs(w1, &a[n - 1], n_quad_v2, 1, i1);
 
@@ -486,10 +501,12 @@ void build_thermal_source_coefficients
      for (i = n - 2; i >= 0; --i) {
           bb = aa * c[i];
 
+          init_emission_vector(a[i], bb, n_quad * 2, n_stokes);
+
           jj = n_quad_v;
           for (j = 0; j < n_quad_v; ++j) {
-               a[i][j ] = bb + a[i + 1][j ] * (i + 1) *  qx_v[j];
-               a[i][jj] = bb + a[i + 1][jj] * (i + 1) * -qx_v[j];
+               a[i][j ] += a[i + 1][j ] * (i + 1) *  qx_v[j];
+               a[i][jj] += a[i + 1][jj] * (i + 1) * -qx_v[j];
                jj++;
           }
 
@@ -534,7 +551,7 @@ void build_thermal_source_coefficients
 
                bb = -omega_l[i] * c[n - 1] + (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               init_emission_vector(v2, bb, n_quad * 2, n_stokes);
 
                dvec_sub(v2, v1, a_l, n_quad_v2);
 
@@ -559,7 +576,7 @@ void build_thermal_source_coefficients
 
                     bb = -omega_l[i] * c[j] + (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    init_emission_vector(v2, bb, n_quad * 2, n_stokes);
 
                     dvec_sub(v2, v1, v1, n_quad_v2);
 
@@ -597,7 +614,7 @@ void build_thermal_source_coefficients
 */
                bb = (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               init_emission_vector(v2, bb, n_quad * 2, n_stokes);
 
 dvec_copy(a_l, v2, n_quad_v2);
 /*
@@ -624,7 +641,7 @@ dvec_copy(a_l, v2, n_quad_v2);
 */
                     bb = (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    init_emission_vector(v2, bb, n_quad * 2, n_stokes);
 /*
                     dvec_sub(v2, v1, v1, n_quad_v2);
 */
-- 
2.43.0


From 72e491344d9f91350ee11696910a379026b7c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 005/145] fix: EIG_BVP includes the thermal source for output
 at optical depths, and SFI thermal emission is unpolarized

---
 src/prototypes/xrtm_eig_bvp_p.h |  4 ++--
 src/xrtm_eig_bvp.c              |  4 ++++
 src/xrtm_eig_bvp_x.c            | 10 ++++++++++
 src/xrtm_sfi_x.c                |  6 ++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_eig_bvp_p.h b/src/prototypes/xrtm_eig_bvp_p.h
index 192a73d..9564098 100644
--- a/src/prototypes/xrtm_eig_bvp_p.h
+++ b/src/prototypes/xrtm_eig_bvp_p.h
@@ -1,6 +1,6 @@
 /* xrtm_eig_bvp.c */
 void calc_radiance_levels(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void calc_radiance_levels2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void rtm_eig_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *planck, double **planck_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double surface_b, double *surface_b_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int greens, int sfi, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..1837b34 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -682,8 +682,10 @@ else {
                                          as_0, as_0_l, atran2, atran2_l,
                                          nu, X_p, X_m,
                                          Fs_p, Fs_m,
+                                         Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                          nu_l, X_p_l, X_m_l,
                                          Fs_p_l, Fs_m_l,
+                                         Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                          B, B_l,
                                          I_p, I_m, I_p_l, I_m_l,
                                          solar, thermal,
@@ -734,8 +736,10 @@ else {
                                           as_0, as_0_l, atran2, atran2_l,
                                           nu_c, X_p_c, X_m_c,
                                           Fs_p, Fs_m,
+                                          Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                           nu_l_c, X_p_l_c, X_m_l_c,
                                           Fs_p_l, Fs_m_l,
+                                          Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                           B_c, B_l_c,
                                           I_p, I_m, I_p_l, I_m_l,
                                           solar, thermal,
diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..383a389 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -887,8 +887,10 @@ void CALC_RADIANCE_TAUS(int n_quad, int n_layers, int n_derivs,
                         double *as_0, double **as_0_l, double *atran, double **atran_l,
                         TYPE **nu, TYPE ***X_p, TYPE ***X_m,
                         double **Fs_p, double **Fs_m,
+                        double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m,
                         TYPE ***nu_l, TYPE ****X_p_l, TYPE ****X_m_l,
                         double ***Fs_p_l, double ***Fs_m_l,
+                        double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l,
                         TYPE *B, TYPE **B_l,
                         double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                         int solar, int thermal,
@@ -974,6 +976,8 @@ if (LEGACY_MODE) {
                I_p[i][j] = XREAL(a);
                if (solar)
                     I_p[i][j] += Fs_p[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+               if (thermal)
+                    I_p[i][j] += Ft0_p[ii][j] + (Ft1_p[ii][j] - Ft0_p[ii][j]) * utaus[i] / ltau[ii];
           }
 }
 else {
@@ -997,6 +1001,8 @@ if (LEGACY_MODE) {
                I_m[i][j] = XREAL(a);
                if (solar)
                     I_m[i][j] += Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+               if (thermal)
+                    I_m[i][j] += Ft0_m[ii][j] + (Ft1_m[ii][j] - Ft0_m[ii][j]) * utaus[i] / ltau[ii];
           }
 }
 else {
@@ -1054,6 +1060,8 @@ else {
 
                     if (solar && derivs_beam[ii][m])
                          I_p_l[i][m][j] += (double) (Fs_p_l[ii][m][j] * XEXP(-utaus[i] * as_0[ii]) + Fs_p[ii][j] * -(utau_l * as_0[ii] + utaus[i] * as_0_l[ii][m]) * XEXP(-utaus[i] * as_0[ii]));
+                    if (thermal && derivs_thermal[ii][m])
+                         I_p_l[i][m][j] += Ft0_p_l[ii][m][j] + (Ft1_p_l[ii][m][j] - Ft0_p_l[ii][m][j]) * utaus[i] / ltau[ii];
                }
 
                for (j = 0; j < n_quad; ++j) {
@@ -1072,6 +1080,8 @@ else {
 
                     if (solar && derivs_beam[ii][m])
                          I_m_l[i][m][j] += (double) (Fs_m_l[ii][m][j] * XEXP(-utaus[i] * as_0[ii]) + Fs_m[ii][j] * -(utau_l * as_0[ii] + utaus[i] * as_0_l[ii][m]) * XEXP(-utaus[i] * as_0[ii]));
+                    if (thermal && derivs_thermal[ii][m])
+                         I_m_l[i][m][j] += Ft0_m_l[ii][m][j] + (Ft1_m_l[ii][m][j] - Ft0_m_l[ii][m][j]) * utaus[i] / ltau[ii];
                }
           }
      }
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..d1bbbd8 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -374,7 +374,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
           a3 = pow(tau0, j);
 
           for (k = 0; k < n_umus_v; ++k) {
-               u22[j][k] += a1;
+               if (k % n_stokes == 0)
+                    u22[j][k] += a1;
 
                if (j == 0)
                     u24[j][k] = 1. - e1[k];
@@ -433,7 +434,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
                }
 
                for (l = 0; l < n_umus_v; ++l) {
-                    u2[l] += a1_l;
+                    if (l % n_stokes == 0)
+                         u2[l] += a1_l;
 
                     u5[l] += u2[l] * u24[k][l];
 
-- 
2.43.0


From 23d685f50108c3aa35597f7afebc6332cf352f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 006/145] fix: SFI surface emission derivative uses the
 emissivity of its own angle

---
 src/xrtm_sfi_x.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index d1bbbd8..930567a 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1275,10 +1275,17 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+
+                    b  = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From cf2d77b265daf233064623eb447e0d0432a25b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 007/145] fix: single scattering U changes sign for relative
 azimuths beyond 180 degrees

---
 src/xrtm_scatter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..99bfb97 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1069,6 +1069,9 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
      if (n_stokes >= 3)
@@ -1121,6 +1124,9 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
      if (n_stokes >= 3)
-- 
2.43.0


From 5298444677748bdc5fa2aca7bbc92746a90564e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 008/145] fix: EIG_BVP with SFI computes the quadrature
 radiances that mean radiance and flux are made of

---
 src/xrtm_eig_bvp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 1837b34..0128db8 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -658,7 +658,7 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
+          if (! sfi || (i_four == 0 && ! save_tree.t)) {
                if (! utau_output)
                     calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
                                          n_ulevels, ulevels,
@@ -712,7 +712,7 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
+          if (! sfi || (i_four == 0 && ! save_tree.t)) {
                if (! utau_output)
                     calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
                                           n_ulevels, ulevels,
-- 
2.43.0


From ae076b0c72a8e2c668fd9f575117e801a3801319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 009/145] fix: single scattering rotation at the zenith follows
 the limit of small angles

---
 src/xrtm_scatter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 99bfb97..44d1fb9 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1055,7 +1055,7 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
@@ -1110,7 +1110,7 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
-- 
2.43.0


From 23377084902eb38a8ebc5f622654b2182cb91b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 010/145] fix: DOUB_ADD thermal emission is unpolarized

---
 src/xrtm_doub_rts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index e70d53b..2a62d06 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -215,7 +215,7 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
 
           c = (1. - omega) * planck0 * d_tau;
           for (i = 0; i < n_quad_v; ++i)
-               v1[i] = c;
+               v1[i] = (i % n_stokes == 0) ? c : 0.;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
           dvec_copy(Sl_p, v1, n_quad_v);
           dvec_copy(Sl_m, v1, n_quad_v);
@@ -257,7 +257,7 @@ if (thermal) {
                         (1. - omega)     * planck0_l[i] * d_tau +
                         (1. - omega)     * planck0      * d_tau_l[i];
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = (j % n_stokes == 0) ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
@@ -266,7 +266,7 @@ if (thermal) {
                if (derivs_thermal[i]) {
                     d = (1. - omega)     * planck0_l[i] * d_tau;
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = (j % n_stokes == 0) ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
-- 
2.43.0


From 17a08082ddb3342b4f23bae38fd2df595e9b8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 011/145] fix: mu_0 is not moved beyond one next to a
 near-zenith output angle

---
 src/xrtm_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..2ceee62 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2664,6 +2664,8 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      for (i = 0; i < n; ++i) {
           a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
+          if (a > 1.)
+               a = d->qx[i] - d->misc_input.threshold_mu_0_singlarity;
           if (a != d->mu_0_0) {
                d->mu_0 = a;
                count++;
-- 
2.43.0


From 3e7c4d0fc648bccbf8ef71a53ba115c697cba04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 012/145] fix: SINGLE initializes the output arrays with their
 own dimensions

---
 src/xrtm_model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0d4060a..52d5d02 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4369,14 +4369,14 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
       *
       *-----------------------------------------------------------------------*/
 /*
-     init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_p, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
-          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 */
      }
 
-- 
2.43.0


From d816697c6d377c474acad7212e158f90ad55bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 013/145] fix: BRDF kernels without parameters set the kernel
 derivative to zero

---
 src/xrtm_brdf.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..c630a55 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -286,6 +286,26 @@ typedef union {
 
 
 
+/*******************************************************************************
+ * Linearized kernel value from the gradient with respect to the n_params kernel
+ * parameters.
+ ******************************************************************************/
+static void kernel_l_from_gradient(int n_params, double *f_p, int n_derivs, uchar *derivs, double **p_l, double *f_l) {
+
+     int i;
+     int j;
+
+     for (i = 0; i < n_derivs; ++i) {
+          if (derivs[i]) {
+               f_l[i] = 0.;
+               for (j = 0; j < n_params; ++j)
+                    f_l[i] += f_p[j] * p_l[i][j];
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -396,6 +416,9 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      delta = (aux2->roujean.a + sqrt(aux2->roujean.b - aux2->roujean.c * aux->cos_phi[k])) / PI;
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l_from_gradient(0, NULL, n_derivs, derivs, p_l, f_l);
+
      return ((PI - a * phi) * aux->cos_phi[k] + aux->sin_phi[k]) * aux2->roujean.d - delta;
 }
 
@@ -515,6 +538,9 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      ksi     = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l_from_gradient(0, NULL, n_derivs, derivs, p_l, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.a - PI / 2.;
 }
 
@@ -531,6 +557,9 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      ksi         = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l_from_gradient(0, NULL, n_derivs, derivs, p_l, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.c - PI / 4.;
 }
 
-- 
2.43.0


From 25262f6727087b0178a459027dbb69072295b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 014/145] fix: BRDF kernels return the derivatives with respect
 to their parameters

---
 src/xrtm_brdf.c | 128 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 125 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index c630a55..f94d883 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -459,15 +459,25 @@ static void li_aux(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j, int
 
 
 
-static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q) {
+static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q, double *r_p, double *p_p, double *q_p) {
 
      /* Wanner 1995, Spurr 2004 (contains a typo in eq for d(x)) */
 
+     double a;
+     double b;
      double cos_ksi_p;
      double d;
      double h;
      double cos_t;
 
+     double sec_i;
+     double sec_r;
+     double sec_i_p;
+     double sec_r_p;
+     double cos_ksi_p_p;
+     double h_p;
+     double cos_t_p[2];
+
      cos_ksi_p = aux2->li.a + aux2->li.b * aux->cos_phi[k];
 
     *p_        = (1. + cos_ksi_p) / aux2->li.cos_theta_r_p;
@@ -482,6 +492,39 @@ static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_
           *q = 1.;
      else
           *q = 1. - (acos(cos_t) - sqrt(1. - cos_t * cos_t) * cos_t) / PI ;
+
+     if (! flags_or(derivs, n_derivs))
+          return;
+
+     /* gradients of r, p_ and q with respect to p[0] and p[1] */
+     sec_i       = 1. / aux2->li.cos_theta_i_p;
+     sec_r       = 1. / aux2->li.cos_theta_r_p;
+
+     sec_i_p     = aux2->li.tan_theta_i_p * aux->tan_theta[i] / sec_i;
+     sec_r_p     = aux2->li.tan_theta_r_p * aux->tan_theta[j] / sec_r;
+
+     r_p[0]      = sec_i_p + sec_r_p;
+     r_p[1]      = 0.;
+
+     a           = sec_i * sec_r;
+     cos_ksi_p_p = ((aux2->li.tan_theta_i_p * aux->tan_theta[j] + aux->tan_theta[i] * aux2->li.tan_theta_r_p) * aux->cos_phi[k] -
+                    cos_ksi_p * (sec_i_p * sec_r + sec_i * sec_r_p)) / a;
+
+     p_p[0]      = cos_ksi_p_p * sec_r + (1. + cos_ksi_p) * sec_r_p;
+     p_p[1]      = 0.;
+
+     a           = 2. * (aux2->li.tan_theta_i_p * aux->tan_theta[i] + aux2->li.tan_theta_r_p * aux->tan_theta[j]) -
+                   2. * (aux2->li.tan_theta_i_p * aux->tan_theta[j] + aux->tan_theta[i] * aux2->li.tan_theta_r_p) * aux->cos_phi[k] +
+                   4. * aux2->li.tan_theta_i_p2 * aux2->li.tan_theta_r_p * aux->tan_theta[j] * aux->sin_phi2[k];
+     h_p         = h == 0. ? 0. : a / (2. * h);
+
+     cos_t_p[0]  = aux2->li.g * h_p - cos_t * r_p[0] / aux2->li.r;
+     cos_t_p[1]  = h / aux2->li.r;
+
+     b           = cos_t > 1. ? 0. : 2. * sqrt(1. - cos_t * cos_t) / PI;
+
+     q_p[0]      = b * cos_t_p[0];
+     q_p[1]      = b * cos_t_p[1];
 }
 
 
@@ -491,10 +534,24 @@ static double li_sparse_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
      double q;
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+     double r_p[2];
+     double p_p[2];
+     double q_p[2];
+     double f_p[2];
+
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, r_p, p_p, q_p);
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < 2; ++ii)
+               f_p[ii] = .5 * p_p[ii] - q_p[ii] * aux2->li.r - q * r_p[ii];
+
+          kernel_l_from_gradient(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
 
      return .5 * p_ - q * aux2->li.r;
 }
@@ -505,10 +562,24 @@ static double li_dense_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
      double q;
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+     double r_p[2];
+     double p_p[2];
+     double q_p[2];
+     double f_p[2];
+
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, r_p, p_p, q_p);
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < 2; ++ii)
+               f_p[ii] = (p_p[ii] - p_ * (q_p[ii] / q + r_p[ii] / aux2->li.r)) / (q * aux2->li.r);
+
+          kernel_l_from_gradient(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
 
      return p_ / (q * aux2->li.r) - 2.;
 }
@@ -604,6 +675,12 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
      double P;
      double B;
 
+     double a;
+     double b;
+     double c;
+     double gamma;
+     double f_p[3];
+
      cos_ksi = aux2->hapke.a + aux2->hapke.b * aux->cos_phi[k];
 
      P       = 1. + .5 * cos_ksi;
@@ -612,6 +689,22 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      B       = aux2->hapke.c / (p[2] + tan(ksi / 2.));
 
+     if (flags_or(derivs, n_derivs)) {
+          a      = 2. * aux->cos_theta[i];
+          b      = 2. * aux->cos_theta[j];
+
+          gamma  = sqrt(1. - p[0]);
+
+          c      = p[2] + tan(ksi / 2.);
+
+          f_p[0] = ((1. + B) * P + aux2->hapke.d - 1.) / (2. * (a + b)) +
+                   aux2->hapke.R_ir * aux2->hapke.d * (a / (1. + a * gamma) + b / (1. + b * gamma)) / (2. * gamma);
+          f_p[1] = aux2->hapke.R_ir * P * p[2] / c;
+          f_p[2] = aux2->hapke.R_ir * P * (p[1] - B) / c;
+
+          kernel_l_from_gradient(3, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return aux2->hapke.R_ir * ((1. + B) * P + aux2->hapke.d - 1.);
 }
 
@@ -648,6 +741,10 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
      double delta;
      double R;
 
+     double a;
+     double b;
+     double f_p[3];
+
      cos_ksi     = aux2->rahman.a + aux2->rahman.b * aux->cos_phi[k];
 
      P           = (1. - aux2->rahman.gamma1_2) / pow((1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi), 1.5);
@@ -656,6 +753,18 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
 
      R           = (1. - p[0]) / (1. + delta);
 
+     if (flags_or(derivs, n_derivs)) {
+          a      = 1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi;
+
+          b      = pow(aux2->rahman.g, p[2] - 1.);
+
+          f_p[0] = P * (1. + R) * b - p[0] * P * b / (1. + delta);
+          f_p[1] = p[0] * (1. + R) * b * (-2. * p[1] / pow(a, 1.5) - 3. * P * (p[1] + cos_ksi) / a);
+          f_p[2] = p[0] * P * (1. + R) * b * log(aux2->rahman.g);
+
+          kernel_l_from_gradient(3, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return p[0] * P * (1. + R) * pow(aux2->rahman.g, p[2] - 1.);
 }
 
@@ -692,6 +801,9 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
      double tau;
      double P;
 
+     double c_p;
+     double f_p[2];
+
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b *  aux->cos_phi[k];
 /*
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b * -aux->cos_phi[k];
@@ -716,6 +828,16 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 /*
      P           = 1. / (aux2->cox_munk.d * gamma2*gamma2) * exp(-tau*tau / p[0]);
 */
+     if (flags_or(derivs, n_derivs)) {
+          c_p    = 1. / (2. * c);
+
+          f_p[0] = R * P * (tau*tau / p[0] - 1.) / p[0];
+          f_p[1] = P * (r_p * 2. * (c * lambda - a * c_p) / ((a + c) * (a + c)) -
+                        r_m * 2. * lambda * c_p / ((lambda + c) * (lambda + c)));
+
+          kernel_l_from_gradient(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return R * P;
 }
 
-- 
2.43.0


From 8514d32a5c5ef1aa33c6a33b1d3a7ca3d8e1de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 015/145] fix: surface emission derivative uses the emissivity
 of each angle

---
 src/xrtm_model.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 52d5d02..3e04edf 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4114,10 +4114,16 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4131,10 +4137,16 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
-- 
2.43.0


From c5ad884db7da7f824019cdfed8718411a6ab6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 016/145] fix: radiance at the surface includes source
 derivatives for every combination of flags

---
 src/xrtm_radiance.c | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index e5dd7f4..3039552 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -189,8 +189,11 @@ void radiance_boa_ref(int n_quad, int n_derivs,
           w3 = get_work1(&work, WORK_DXX);
 
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
+               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S ||
+                   derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
+                    if (derivs[i] & DERIV_TOP_S)
+                         dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
@@ -199,13 +202,16 @@ void radiance_boa_ref(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
+               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B ||
+                   derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, I2_m_l[i], n_quad);
+                    if (derivs[i] & DERIV_TOP_S)
+                         dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
@@ -417,7 +423,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
+               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B ||
+                   derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
@@ -426,6 +433,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, I2_m_l[i], n_quad);
+                    if (derivs[i] & DERIV_TOP_S)
+                         dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
@@ -436,33 +445,17 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
+               if (derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+                    dvec_add(v1, v2, I2_m_l[i], n_quad);
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
                     dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
 
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
                }
                else
                if (derivs[i] == ADDING_L_U) {
-- 
2.43.0


From 9bbca65e1f8b5dc7d459f797a1f3e9521a33a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 017/145] fix: EIG_BVP derivative includes the derivative of
 the radiance incident from below without a surface

---
 src/xrtm_eig_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 383a389..b95b212 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -507,10 +507,10 @@ else {
                     }
 
                     b += c;
-
-                    b += In_p_l[m][j];
                }
 
+               b += In_p_l[m][j];
+
                for (k = 0; k < n_quad_v; ++k) {
                     if (derivs_layers[i][m])
                          b -= B[ii + k] * (lambda_l[i][k] * X_p[i][j][k] + lambda[i][k] * X_p_l[i][m][j][k]) + B[ii + k + n_quad_v] * X_m_l[i][m][j][k];
-- 
2.43.0


From eeacfb30ba5a99a929b617e31609a9f01f9e3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 018/145] fix: layer adding includes the source derivative of
 the upper layers alone

---
 src/xrtm_adding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..272f6a8 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -1522,6 +1522,9 @@ void layer_add_all(double **R12, double **T12, double *S12,
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
@@ -1621,6 +1624,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 
-- 
2.43.0


From bb4c93419d0b442d544dde65a35d17f7598aaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 019/145] fix: TWO_OS second order of scattering and its
 derivatives follow the average secant of the beam

---
 src/xrtm_two_os.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 72a3105..003095e 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -655,11 +655,11 @@ if (0) {
 
                     for (m = 0; m < n_derivs; ++m) {
                          if (y[k] == x[l])
-                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - as_0_l[j][m]))) * b;
+                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]))) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
                          if (as_0[j] == x[l])
-                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau[j] * (x[l] + y[k])) * d;
+                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau_l[j][m] * (x[l] + y[k])) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
                     }
@@ -734,7 +734,7 @@ if (0) {
                for (l = 0; l < n_quad_v_x; ++l)
                     v1[k] += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0[j][l];
 
-               i_p[i][j][k] += as_0[j] / 4. * v1[k];
+               i_p[i][j][k] += 1. / mu_0 / 4. * v1[k];
           }
 
           for (m = 0; m < n_derivs; ++m) {
@@ -742,13 +742,13 @@ if (0) {
                     a = 0.;
                     for (l = 0; l < n_quad_v_x; ++l) {
                          a += (Phi3_l[j][m][k][l] * R_p[j+1][k][l] + Phi3[j][k][l] * R_p_l[j+1][m][k][l] +
-                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
+                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * -w1[k][l] * as_0_l[j][m] / (y[k] + as_0[j]) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
 
                          if (derivs->layers[j][m])
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
                     }
 
-                    i_p_l[i][j][m][k] += (as_0_l[j][m] * v1[k] + as_0[j] * a) / 4.;
+                    i_p_l[i][j][m][k] += 1. / mu_0 * a / 4.;
                }
           }
      }
-- 
2.43.0


From 81701add4dc978933467c414060d0c90521097bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 020/145] fix: SFI beam source derivative includes the change
 of the average secant in layers below

---
 src/xrtm_sfi_x.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 930567a..d825a5b 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -128,18 +128,30 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
                          Fu_0_l[k] +=                      omega * (u3[k] + a2 * P_u0_pm     [k]);
           }
 
-          if (derivs_layers[j])
-               e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          if (derivs_beam[j]) {
+               e2_l = -ptau * as_0_l[j] * e2;
+
+               if (derivs_layers[j])
+                    e2_l -= ptau_l[j] * as_0 * e2;
+          }
 
           for (k = 0; k < n_umus_v; ++k) {
                if (derivs_beam[j])
                     I_u_l[j][offset + k] += Fu_0_l[k] * Eu_0[k];
 
-               if (derivs_layers[j]) {
-                    if (! flag)
-                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
-                    else
-                         Eu_0_l = ((e2_l -                              e1_l[j][k]) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+               if (derivs_beam[j]) {
+                    if (! flag) {
+                         Eu_0_l =  (e2_l - atran_l[j] * e1[k]                       - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+
+                         if (derivs_layers[j])
+                              Eu_0_l -= atran * e1_l[j][k] / (1. + umus[k] * as_0);
+                    }
+                    else {
+                         Eu_0_l =  (e2_l                                            - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                         if (derivs_layers[j])
+                              Eu_0_l -=         e1_l[j][k] / (1. - umus[k] * as_0);
+                    }
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
                }
-- 
2.43.0


From d165a08b1c0ad6f5873297ea8b0792c48a568e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:11 +0000
Subject: [PATCH 021/145] fix: eigenvector derivatives of repeated eigenvalues
 are computed instead of set to zero

---
 src/xrtm_eig_util.c | 83 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 3d05951..27bda78 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -81,7 +81,7 @@ int is_degenerate_eigenvalue(int i, int n_quad, double *evals) {
 
      for (j = 0; j < n_quad; ++j) {
           if (i != j) {
-               if (fabs(evals[i] - evals[j]) <= DBL_EPSILON * 1.e2) {
+               if (fabs(evals[i] - evals[j]) <= DBL_EPSILON * 1.e5 * fabs(evals[i])) {
                     return 1;
                 }
           }
@@ -296,6 +296,85 @@ static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gam
 
 
 
+/*******************************************************************************
+ * Derivatives of an eigenpair whose eigenvalue is shared with other
+ * eigenvectors.  As there is more than one eigenvector to the eigenvalue a
+ * constraint is required for each of them.
+ ******************************************************************************/
+static void eigen_derivatives_degenerate(int i, int n_quad, int n_derivs, double **gamma, double *evals_r, double *evals_i, double **evecs, double ***gamma_l, double **evals_r_l, double **evals_i_l, double ***evecs_l, uchar *derivs, double *v1, work_data work) {
+
+     int j;
+     int k;
+     int l;
+
+     int n;
+
+     int i_i;
+
+     int *ii;
+     int *ip;
+
+     double *B;
+
+     double **A;
+
+     ii = get_work_i1(&work, n_quad);
+
+     i_i = 0;
+     n   = 0;
+     for (j = 0; j < n_quad; ++j) {
+          if (evals_i[j] == 0. && fabs(evals_r[i] - evals_r[j]) <= DBL_EPSILON * 1.e5 * fabs(evals_r[i])) {
+               if (j == i)
+                    i_i = n;
+
+               ii[n++] = j;
+          }
+     }
+
+     ip = get_work_i1(&work, n_quad + n);
+     B  = get_work_d1(&work, n_quad + n);
+     A  = get_work_d2(&work, n_quad + n, n_quad + n);
+
+     dmat_zero(A, n_quad + n, n_quad + n);
+
+     for (j = 0; j < n_quad; ++j) {
+          for (k = 0; k < n; ++k) {
+               A[j][k] = evecs[j][ii[k]];
+               A[n_quad + k][n + j] = evecs[j][ii[k]];
+          }
+
+          for (k = 0; k < n_quad; ++k)
+               A[j][n + k] = -gamma[j][k];
+
+          A[j][n + j] += evals_r[i];
+     }
+
+     dmat_getrf(A, n_quad + n, n_quad + n, ip);
+
+     for (j = 0; j < n_quad; ++j)
+          v1[j] = evecs[j][i];
+
+     for (l = 0; l < n_derivs; ++l) {
+          if (! derivs[l])
+               continue;
+
+          dm_v_mul(gamma_l[l], v1, n_quad, n_quad, B);
+
+          for (k = 0; k < n; ++k)
+               B[n_quad + k] = 0.;
+
+          dmat_getrs(A, &B, n_quad + n, 1, ip);
+
+          evals_r_l[l][i] = B[i_i] / (sqrt(evals_r[i]) * 2.);
+          evals_i_l[l][i] = 0.;
+
+          for (k = 0; k < n_quad; ++k)
+               evecs_l[l][k][i] = B[n + k];
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -497,7 +576,7 @@ void eig_1n_gen_complex(int n_quad, int n_derivs,
 /*
                     if (is_dummy_node_eigenvector(i, n_quad, evecs))
 */
-                         zero_eigen_derivs(i, n_quad, n_derivs, evals_r_l, evals_i_l, evecs_l, derivs);
+                         eigen_derivatives_degenerate(i, n_quad, n_derivs, gamma, evals_r, evals_i, evecs, gamma_l, evals_r_l, evals_i_l, evecs_l, derivs, v1, work);
                     else
                          eigen_derivatives_real(i, n_quad, n_derivs, gamma, evals_r, evals_i, evecs, gamma_l, evals_r_l, evals_i_l, evecs_l, derivs, Ar, Br, ip, v1);
 
-- 
2.43.0


From 9e2f08d2281a7c910649b30ecb25d5518bd19060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 022/145] fix: return derivatives of mean radiance and flux

The derivative outputs of xrtm_solution(), xrtm_mean_radiance() and xrtm_flux()
were never written.
---
 src/xrtm_model.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 3e04edf..8544673 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6125,6 +6125,33 @@ static double direct_beam_transmittance(xrtm_data *d, int i_ulevel) {
 
 
 
+static double direct_beam_transmittance_l(xrtm_data *d, int i_ulevel, int i_deriv) {
+
+     int i_level;
+
+     double a;
+     double t;
+     double t_l;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i_level = d->ulevels[i_ulevel];
+
+     if (d->options & XRTM_OPTION_OUTPUT_AT_TAUS) {
+          t   = d->utaus2[i_ulevel];
+          t_l = t * d->ltau_l[i_level][i_deriv] / d->ltau[i_level];
+
+          a = d->btran_l[i_level][i_deriv] - d->btran[i_level] * (t_l * d->as_0[i_level] + t * d->as_0_l[i_level][i_deriv]);
+
+          return a * exp(-t * d->as_0[i_level]);
+     }
+
+     return d->btran_l[i_level][i_deriv];
+}
+
+
+
 static double max_radiance_ratio(double I1, double I2) {
 
      double a;
@@ -6302,6 +6329,20 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               mean_m[j] += d->F_0 * a / (4. * PI);
                     }
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (m = 0; m < d->n_derivs; ++m) {
+                              a = direct_beam_transmittance_l(d, j, m);
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT && mean_p_l)
+                                   mean_p_l[j][m] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_p_l[j][m]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT && mean_m_l) {
+                                   mean_m_l[j][m] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_m_l[j][m]);
+                                   if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                                        mean_m_l[j][m] += d->F_0 * a / (4. * PI);
+                              }
+                         }
+                    }
                }
           }
 
@@ -6320,6 +6361,20 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               flux_m[j] += d->F_0 * d->mu_0 * a;
                     }
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (m = 0; m < d->n_derivs; ++m) {
+                              a = direct_beam_transmittance_l(d, j, m);
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT && flux_p_l)
+                                   flux_p_l[j][m] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_p_l[j][m]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT && flux_m_l) {
+                                   flux_m_l[j][m] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, d->F_0, d->mu_0, a, i_m_l[j][m]);
+                                   if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                                        flux_m_l[j][m] += d->F_0 * d->mu_0 * a;
+                              }
+                         }
+                    }
                }
           }
 
-- 
2.43.0


From 81aa7dbf17123c5c7b86fe74fa17ee0a4799a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:14 +0000
Subject: [PATCH 023/145] fix: use both-ways adding when isotropic boundary
 sources are present

The top-down and bottom-up adding schemes do not carry isotropic boundary
sources through the atmosphere.
---
 src/xrtm_model.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 8544673..6df85a3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5405,6 +5405,32 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
 
 
 
+/*******************************************************************************
+ * The one way adding schemes do not carry the isotropic boundary sources through
+ * the atmosphere.
+ ******************************************************************************/
+static int has_iso_input_for_i_four(xrtm_data *d, int i_four) {
+
+     int i;
+
+     if (i_four != 0)
+          return 0;
+
+     if (d->F_iso_top != 0. || d->F_iso_bot != 0.)
+          return 1;
+
+     if (d->options & XRTM_OPTION_CALC_DERIVS) {
+          for (i = 0; i < d->n_derivs; ++i) {
+               if (d->F_iso_top_l[i] != 0. || d->F_iso_bot_l[i] != 0.)
+                    return 1;
+          }
+     }
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5418,14 +5444,14 @@ static int get_fourier(xrtm_data *d, int i_four, int solver, double **I_p, doubl
       *
       *-----------------------------------------------------------------------*/
      if (solver & XRTM_SOLVERS_ADDING) {
-          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
+          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING && ! has_iso_input_for_i_four(d, i_four)) {
                if (fourier_get_add_top_down(d, i_four, solver, I_p, I_m, I_p_l, I_m_l, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_top_down()\n");
                     return -1;
                }
           }
           else
-          if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING) {
+          if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING && ! has_iso_input_for_i_four(d, i_four)) {
                if (fourier_get_add_bottom_up(d, i_four, solver, I_p, I_m, I_p_l, I_m_l, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_bottom_up()\n");
                     return -1;
-- 
2.43.0


From 37c0e423bbc96be7a1f06eff1c80a1202a643aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 024/145] fix: do not reuse adding stacks with thermal sources

The stack adding sequences do not carry derivatives of layers for which only
the source is linearized.
---
 src/xrtm_model.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 6df85a3..e2c43cf 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4502,6 +4502,19 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
 
 
 
+/*******************************************************************************
+ * The stack adding sequences do not carry derivatives of layers for which only
+ * the source is linearized, which is always possible with thermal emission.
+ ******************************************************************************/
+static int use_stack_reuse_adding(xrtm_data *d) {
+
+     return d->options & XRTM_OPTION_CALC_DERIVS &&
+            d->options & XRTM_OPTION_STACK_REUSE_ADDING &&
+          ! (d->options & XRTM_OPTION_SOURCE_THERMAL);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -4566,7 +4579,7 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
+     if (! use_stack_reuse_adding(d)) {
           if (get_total_BOA_R_S_U_V  (d, i_four, solver, d->I1_m[i_four], I1_m_l, &R_p, &S_m, &R_p_l, &S_m_l, surface, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_BOA_R_S_U_V()\n");
                return -1;
@@ -4691,7 +4704,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
+     if (! use_stack_reuse_adding(d)) {
           if (get_total_TOA_R_S_U_V  (d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, surface, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V()\n");
                return -1;
@@ -4818,8 +4831,7 @@ static int fourier_get_add_both_ways(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) ||
-          ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
+     if (! use_stack_reuse_adding(d)) {
           if (get_total_R_T_S_U_W_V  (d, i_four, solver, &R_p, &T_p, &R_m, &T_m, &S_p, &S_m, &R_p_l, &T_p_l, &R_m_l, &T_m_l, &S_p_l, &S_m_l, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V()\n");
                return -1;
-- 
2.43.0


From 4c38dc27df9ac1429f1bf08da199762e699035b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 025/145] fix: n_stokes == 1 is scalar transport with option
 VECTOR too

A single set of coefficients was read as six, past its end.
---
 src/xrtm_interface.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 2ceee62..d296711 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -950,6 +950,15 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      }
 
 
+     /*-------------------------------------------------------------------------
+      * n_stokes == 1 is scalar transport with a single set of coefficients.
+      *-----------------------------------------------------------------------*/
+     if (d->n_stokes == 1 && d->options & XRTM_OPTION_VECTOR) {
+          d->options &= ~(XRTM_OPTION_VECTOR | XRTM_OPTION_PHASE_MATRIX_GC | XRTM_OPTION_PHASE_MATRIX_LC);
+          d->options |= XRTM_OPTION_PHASE_SCALAR;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 23b088be31c4755a2cd6db78c7fb5e074ed813e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 026/145] fix: track what intermediate results depend on

Layers below a changed layer see another beam, and the boundary sources,
layer sources and totals depend on F_0, levels_b, surface_b, the isotropic
radiances and the output angles.
---
 src/xrtm_interface.c |  9 +++++++--
 src/xrtm_model.c     | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index d296711..dbb43f5 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -439,9 +439,12 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
 /*
           d->dep_flags_beam_params0[i]      |= dep;
 */
-          d->dep_flags_beam_params [i]      |= dep;
      }
 
+     /* The beam reaches a layer through the layers above. */
+     for (i = i_layer; i < d->n_layers; ++i)
+          d->dep_flags_beam_params [i]      |= dep;
+
      for (i = 0; i < d->n_four; ++i) {
           d->dep_flags_total_R_T_S_U_W_V[i] |= dep;
 
@@ -451,8 +454,10 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_phase_vecs_q0    [i][j] |= dep;
                d->dep_flags_phase_vecs_u0    [i][j] |= dep;
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
-               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          for (j = i_layer; j < d->n_layers; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
      }
 }
 
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e2c43cf..10747b3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -189,7 +189,7 @@ void get_delta_m_f(xrtm_data *d, int i_layer, int i_deriv, int n_derivs, double
  ******************************************************************************/
 static int utaus_deps(xrtm_data *d) {
 
-     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF;
+     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF | DEP_MASK_OMEGA;
 }
 
 
@@ -234,7 +234,7 @@ static void update_utaus(xrtm_data *d, work_data work) {
      }
 
      if (d->options & XRTM_OPTION_DELTA_M &&
-         d->dep_flags_utaus & (DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF)) {
+         d->dep_flags_utaus & (DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF | DEP_MASK_OMEGA)) {
           a = 2. * d->n_coef2 + 1.;
 
           for (i = 0; i < d->n_ulevels; ++i) {
@@ -2091,7 +2091,10 @@ static void call_solver
 static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
 
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
-                local_r_t_u_w_deps(d);
+                local_r_t_u_w_deps(d) | DEP_MASK_F_0 | DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
 
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
@@ -2519,9 +2522,11 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
 /*******************************************************************************
  *
  ******************************************************************************/
+static int diff_bound_input_deps(xrtm_data *d);
+
 static int total_R_T_S_U_W_V_deps(xrtm_data *d) {
 
-     return layer_R_T_S_U_W_V_deps(d);
+     return layer_R_T_S_U_W_V_deps(d) | diff_bound_input_deps(d);
 }
 
 
@@ -4173,7 +4178,9 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_UMUS |
+            DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From 304ecb48fce0b1ef9080cd332b3340eb12dd0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 027/145] fix: recompute saved derivatives when the set of
 varied layers changes

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index dbb43f5..c4b6f39 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5384,6 +5384,13 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      }
 
 
+     /*-------------------------------------------------------------------------
+      * Saved derivatives exist only for the layers that varied before.
+      *-----------------------------------------------------------------------*/
+     set_deps(d, DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT_L | DEP_MASK_LEVELS_B_L | DEP_MASK_SURFACE_B_L |
+                 DEP_MASK_G_L | DEP_MASK_COEF_L | DEP_MASK_OMEGA_L | DEP_MASK_LTAU_L | DEP_MASK_BRDF_L, 0, d->n_layers);
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 251c0b1a25060318e516c09d37817bdeb82776f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 028/145] fix: do not reuse layer results saved by another
 adding solver

---
 src/xrtm_interface.c |  2 ++
 src/xrtm_interface.h |  2 ++
 src/xrtm_model.c     | 25 +++++++++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c4b6f39..883e5d4 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1785,6 +1785,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     d->saved_adding_solver = 0;
+
      init_deps(d, DEP_MASK_MASK, 0, d->n_layers);
 
 
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..320b5f4 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -278,6 +278,8 @@ typedef struct {
      int *dep_flags_diff_bound_input;
      int *dep_flags_total_R_T_S_U_W_V;
 
+     int saved_adding_solver;
+
      int **dep_flags_phase_mats_qq;
      int **dep_flags_phase_mats_uq;
      int **dep_flags_phase_vecs_q0;
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 10747b3..164ba24 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5450,6 +5450,29 @@ static int has_iso_input_for_i_four(xrtm_data *d, int i_four) {
 
 
 
+/*******************************************************************************
+ * Layer and total results saved by one adding solver are not those of another.
+ ******************************************************************************/
+static void select_adding_solver(xrtm_data *d, int solver) {
+
+     int i;
+     int j;
+
+     if (solver == d->saved_adding_solver)
+          return;
+
+     for (i = 0; i < d->n_four; ++i) {
+          d->dep_flags_total_R_T_S_U_W_V[i] |= total_R_T_S_U_W_V_deps(d);
+
+          for (j = 0; j < d->n_layers; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= layer_R_T_S_U_W_V_deps(d);
+     }
+
+     d->saved_adding_solver = solver;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5463,6 +5486,8 @@ static int get_fourier(xrtm_data *d, int i_four, int solver, double **I_p, doubl
       *
       *-----------------------------------------------------------------------*/
      if (solver & XRTM_SOLVERS_ADDING) {
+          select_adding_solver(d, solver);
+
           if (d->options & XRTM_OPTION_TOP_DOWN_ADDING && ! has_iso_input_for_i_four(d, i_four)) {
                if (fourier_get_add_top_down(d, i_four, solver, I_p, I_m, I_p_l, I_m_l, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_top_down()\n");
-- 
2.43.0


From 79a631ad372841efba22d043aa46f34fe2fa1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 029/145] fix: single scattering without a beam still transmits
 boundary radiances

---
 src/xrtm_single.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_single.c b/src/xrtm_single.c
index 62c7698..efb2565 100644
--- a/src/xrtm_single.c
+++ b/src/xrtm_single.c
@@ -159,10 +159,16 @@ void single_scattered_radiance_up(int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          /* no beam: what enters at the boundary is still transmitted */
+          F_0   = 1.;
+
+          btran = get_work_d1(&work, n_layers + 1);
+          init_array1_d(btran, n_layers + 1, 0.);
+
+          if (n_derivs > 0) {
+               btran_l = get_work_d2(&work, n_layers + 1, n_derivs);
+               init_array2_d(btran_l, n_layers + 1, n_derivs, 0.);
+          }
      }
 
 
@@ -447,10 +453,16 @@ void single_scattered_radiance_dn(int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          /* no beam: what enters at the boundary is still transmitted */
+          F_0   = 1.;
+
+          btran = get_work_d1(&work, n_layers + 1);
+          init_array1_d(btran, n_layers + 1, 0.);
+
+          if (n_derivs > 0) {
+               btran_l = get_work_d2(&work, n_layers + 1, n_derivs);
+               init_array2_d(btran_l, n_layers + 1, n_derivs, 0.);
+          }
      }
 
 
-- 
2.43.0


From fc0496dd5a43f40eb8a1d90e24576abd08250e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 030/145] fix: two orders of scattering returns its radiance
 only for the top level

---
 src/xrtm_two_os.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 003095e..4df9744 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -753,9 +753,12 @@ if (0) {
           }
      }
 
-     dvec_copy(I_p[0]+offset, i_p[i][0], n_xmus_v);
-     for (j = 0; j < n_derivs; ++j)
-          dvec_copy(I_p_l[0][j]+offset, i_p_l[i][0][j], n_xmus_v);
+     /* only the upward radiance at the top is computed */
+     if (ulevels[0] == 0) {
+          dvec_copy(I_p[0]+offset, i_p[i][0], n_xmus_v);
+          for (j = 0; j < n_derivs; ++j)
+               dvec_copy(I_p_l[0][j]+offset, i_p_l[i][0][j], n_xmus_v);
+     }
 /*
      dvec_add(I_p[0]+offset, i_p[i][0], I_p[0]+n_quad_v_x, n_xmus_v);
      for (j = 0; j < n_derivs; ++j)
-- 
2.43.0


From 81715921cc18b8644e8e135abc96b6a419f36603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 031/145] fix: doubling with zero emission at the top of a
 layer

---
 src/xrtm_doub_rts.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index 2a62d06..432c048 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -197,28 +197,24 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
      }
 
      if (thermal) {
-          if (planck0 == 0.)
-               lin_fac = 0.;
-          else
-               lin_fac = (planck1 / planck0 - 1.) / pow(2., n_doub);
+          /* L_p and L_m are for unit emission so that planck0 may be zero */
+          lin_fac = (planck1 - planck0) / pow(2., n_doub);
 
           if (flags_or(derivs_thermal, n_derivs)) {
                for (i = 0; i < n_derivs; ++i) {
-                    if (derivs_thermal[i]) {
-                         if (planck0 == 0.)
-                              lin_fac_l[i] = 0.;
-                         else
-                              lin_fac_l[i] = (planck1_l[i] - planck1 * planck0_l[i] / planck0) / planck0 / pow(2., n_doub);
-                    }
+                    if (derivs_thermal[i])
+                         lin_fac_l[i] = (planck1_l[i] - planck0_l[i]) / pow(2., n_doub);
                }
           }
 
-          c = (1. - omega) * planck0 * d_tau;
+          c = (1. - omega) * d_tau;
           for (i = 0; i < n_quad_v; ++i)
                v1[i] = (i % n_stokes == 0) ? c : 0.;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-          dvec_copy(Sl_p, v1, n_quad_v);
-          dvec_copy(Sl_m, v1, n_quad_v);
+          dvec_copy(L_p, v1, n_quad_v);
+          dvec_copy(L_m, v1, n_quad_v);
+          dvec_scale(planck0, L_p, Sl_p, n_quad_v);
+          dvec_scale(planck0, L_m, Sl_m, n_quad_v);
      }
 if (solar) {
      if (flags_or(derivs_beam, n_derivs)) {
@@ -253,6 +249,13 @@ if (thermal) {
      if (flags_or(derivs_thermal, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
                if (derivs_layers[i]) {
+                    d = - omega_l[i] * d_tau + (1. - omega) * d_tau_l[i];
+                    for (j = 0; j < n_quad_v; ++j)
+                         v1[j] = (j % n_stokes == 0) ? d : 0.;
+                    dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
+                    dvec_copy(L_p_l[i], v1, n_quad_v);
+                    dvec_copy(L_m_l[i], v1, n_quad_v);
+
                     d =     - omega_l[i] * planck0      * d_tau +
                         (1. - omega)     * planck0_l[i] * d_tau +
                         (1. - omega)     * planck0      * d_tau_l[i];
@@ -264,6 +267,9 @@ if (thermal) {
                }
                else
                if (derivs_thermal[i]) {
+                    dvec_zero(L_p_l[i], n_quad_v);
+                    dvec_zero(L_m_l[i], n_quad_v);
+
                     d = (1. - omega)     * planck0_l[i] * d_tau;
                     for (j = 0; j < n_quad_v; ++j)
                          v1[j] = (j % n_stokes == 0) ? d : 0.;
@@ -282,15 +288,15 @@ if (thermal) {
      for (i = 0; i < n_doub; ++i) {
           if (! symmetric) {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
           else {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
 
           if (solar) {
-- 
2.43.0


From 7a2699a657d6b6351c44a7ce92e1cdd8fe471f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 032/145] fix: emission of a layer that does not scatter

---
 src/xrtm_model.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 164ba24..0ba9291 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2129,6 +2129,8 @@ static int get_layer_R_T_S_U_W_V
 
      int deps;
 
+     int no_scatter;
+
      double b0;
      double b1;
 
@@ -2276,7 +2278,13 @@ static int get_layer_R_T_S_U_W_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
+     no_scatter = i_four >= d->n_coef_layer[i_layer];
+
+     /* emission needs the full solution */
+     if (d->omega[i_layer] == 0. && ! (d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0))
+          no_scatter = 1;
+
+     if (no_scatter)
           no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
 
 
-- 
2.43.0


From a44275d731cfda7b2fb499d92176f7adf0e53f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 033/145] fix: direct_and_diffuse kernel applies its user angle
 parameters without SFI too

---
 src/xrtm_brdf.c | 16 +++++++++++++---
 src/xrtm_brdf.h |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index f94d883..cf8b882 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -139,6 +139,8 @@ void brdf_aux_calc_base(brdf_aux_data *aux, int n_quad, double *qx, int n_kernel
 
      int i;
 
+     aux->n_quad = n_quad;
+
      for (i = 0; i < n_quad; ++i)
           aux->cos_theta[i] = qx[i];
 
@@ -347,7 +349,15 @@ static void direct_and_diffuse_aux(brdf_aux_data *aux, void *aux2, int i, int j,
 
 
 
-static double direct_diffuse_param(enum xrtm_brdf_geometry brdf_geom, double *p) {
+static double direct_diffuse_param(brdf_aux_data *aux, enum xrtm_brdf_geometry brdf_geom, int j, double *p) {
+
+     /* without SFI the user angles are appended to the quadrature angles */
+     if (j >= aux->n_quad) {
+          if (brdf_geom == XRTM_BRDF_GEOMETRY_QQ)
+               brdf_geom = XRTM_BRDF_GEOMETRY_UQ;
+          else if (brdf_geom == XRTM_BRDF_GEOMETRY_Q0)
+               brdf_geom = XRTM_BRDF_GEOMETRY_U0;
+     }
 
      switch(brdf_geom) {
           case XRTM_BRDF_GEOMETRY_QQ:
@@ -371,12 +381,12 @@ static double direct_and_diffuse_kernel(brdf_aux_data *aux, void *aux2, enum xrt
      if (flags_or(derivs, n_derivs)) {
           for (ii = 0; ii < n_derivs; ++ii) {
                if (derivs[ii]) {
-                    f_l[ii] = direct_diffuse_param(brdf_geom, p_l[ii]);
+                    f_l[ii] = direct_diffuse_param(aux, brdf_geom, j, p_l[ii]);
                }
           }
      }
 
-     return direct_diffuse_param(brdf_geom, p);
+     return direct_diffuse_param(aux, brdf_geom, j, p);
 }
 
 
diff --git a/src/xrtm_brdf.h b/src/xrtm_brdf.h
index a304546..f74938b 100644
--- a/src/xrtm_brdf.h
+++ b/src/xrtm_brdf.h
@@ -54,6 +54,7 @@ typedef struct {
      double *cos_phi;
      double *sin_phi;
      double *sin_phi2;
+     int n_quad;
 } brdf_aux_data;
 
 
-- 
2.43.0


From 4292a601f5b3f97f6314ec68b13a436d7c55e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:49 +0000
Subject: [PATCH 034/145] fix: two orders of scattering scales the surface
 reflection of the beam with the quadrature normalization

Every other solver multiplies the reflection of the direct beam by qf, which
differs from one for the normal Gauss-Legendre quadrature; rtm_two_os() was
given qf but did not use it, so that direct and diffuse surface reflection
disagreed.
---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 4df9744..b55e401 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -368,12 +368,12 @@ if (0)
                init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
      }
      else {
-          dvec_copy(i_p[0][n_layers], Rs_q0, n_quad_v_x);
+          dvec_scale(qf, Rs_q0, i_p[0][n_layers], n_quad_v_x);
           for (j = 0; j < n_derivs; ++j) {
                if (! derivs->layers[n_layers][j])
                     init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
                else
-                    dvec_copy(i_p_l[0][n_layers][j], Rs_q0_l[j], n_quad_v_x);
+                    dvec_scale(qf, Rs_q0_l[j], i_p_l[0][n_layers][j], n_quad_v_x);
           }
      }
 
-- 
2.43.0


From e35d0a45b4b2c839f2be530c8b6ac4796185b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 035/145] fix: getters check indices before using them

xrtm_get_g(), xrtm_get_n_coef(), xrtm_get_coef(), xrtm_get_omega(),
xrtm_get_ltau(), xrtm_get_kernel_ampfac() and xrtm_get_kernel_params() read the
set flag of an element before the range check of its index.
---
 src/xrtm_interface.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 883e5d4..f466679 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3931,10 +3931,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4152,10 +4152,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4168,9 +4168,10 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
+
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
 
-     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
@@ -4386,10 +4387,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4537,10 +4538,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4656,10 +4657,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4721,14 +4722,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From 958944d5a78021bbdaaa3dd3ce6dc5390feb4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 036/145] fix: errors are reported with the documented
 constants

xrtm_get_theta_0(), xrtm_get_surface_b() and xrtm_get_surface_b_l() returned
XRTM_INT_ERROR as a double, and the setters of linearized inputs without
XRTM_OPTION_CALC_DERIVS and the solving functions with missing inputs -1.
---
 src/xrtm_interface.c | 6 +++---
 src/xrtm_support.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f466679..4697dd9 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3601,7 +3601,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3794,7 +3794,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3849,7 +3849,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..37e86ae 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
-- 
2.43.0


From 561b83b0665111c0a308d572301589d5d31aaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 037/145] fix: xrtm_get_kernel() rejects negative indices

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 4697dd9..37e33de 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2805,7 +2805,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
-- 
2.43.0


From 9f290e787dbeafe50357814d093760f6c6f5d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 038/145] fix: rejected phase function coefficients and optical
 depths change nothing

xrtm_set_coef_1(), xrtm_set_coef_n() and xrtm_set_out_taus() stored the elements
before the invalid one, without marking what depends on them as out of date.
---
 src/xrtm_interface.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 37e33de..bb4e516 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3251,9 +3251,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
@@ -4067,6 +4068,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4077,13 +4087,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From e1fa07a3f49e0d100d25a699931bb651c886ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 039/145] fix: the table of input names has an entry for
 kernel_funcs

A missing comma joined it to kernel_params_l, so that reporting a kernel function
that is not set read beyond the table.
---
 src/xrtm_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index bb4e516..fcfe5b4 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
@@ -261,7 +261,8 @@ static long xrtm_input_types[] = {
      INPUT_KERNEL_AMPFAC,
      INPUT_KERNEL_AMPFAC_L,
      INPUT_KERNEL_PARAMS,
-     INPUT_KERNEL_PARAMS_L
+     INPUT_KERNEL_PARAMS_L,
+     INPUT_KERNEL_FUNCS
 };
 
 
-- 
2.43.0


From 85cd12ac20e8024c837b9db13f17a7e39b5f7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:30 +0000
Subject: [PATCH 040/145] fix: the set flags of the kernel functions are freed
 with the others after the first solution

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index fcfe5b4..f6fd51e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2595,6 +2595,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From 6cb507f8941e413e6e2eedfcee1612afdd93313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 041/145] fix: a vector layer with a single expansion
 coefficient does not write past its basis matrices

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 44d1fb9..4d98366 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From 0f8f1d0c8582c5ddcfc15cb90c414a95c10c7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 042/145] fix: a list of names is cut at the end of its buffer

---
 misc/gindex_name_value.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..00f698a 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -164,18 +164,16 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
 
      n = 0;
 
+     s[0] = '\0';
+
      flag = 0;
-     for (i = 0; i < n_values; ++i) {
+     for (i = 0; i < n_values && n < length; ++i) {
           if (mask & values[i]) {
-               if (flag)
-                    n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               n += snprintf(s + n, length - n, "%s%s", flag ? "," : "", names[i]);
                flag = 1;
           }
      }
 
-     s[n] = '\0';
-
      return s;
 }
 
-- 
2.43.0


From 0807468965f914b8b34b8455d7f3655705b24234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 043/145] fix: a list of option names may hold the name of the
 highest option

---
 misc/gindex_name_value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 00f698a..887a565 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -184,8 +184,8 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
-- 
2.43.0


From c3c41adc5d6a1abd44d01804c8373e014b87e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 044/145] fix: eigen solver names match the eigen solvers that
 were built

---
 src/xrtm_support.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_support.c b/src/xrtm_support.c
index 57f926a..841c426 100644
--- a/src/xrtm_support.c
+++ b/src/xrtm_support.c
@@ -17,8 +17,12 @@
  *
  ******************************************************************************/
 static const char *eigen_solver_gen_real_names[] = {
+#ifdef HAVE_FORTRAN_COMPILER
      "asymtx",
+#endif
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -40,7 +44,9 @@ GINDEX_NAME_VALUE_TEMPLATE(eigen_solver_gen_real, "eigen solver general real", N
 
 
 static const char *eigen_solver_gen_complex_names[] = {
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
-- 
2.43.0


From 3ff02607506ad1c30a6f68c10a141f0bd7754a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 045/145] fix: source function integration does not read output
 levels past the last one

---
 src/xrtm_sfi_x.c      | 4 ++--
 src/xrtm_two_stream.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index d825a5b..aedc209 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1006,7 +1006,7 @@ static void SFI(int i_four,
 
           for (i = i1; i != i2; i += inc) {
 
-               if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+               if (utau_output) {
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
@@ -1065,7 +1065,7 @@ static void SFI(int i_four,
 
           for (i = i1; i != i2; i += inc) {
 
-               if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+               if (utau_output) {
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..55cf05a 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1698,7 +1698,7 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
       *-----------------------------------------------------------------------*/
      for (i = i1; i != i2; i += inc) {
 
-          if ((! flag && utau_output && i == ulevels[i_out_level]) || (flag && utau_output && i == ulevels[i_out_level])) {
+          if (utau_output) {
                while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                     ptau = utaus[i_out_level];
 
-- 
2.43.0


From 9bbe2dbae68859844ac4d36612ca23426c6ea148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 046/145] fix: doubling derivatives of a layer below a changed
 one include its first sublayer's beam

---
 src/xrtm_doub_rts.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index 432c048..aba7c45 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -239,8 +239,16 @@ if (solar) {
                }
                else
                if (derivs_beam[i]) {
-                    dvec_zero(S_p_l[i], n_quad_v);
-                    dvec_zero(S_m_l[i], n_quad_v);
+                    c = a * omega * d_tran_l[i] * d_tau;
+
+                    dm_v_dinv_mul(qx_v, P_q0_pm, S_p_l[i], n_quad_v);
+                    dvec_scale(c, S_p_l[i], S_p_l[i], n_quad_v);
+
+                    dm_v_dinv_mul(qx_v, P_q0_mm, S_m_l[i], n_quad_v);
+                    dvec_scale(c, S_m_l[i], S_m_l[i], n_quad_v);
+
+                    if (vector)
+                         dm_v_mul_D_A(n_quad, n_stokes, S_m_l[i], S_m_l[i]);
                }
           }
      }
-- 
2.43.0


From 728b2e6464b00e07914be34982ecdf4504ac8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:58 +0000
Subject: [PATCH 047/145] fix: an input file can be read after an input string

---
 utils/input_util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 311d7fd..a73b6bf 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2339,6 +2339,8 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
           file = filename;
      }
 
+     yyrestart(yyin);
+
      input_init(&input, d, fd, md, use_aligned, use_array2, use_dash, use_equal, file);
 
      input_parse(&input);
-- 
2.43.0


From c73350f4ae15319d8c6a86d2c34354d812f5a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 048/145] fix: unknown option and solver names in an input are
 refused

---
 utils/callxrtm.c   |  2 +-
 utils/input_util.c | 34 ++++++++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 134e3f4..212299b 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -200,7 +200,7 @@ int main(int argc, char *argv[]) {
                     o.flux_divergence = 1;
                else if (strcmp(argv[i], "-solver") == 0) {
                     check_arg_count(i, argc, 1, argv[i]);
-                    if ((solver = xrtm_solver_name_to_mask(argv[++i])) == 0) {
+                    if ((solver = xrtm_solver_name_to_mask(argv[++i])) <= 0) {
                          printf("ERROR: xrtm_solver_name_to_mask()\n");
                          exit(1);
                     }
diff --git a/utils/input_util.c b/utils/input_util.c
index a73b6bf..a3ff2dd 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -434,7 +434,7 @@ static long xrtm_string_list_to_mask(input_data *input, fdclist *list, long (*na
 
      if ((elem = first = fdclist_first(list))) {
           do {
-               if ((mask = name_to_mask(fdcelem_value(elem).d.s)) == 0)
+               if ((mask = name_to_mask(fdcelem_value(elem).d.s)) <= 0)
                     return -1;
                options |= mask;
           } while ((elem = fdcelem_advance(elem)) != first);
@@ -463,7 +463,7 @@ static long *xrtm_string_list_to_vector(input_data *input, fdclist *list, long (
      if ((elem = first = fdclist_first(list))) {
           i = 0;
           do {
-               if ((mask = name_to_mask(fdcelem_value(elem).d.s)) == 0)
+               if ((mask = name_to_mask(fdcelem_value(elem).d.s)) <= 0)
                     return NULL;
                options[i++] = mask;
           } while ((elem = fdcelem_advance(elem)) != first);
@@ -498,16 +498,38 @@ static fdclist *xrtm_mask_to_string_list(input_data *input, long options, int (*
 
 
 
+static long option_name_to_mask(const char *name) {
+
+     enum xrtm_option_mask mask;
+
+     mask = xrtm_option_name_to_mask(name);
+
+     return mask == (enum xrtm_option_mask) -1 ? -1 : (long) mask;
+}
+
+
+
+static long solver_name_to_mask(const char *name) {
+
+     enum xrtm_solver_mask mask;
+
+     mask = xrtm_solver_name_to_mask(name);
+
+     return mask == (enum xrtm_solver_mask) -1 ? -1 : (long) mask;
+}
+
+
+
 static long xrtm_string_list_to_options_mask(input_data *input, fdclist *list) {
 
-     return xrtm_string_list_to_mask(input, list, (long (*)(const char*)) xrtm_option_name_to_mask);
+     return xrtm_string_list_to_mask(input, list, option_name_to_mask);
 }
 
 
 
 static long *xrtm_string_list_to_options_vector(input_data *input, fdclist *list) {
 
-     return xrtm_string_list_to_vector(input, list, (long (*)(const char*)) xrtm_option_name_to_mask);
+     return xrtm_string_list_to_vector(input, list, option_name_to_mask);
 }
 
 
@@ -521,14 +543,14 @@ static fdclist *xrtm_options_mask_to_string_list(input_data *input, long options
 
 static long xrtm_string_list_to_solvers_mask(input_data *input, fdclist *list) {
 
-     return xrtm_string_list_to_mask(input, list, (long (*)(const char*)) xrtm_solver_name_to_mask);
+     return xrtm_string_list_to_mask(input, list, solver_name_to_mask);
 }
 
 
 
 static long *xrtm_string_list_to_solvers_vector(input_data *input, fdclist *list) {
 
-     return xrtm_string_list_to_vector(input, list, (long (*)(const char*)) xrtm_solver_name_to_mask);
+     return xrtm_string_list_to_vector(input, list, solver_name_to_mask);
 }
 
 
-- 
2.43.0


From b4c2cbc50f3171b86c4b0b5753713e2d4e9440f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 049/145] fix: coefficient perturbations of an input go to the
 finite difference model

---
 utils/input_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index a3ff2dd..50369fa 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1004,7 +1004,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
-          if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
+          if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
                exit(1);
           }
@@ -1018,7 +1018,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x3 = parse_coef_2(input, n_layers, n_elem, n_coef);
-          if (xrtm_set_coef_l_n1(input->d, dimens[1], x3)) {
+          if (xrtm_set_coef_x_n1(d, dimens[1], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_n1()", type);
                exit(1);
           }
@@ -1034,7 +1034,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
+          if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
                exit(1);
           }
@@ -1050,7 +1050,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_nn(input->d, x4)) {
+          if (xrtm_set_coef_x_nn(d, x4)) {
                input_error(&input->locus, "xrtm_set_coef_%s_nn()", type);
                exit(1);
           }
-- 
2.43.0


From 1d2aae4e22605cce7840e5ec8fd6564bed01f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 050/145] fix: coefficient file names for all layers are read
 one per layer

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 50369fa..8ae00f2 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1233,7 +1233,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
 
-          n_layers = xrtm_get_n_derivs(input->d);
+          n_layers = xrtm_get_n_layers(input->d);
 
           x1 = parse_array1_string(input, n_layers);
 
-- 
2.43.0


From 7fc745c290cbc7a4b47469cda9c7dd07613040ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 051/145] fix: coefficient file names of a finite difference
 input have room

---
 utils/input_util.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 8ae00f2..c9d4949 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -73,6 +73,10 @@ input_type_data list_null = {NULL, 0, INPUT_TYPE_VOID, 0, {0, 0, 0, 0}, {NULL}};
 /*******************************************************************************
  *
  ******************************************************************************/
+static void misc_init2(xrtm_data *d, misc_data *md, int fd_method, int n_derivs);
+
+
+
 static input_type_data input_type_strdup(input_data *input, const char *s) {
 
      input_type_data input_type;
@@ -2047,7 +2051,7 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           }
      }
 
-     misc_init(input->d, input->md, fd_method);
+     misc_init2(input->d, input->md, fd_method, flag ? n_derivs3 : n_derivs2);
 
      free_array1_i(kernels);
 
@@ -2268,13 +2272,13 @@ static void input_free(input_data *input) {
 /*******************************************************************************
  *
  ******************************************************************************/
-void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
+static void misc_init2(xrtm_data *d, misc_data *md, int fd_method, int n_derivs) {
 
      int i;
      int j;
 
      md->n_layers = xrtm_get_n_layers(d);
-     md->n_derivs = xrtm_get_n_derivs(d);
+     md->n_derivs = n_derivs;
 
      md->fd_method = fd_method;
 
@@ -2295,6 +2299,13 @@ void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
 
 
 
+void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
+
+     misc_init2(d, md, fd_method, xrtm_get_n_derivs(d));
+}
+
+
+
 void misc_free(misc_data *md) {
 
      int i;
-- 
2.43.0


From e3428ce60901f6665f8cd4a9bf67d3da5cedbaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 052/145] fix: input errors before the first statement and with
 '%' in a file name are reported

---
 utils/input_util.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index c9d4949..17809ea 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -26,23 +26,17 @@
  ******************************************************************************/
 void input_error(locus_data *locus, const char *s, ...) {
 
-     char *format;
-
-     size_t size;
-
      va_list ap;
 
-     size = 7 + strlen(locus->file) + 1 + 16 + 1 + strlen(locus->statement) + 2 + strlen(s) + 2 + 1;
-
-     format = (char *) malloc(size);
-
-     snprintf(format, size, "ERROR: %s:%d:%s, %s\n", locus->file, locus->line, locus->statement, s);
+     fprintf(stderr, "ERROR: %s:%d:%s, ", locus->file, locus->line, locus->statement);
 
      va_start(ap, s);
 
-     vfprintf(stderr, format, ap);
+     vfprintf(stderr, s, ap);
 
      va_end(ap);
+
+     fprintf(stderr, "\n");
 }
 
 
@@ -2259,6 +2253,8 @@ static void input_init(input_data *input, xrtm_data *d, xrtm_fd_data *fd, misc_d
 
      input->locus.file   = file;
      input->locus.line   = 1;
+
+     input->locus.statement = "";
 }
 
 
-- 
2.43.0


From 268f510ac8a9a01ccd51d91d3298db20e46fab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 053/145] fix: an input statement with too many dimensions is
 refused

---
 utils/input_util.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 17809ea..c679b86 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -132,7 +132,7 @@ static void copy_dimens(int *dimens2, int *dimens1, int n) {
 
 static int parse_scaler_int(input_data *input);
 
-static int dimens_parse(input_data *input, int *dimens) {
+static int dimens_parse2(input_data *input, int *dimens, int max) {
 
      int r;
 
@@ -145,6 +145,11 @@ static int dimens_parse(input_data *input, int *dimens) {
           return  0;
      }
      else {
+          if (max <= 0) {
+               input_error(&input->locus, "too many dimensions");
+               exit(1);
+          }
+
           r = yylex(&input->locus, &data);
 
           if (r == ':')
@@ -161,12 +166,19 @@ static int dimens_parse(input_data *input, int *dimens) {
                exit(1);
           }
 
-          return 1 + dimens_parse(input, dimens + 1);
+          return 1 + dimens_parse2(input, dimens + 1, max - 1);
      }
 }
 
 
 
+static int dimens_parse(input_data *input, int *dimens) {
+
+     return dimens_parse2(input, dimens, MAX_DIMENS);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
-- 
2.43.0


From cd66fcb8ede59dfed820419679eb845d68fba044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 054/145] fix: an input with fewer kernels than n_kernels is
 refused

---
 utils/input_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index c679b86..792d204 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1940,6 +1940,8 @@ static void input_parse1(input_data *input) {
      int n_derivs2;
      int n_derivs3;
 
+     int n_kernels2    = 0;
+
      int flag = 0;
 
      int fd_method = -1;
@@ -2011,6 +2013,7 @@ static void input_parse1(input_data *input) {
                          input_error(&input->locus, "invalid kernel string");
                          exit(1);
                     }
+                    n_kernels2 = fdclist_count(list);
                     fdclist_free(list);
                     break;
                case XRTM_INPUT_N_OUT_LEVELS:
@@ -2038,6 +2041,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           exit(1);
      }
 
+     if (n_kernels > n_kernels2) {
+          fprintf(stderr, "ERROR: number of kernels given is less than n_kernels\n");
+          exit(1);
+     }
+
      if (! flag)
           n_derivs2 = n_derivs;
      else {
-- 
2.43.0


From 66e45cc94d645e49be0f07660301848ce32fc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 055/145] fix: kernel parameters of a kernel that does not
 exist are refused

---
 utils/input_util.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 792d204..f92b883 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1441,6 +1441,21 @@ static void parse_kernel_ampfac_l(input_data *input, void *d, int n_derivs, cons
 
 
 
+static int get_kernel_n_params(input_data *input, int i_kernel) {
+
+     int kernel;
+     int n_params;
+
+     if ((kernel = xrtm_get_kernel(input->d, i_kernel)) < 0 || (n_params = kernel_n_params((enum xrtm_kernel_type) kernel)) < 0) {
+          input_error(&input->locus, "invalid kernel: %d", i_kernel);
+          exit(1);
+     }
+
+     return n_params;
+}
+
+
+
 static void parse_kernel_params(input_data *input) {
 
      int n;
@@ -1470,7 +1485,7 @@ static void parse_kernel_params(input_data *input) {
      else
      if (n == 1 || (n == 2 && dimens[1] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = get_kernel_n_params(input, dimens[0]);
           if (n_params == 0) {
                input_error(&input->locus, "kernel %d requires no parameters\n", dimens[0]);
                exit(1);
@@ -1525,7 +1540,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
      else
      if ((n == 2 && dimens[1] > -1) || (n == 3 && dimens[1] > -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = get_kernel_n_params(input, dimens[0]);
           x1 = parse_array1_double(input, n_params);
           if (xrtm_set_kernel_params_x_1n(d, dimens[0], dimens[1], x1)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_1n()", type);
@@ -1536,7 +1551,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
      else
      if ((n == 1) || (n == 2 && dimens[1] == -1 && dimens[2] == -1) || (n == 2 && dimens[1]) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = get_kernel_n_params(input, dimens[0]);
           x2 = parse_array2_double(input, n_derivs, n_params);
           if (xrtm_set_kernel_params_x_nn(d, dimens[0], x2)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_nn()", type);
-- 
2.43.0


From 220797e089993522a3e31b0134d9815b63fa564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 056/145] fix: coefficient counts out of range and derivatives
 before their coefficients are refused

---
 utils/input_util.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index f92b883..63dfd37 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -927,6 +927,20 @@ static double ****parse_coef_3(input_data *input, int n_x, int n_y, int n_elem,
 
 
 
+static int get_n_coef(input_data *input, int i_layer) {
+
+     int n_coef;
+
+     if ((n_coef = xrtm_get_n_coef(input->d, i_layer)) < 0) {
+          input_error(&input->locus, "xrtm_get_n_coef()");
+          exit(1);
+     }
+
+     return n_coef;
+}
+
+
+
 static void parse_coef(input_data *input) {
 
      int i;
@@ -950,6 +964,10 @@ static void parse_coef(input_data *input) {
      if (n == 1 && dimens[0] > -1) {
           parse_equal(input);
           n_coef = parse_scaler_int(input);
+          if (n_coef < 1 || n_coef > xrtm_get_max_coef(input->d)) {
+               input_error(&input->locus, "invalid number of coefficients: %d", n_coef);
+               exit(1);
+          }
           parse_comma(input);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_1(input->d, dimens[0], n_coef, x2)) {
@@ -1012,7 +1030,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
 
      if (n == 2 && dimens[0] > -1 && dimens[1] > -1) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef(input, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
@@ -1042,7 +1060,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
      else
      if ((n == 1 && dimens[0] > -1) || (n == 2 && dimens[0] > -1 && dimens[1] == -1)) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef(input, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
           if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
@@ -1214,7 +1232,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           x = parse_scaler_string(input);
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef(input, dimens[0]);
 
           if ((n_coef2 = load_scat_coefs2(x, n_coef_layer, n_coef, &coef, &flag)) < 0) {
                fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", dimens[0], dimens[1]);
@@ -1250,7 +1268,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef1 = (double ***) alloc_array1(n_layers, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef(input, i);
 
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
                     fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", i, dimens[1]);
@@ -1289,7 +1307,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           coef1 = (double ***) alloc_array1(n_derivs, sizeof(double **));
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef(input, dimens[0]);
 
           for (i = 0; i < n_derivs; ++i) {
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
@@ -1332,7 +1350,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef2 = (double ****) alloc_array2(n_layers, n_derivs, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef(input, i);
 
                for (j = 0; j < n_derivs; ++j) {
                     if ((n_coef2 = load_scat_coefs2(x2[i][j], n_coef_layer, n_coef, &coef2[i][j], &flag)) < 0) {
-- 
2.43.0


From ccb6b11396ace0419dde8fdd0b0aec4e8069c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 057/145] fix: finite difference inputs without a finite
 difference model are refused

---
 utils/input_util.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 63dfd37..a5e8133 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1988,6 +1988,10 @@ static void input_parse1(input_data *input) {
                case INPUT_OPTION_FD:
                     parse_equal(input);
                     fd_method = parse_scaler_int(input);
+                    if (fd_method < 0 || fd_method >= N_XRTM_FD_METHOD_TYPES) {
+                         input_error(&input->locus, "invalid finite difference method: %d", fd_method);
+                         exit(1);
+                    }
                     flag = 1;
                     break;
                case XRTM_INPUT_OPTIONS:
@@ -2058,7 +2062,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_L) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_P) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
@@ -2123,6 +2127,11 @@ static void input_parse2(input_data *input) {
           n_derivs = xrtm_fd_get_n_derivs(input->fd);
 
      while ((r = yylex(&input->locus, &lex_type))) {
+          if (r >= XRTM_INPUT_DELTA && r <= XRTM_INPUT_KERNEL_PARAMS_P && input->md->fd_method < 0) {
+               input_error(&input->locus, "finite difference input without \"fd\"");
+               exit(1);
+          }
+
           switch(r) {
                case XRTM_INPUT_DOUB_D_TAU:
                     parse_scaler_param_double(input, "doub_d_tau", xrtm_set_doub_d_tau);
-- 
2.43.0


From 430d32d7f133e861fba538805515696d7b27acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 058/145] fix: all of a four dimensional input array is freed

---
 utils/parse_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/parse_data.h b/utils/parse_data.h
index 51b1e75..aeb0dfe 100644
--- a/utils/parse_data.h
+++ b/utils/parse_data.h
@@ -282,7 +282,7 @@ void XCAT(free_array4_, FILE_NAME)(C_TYPE ****array, int m, int n, int o, int p)
      dimens[0] = m;
      dimens[1] = n;
      dimens[2] = o;
-     dimens[3] = o;
+     dimens[3] = p;
 
      XCAT(free_array_, FILE_NAME)(array, 4, dimens);
 }
-- 
2.43.0


From a080f150472fb9c9150de140a5293b0c223daa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 059/145] fix: negative values are written to an input

---
 utils/input_util.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index a5e8133..ddbe179 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1678,7 +1678,7 @@ static int print_array_param_double(FILE *fp, format_data *f, xrtm_data *d, cons
 
      x1 = alloc_array1_d(n);
 
-     if (xrtm_get_x(d, x1) == XRTM_DBL_ERROR) {
+     if (xrtm_get_x(d, x1) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_get_x()\n");
           return -1;
      }
@@ -2564,7 +2564,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
           fprintf(fp, ":: ");
 
      if (solvers & XRTM_SOLVERS_DOUBLING) {
-          if ((x = xrtm_get_doub_d_tau(d)) < 0.) {
+          if ((x = xrtm_get_doub_d_tau(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
                return -1;
           }
@@ -2587,14 +2587,14 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
           print_lhs(fp, &f, "sos_params"); fprintf(fp, "%d, %e, %e%c", i, x, y, f.nl);
      }
 
-     if ((x = xrtm_get_fourier_tol(d)) < 0.) {
+     if ((x = xrtm_get_fourier_tol(d)) == XRTM_DBL_ERROR) {
           fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
           return -1;
      }
      print_lhs(fp, &f, "fourier_tol"); fprintf(fp, "%e%c", x, f.nl);
 
      if (options & XRTM_OPTION_SOURCE_THERMAL) {
-          if ((x = xrtm_get_lambda(d)) < 0.) {
+          if ((x = xrtm_get_lambda(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
                return -1;
           }
@@ -2602,7 +2602,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
 
      if (options & XRTM_OPTION_PSA) {
-          if ((x = xrtm_get_planet_r(d)) < 0.) {
+          if ((x = xrtm_get_planet_r(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
                return -1;
           }
@@ -2635,13 +2635,13 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
           }
      }
 
-     if ((x = xrtm_get_F_iso_top(d)) < 0.) {
+     if ((x = xrtm_get_F_iso_top(d)) == XRTM_DBL_ERROR) {
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
           return -1;
      }
      print_lhs(fp, &f, "F_iso_top"); fprintf(fp, "%e%c", x, f.nl);
 
-     if ((x = xrtm_get_F_iso_bot(d)) < 0.) {
+     if ((x = xrtm_get_F_iso_bot(d)) == XRTM_DBL_ERROR) {
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
           return -1;
      }
@@ -2649,19 +2649,19 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
 
 
      if (options & XRTM_OPTION_SOURCE_SOLAR) {
-          if ((x = xrtm_get_F_0(d)) < 0.) {
+          if ((x = xrtm_get_F_0(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
                return -1;
           }
           print_lhs(fp, &f, "F_0"); fprintf(fp, "%e%c", x, f.nl);
 
-          if ((x = xrtm_get_theta_0(d)) < 0.) {
+          if ((x = xrtm_get_theta_0(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
                return -1;
           }
           print_lhs(fp, &f, "theta_0"); fprintf(fp, "%e%c", x, f.nl);
 
-          if ((x = xrtm_get_phi_0(d)) < 0.) {
+          if ((x = xrtm_get_phi_0(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
                return -1;
           }
@@ -2674,7 +2674,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
                return -1;
           }
 
-          if ((x = xrtm_get_surface_b(d)) < 0.) {
+          if ((x = xrtm_get_surface_b(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
                return -1;
           }
@@ -2732,7 +2732,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
 
      for (i = 0; i < n_kernels; ++i) {
-          if ((x = xrtm_get_kernel_ampfac(d, i)) < 0.) {
+          if ((x = xrtm_get_kernel_ampfac(d, i)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac(), i_kernel = %d", i);
                return -1;
           }
-- 
2.43.0


From ba08e15c2525304e4458cf83a0bdba463bcade98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 060/145] fix: an empty list, which cannot be read, is not
 written to an input

---
 utils/input_util.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index ddbe179..83c4ced 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2528,9 +2528,11 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      n_out_thetas  = xrtm_get_n_out_thetas(d);
 
      list = xrtm_options_mask_to_string_list(NULL, options);
-     print_lhs(fp, &f, "options");
-     print_list(fp, &f, list);
-     fprintf(fp, "%c", f.nl);
+     if (fdclist_count(list) > 0) {
+          print_lhs(fp, &f, "options");
+          print_list(fp, &f, list);
+          fprintf(fp, "%c", f.nl);
+     }
      fdclist_free(list);
 
      list = xrtm_solvers_mask_to_string_list(NULL, solvers);
@@ -2552,9 +2554,11 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
           i1[i] = xrtm_get_kernel(d, i);
      list = xrtm_kernels_vector_to_string_list(NULL, (enum xrtm_kernel_type *) i1, n_kernels);
      free_array1_i(i1);
-     print_lhs(fp, &f, "kernels");
-     print_list(fp, &f, list);
-     fprintf(fp, "%c", f.nl);
+     if (n_kernels > 0) {
+          print_lhs(fp, &f, "kernels");
+          print_list(fp, &f, list);
+          fprintf(fp, "%c", f.nl);
+     }
      fdclist_free(list);
 
      print_lhs(fp, &f, "n_out_levels"); fprintf(fp, "%d%c", n_out_levels, f.nl);
-- 
2.43.0


From 5cd7087b1dc46238cadac01d418dd887d3100b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 061/145] fix: an instance without a wavelength, which is not
 required, is written

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 83c4ced..5b8a9e6 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2597,7 +2597,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
      print_lhs(fp, &f, "fourier_tol"); fprintf(fp, "%e%c", x, f.nl);
 
-     if (options & XRTM_OPTION_SOURCE_THERMAL) {
+     if (options & XRTM_OPTION_SOURCE_THERMAL && d->set_flags_lambda) {
           if ((x = xrtm_get_lambda(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
                return -1;
-- 
2.43.0


From 284c4b65ebadf33cc45f4768e4f5fef7cb52c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 062/145] fix: coefficient derivatives are written by name only
 when they have names

---
 utils/input_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 5b8a9e6..05f228e 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1813,6 +1813,8 @@ static int print_coef_l(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
      int k;
      int l;
 
+     int flag;
+
      int n_elem;
      int n_coef;
      int n_coef2;
@@ -1829,7 +1831,11 @@ static int print_coef_l(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
      x3 = alloc_array3_d(n_derivs, n_coef, n_elem);
 
      for (i = 0; i < n_layers; ++i) {
-          if (! md || ! md->coef_files[i]) {
+          flag = md && md->coef_files_l;
+          for (j = 0; j < n_derivs && flag; ++j)
+               flag = md->coef_files_l[i][j] != NULL;
+
+          if (! flag) {
                n_coef2 = xrtm_get_n_coef(d, i);
 
                for (j = 0; j < n_derivs; ++j) {
-- 
2.43.0


From da1994f6b073edcec700413205857bb77d7f3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 063/145] fix: writing an input does not close stdout

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 05f228e..38732d7 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2481,7 +2481,7 @@ int xrtm_fwrite_input_fn(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const ch
           return -1;
      }
 
-     if (fp != stdin && fp != stderr)
+     if (fp != stdout && fp != stderr)
           fclose(fp);
 
      return 0;
-- 
2.43.0


From ebe01b101f8db82d856fea9c4688d6ae9fbd40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 064/145] fix: derivatives of the isotropic and thermal sources
 are written to an input

---
 utils/input_util.c | 87 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 38732d7..0922041 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1694,6 +1694,70 @@ static int print_array_param_double(FILE *fp, format_data *f, xrtm_data *d, cons
 
 
 
+static int print_deriv_param_double(FILE *fp, format_data *f, xrtm_data *d, const char *name, double (*xrtm_get_x_l)(xrtm_data *, int)) {
+
+     int i;
+
+     int n_derivs;
+
+     double *x1;
+
+     n_derivs = xrtm_get_n_derivs(d);
+
+     x1 = alloc_array1_d(n_derivs);
+     for (i = 0; i < n_derivs; ++i) {
+          if ((x1[i] = xrtm_get_x_l(d, i)) == XRTM_DBL_ERROR) {
+               fprintf(stderr, "ERROR: xrtm_get_%s(), i_deriv = %d\n", name, i);
+               return -1;
+          }
+     }
+
+     print_lhs(fp, f, name);
+     print_array1_double(fp, f, x1, n_derivs);
+     free_array1_d(x1);
+     fprintf(fp, "%c", f->nl);
+
+     return 0;
+}
+
+
+
+static int print_levels_b_l(FILE *fp, format_data *f, xrtm_data *d) {
+
+     int i;
+     int j;
+
+     int n_derivs;
+     int n_layers;
+
+     double *x1;
+     double **x2;
+
+     n_derivs = xrtm_get_n_derivs(d);
+     n_layers = xrtm_get_n_layers(d);
+
+     x1 = alloc_array1_d(n_layers + 1);
+     x2 = alloc_array2_d(n_layers + 1, n_derivs);
+     for (i = 0; i < n_derivs; ++i) {
+          if (xrtm_get_levels_b_l(d, i, x1) == XRTM_DBL_ERROR) {
+               fprintf(stderr, "ERROR: xrtm_get_levels_b_l(), i_deriv = %d\n", i);
+               return -1;
+          }
+          for (j = 0; j < n_layers + 1; ++j)
+               x2[j][i] = x1[j];
+     }
+
+     print_lhs(fp, f, "levels_b_l");
+     print_array2_double(fp, f, x2, n_layers + 1, n_derivs);
+     free_array1_d(x1);
+     free_array2_d(x2);
+     fprintf(fp, "%c", f->nl);
+
+     return 0;
+}
+
+
+
 static int print_layer_param_double(FILE *fp, format_data *f, xrtm_data *d, const char *name, double (*xrtm_get_x)(xrtm_data *, int)) {
 
      int i;
@@ -2657,6 +2721,17 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
      print_lhs(fp, &f, "F_iso_bot"); fprintf(fp, "%e%c", x, f.nl);
 
+     if (n_derivs > 0) {
+          if (print_deriv_param_double(fp, &f, d, "F_iso_top_l", xrtm_get_F_iso_top_l)) {
+               fprintf(stderr, "ERROR: print_deriv_param_double()\n");
+               return -1;
+          }
+
+          if (print_deriv_param_double(fp, &f, d, "F_iso_bot_l", xrtm_get_F_iso_bot_l)) {
+               fprintf(stderr, "ERROR: print_deriv_param_double()\n");
+               return -1;
+          }
+     }
 
      if (options & XRTM_OPTION_SOURCE_SOLAR) {
           if ((x = xrtm_get_F_0(d)) == XRTM_DBL_ERROR) {
@@ -2689,6 +2764,18 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
                return -1;
           }
           print_lhs(fp, &f, "surface_b"); fprintf(fp, "%e%c", x, f.nl);
+
+          if (n_derivs > 0) {
+               if (print_levels_b_l(fp, &f, d)) {
+                    fprintf(stderr, "ERROR: print_levels_b_l()\n");
+                    return -1;
+               }
+
+               if (print_deriv_param_double(fp, &f, d, "surface_b_l", xrtm_get_surface_b_l)) {
+                    fprintf(stderr, "ERROR: print_deriv_param_double()\n");
+                    return -1;
+               }
+          }
      }
 
      if (solvers & XRTM_SOLVERS_USE_G) {
-- 
2.43.0


From ede101d9df0551175412d80139d4f1790390095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 065/145] fix: all loaded scattering coefficients are
 normalized by the first one

---
 misc/rtutil_scat_io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 414280d..981e71a 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1786,6 +1786,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double f_l;
      double rho_l;
 
+     double norm;
+
      double **coefs;
 
      temp = strdup(filename);
@@ -1989,9 +1991,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
 
      if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
+          norm = coefs[0][0];
+
           for (i = 0; i < 6; ++i) {
                for (j = 0; j < n_coef2; ++j) {
-                    coefs[i][j] /= coefs[0][0];
+                    coefs[i][j] /= norm;
                }
           }
      }
-- 
2.43.0


From 0b46036412914488842dc6fcda4062d768d056b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 066/145] fix: a scattering coefficient file of one element is
 loaded with the others zero

---
 misc/rtutil_scat_io.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 981e71a..1e9a574 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1772,6 +1772,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      int i;
      int j;
 
+     int all_six = 1;
+
      int n_coef2;
 
      double g;
@@ -1789,6 +1791,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double norm;
 
      double **coefs;
+     double **coefs2;
 
      temp = strdup(filename);
 
@@ -1920,7 +1923,9 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "gc") == 0 || strcmp(token, "gc6") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
+          all_six = token[2] == '6';
+
+          if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
                return -1;
           }
@@ -1930,7 +1935,9 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
+          all_six = token[2] == '6';
+
+          if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
                return -1;
           }
@@ -1990,6 +1997,18 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           return -1;
      }
 
+     if (! all_six) {
+          coefs2 = alloc_array2_d(6, n_coef2);
+          init_array2_d(coefs2, 6, n_coef2, 0.);
+
+          for (i = 0; i < n_coef2; ++i)
+               coefs2[0][i] = coefs[0][i];
+
+          free_array2_d(coefs);
+
+          coefs = coefs2;
+     }
+
      if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
           norm = coefs[0][0];
 
-- 
2.43.0


From 07c6a7d045b06b0e0ac32bab38140f3546216fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 067/145] fix: names of scattering coefficients without their
 values are refused

---
 misc/rtutil_scat_io.c | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 1e9a574..dfad096 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1797,6 +1797,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
      token = strtok_r(temp, ":", &lasts);
 
+     if (! token) {
+          fprintf(stderr, "ERROR: empty phase input\n");
+          return -1;
+     }
+
      if (is_user_defined_n_coef(token)) {
           if (n_coef <= 0) {
                fprintf(stderr, "ERROR: must specifiy the number of phase function "
@@ -1811,7 +1816,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      if (strcmp(token, "hg") == 0) {
           token2 = strtok_r(NULL, "", &lasts);
 
-          if (strtod_errmsg(token2, "asymmetry parameter g", &g)) {
+          if (! token2 || strtod_errmsg(token2, "asymmetry parameter g", &g)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
@@ -1825,14 +1830,14 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "hg_l") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "asymmetry parameter g", &g)) {
+          if (! token2 || strtod_errmsg(token2, "asymmetry parameter g", &g)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, "", &lasts);
 
-          if (strtod_errmsg(token2, "linearized asymmetry parameter g_l", &g_l)) {
+          if (! token2 || strtod_errmsg(token2, "linearized asymmetry parameter g_l", &g_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
@@ -1846,21 +1851,21 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "dhg") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "forward asymmetry parameter g1", &g1)) {
+          if (! token2 || strtod_errmsg(token2, "forward asymmetry parameter g1", &g1)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "backward asymmetry parameter g2", &g2)) {
+          if (! token2 || strtod_errmsg(token2, "backward asymmetry parameter g2", &g2)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, "", &lasts);
 
-          if (strtod_errmsg(token2, "forward/backward weight f", &f)) {
+          if (! token2 || strtod_errmsg(token2, "forward/backward weight f", &f)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
@@ -1874,42 +1879,42 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "dhg_l") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "forward asymmetry parameter g1", &g1)) {
+          if (! token2 || strtod_errmsg(token2, "forward asymmetry parameter g1", &g1)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "backward asymmetry parameter g2", &g2)) {
+          if (! token2 || strtod_errmsg(token2, "backward asymmetry parameter g2", &g2)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "forward/backward weight f", &f)) {
+          if (! token2 || strtod_errmsg(token2, "forward/backward weight f", &f)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "linearized forward asymmetry parameter g1_l", &g1_l)) {
+          if (! token2 || strtod_errmsg(token2, "linearized forward asymmetry parameter g1_l", &g1_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "linearized backward asymmetry parameter g2_l", &g2_l)) {
+          if (! token2 || strtod_errmsg(token2, "linearized backward asymmetry parameter g2_l", &g2_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
 
           token2 = strtok_r(NULL, "", &lasts);
 
-          if (strtod_errmsg(token2, "linearized forward/backward weight f_l", &f_l)) {
+          if (! token2 || strtod_errmsg(token2, "linearized forward/backward weight f_l", &f_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
                goto L1;
           }
@@ -1925,6 +1930,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           all_six = token[2] == '6';
 
+          if (! token2) {
+               fprintf(stderr, "ERROR: no file name for phase input type: %s\n", token);
+               return -1;
+          }
+
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
                return -1;
@@ -1937,6 +1947,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           all_six = token[2] == '6';
 
+          if (! token2) {
+               fprintf(stderr, "ERROR: no file name for phase input type: %s\n", token);
+               return -1;
+          }
+
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
                return -1;
@@ -1954,9 +1969,9 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "ray") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
+          if (! token2 || strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               goto L1;
+               return -1;
           }
 
           coefs = alloc_array2_d(6, 3);
@@ -1971,16 +1986,16 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "ray_l") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
-          if (strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
+          if (! token2 || strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               goto L1;
+               return -1;
           }
 
           token2 = strtok_r(NULL, "", &lasts);
 
-          if (strtod_errmsg(token2, "linearized ray depolarization factor rho_l", &rho_l)) {
+          if (! token2 || strtod_errmsg(token2, "linearized ray depolarization factor rho_l", &rho_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               goto L1;
+               return -1;
           }
 
           coefs = alloc_array2_d(6, 3);
@@ -2043,7 +2058,7 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
 
      token = strtok_r(temp, ":", &lasts);
 
-     if (! is_user_defined_n_coef(token))
+     if (! token || ! is_user_defined_n_coef(token))
           n_coef = n_coef2;
 
      free(temp);
-- 
2.43.0


From 92053375656e1edafebe7b14746bb3b9e9829244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 068/145] fix: a scattering coefficient file without
 coefficients is refused

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index dfad096..b0dab3c 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -764,7 +764,7 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
           return -1;
      }
 
-     if (fscanf(fp, "%d", &n_coef2) < 1) goto L1;
+     if (fscanf(fp, "%d", &n_coef2) < 1 || n_coef2 < 1) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
-- 
2.43.0


From a8e4acbd24841d02f049d66c1673e14eeb7754a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 069/145] fix: loaded coefficient derivatives cover the
 coefficients of their layer

---
 misc/rtutil_scat_io.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index b0dab3c..7faf09b 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -2054,6 +2054,13 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
      char *token;
      char *lasts = NULL;
 
+     int i;
+     int j;
+
+     int n_coef_min = n_coef;
+
+     double **coefs;
+
      temp = strdup(filename);
 
      token = strtok_r(temp, ":", &lasts);
@@ -2068,5 +2075,19 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
           return -1;
      }
 
+     if (n_coef2 < n_coef_min) {
+          coefs = alloc_array2_d(6, n_coef_min);
+          init_array2_d(coefs, 6, n_coef_min, 0.);
+
+          for (i = 0; i < 6; ++i) {
+               for (j = 0; j < n_coef2; ++j)
+                    coefs[i][j] = (*coefs_)[i][j];
+          }
+
+          free_array2_d(*coefs_);
+
+          *coefs_ = coefs;
+     }
+
      return n_coef2;
 }
-- 
2.43.0


From 3f02944b0f4be9130f5e4fcb29b76c6d3652526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 070/145] fix: callxrtm keeps the last word of the first part
 of an input string apart

---
 utils/callxrtm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 212299b..abccae6 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -277,6 +277,8 @@ int main(int argc, char *argv[]) {
           for (i = 0; i < n2; ++i)
                input3[ii++] = input   [i];
 
+          input3[ii++] = ' ';
+
           for (i = 0; i < n21; ++i)
                input3[ii++] = defaults2[i];
 
-- 
2.43.0


From b51ea899ce83bfce14c45c4aa67294693226da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 071/145] fix: callxrtm prints the derivatives of the mean
 radiances and fluxes

---
 utils/callxrtm.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index abccae6..7d7ae4d 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -600,15 +600,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
@@ -650,15 +644,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
-- 
2.43.0


From 2b9cb2d662aa8df9723b536691abea2f1d495e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 072/145] fix: callxrtm uses the finite difference method of
 its input

---
 utils/callxrtm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 7d7ae4d..8bc232f 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -459,7 +459,7 @@ int main(int argc, char *argv[]) {
           }
      }
      else {
-          if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, XRTM_FD_METHOD_CENTRAL, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
+          if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) md.fd_method, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
                fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
                exit(1);
           }
@@ -484,7 +484,7 @@ int main(int argc, char *argv[]) {
                     }
                }
                else {
-                    if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, XRTM_FD_METHOD_CENTRAL, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
+                    if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) md.fd_method, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
                          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
                          exit(1);
                     }
-- 
2.43.0


From 0a56913dbd552db5782f1dabcc0eff9cb13398c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 073/145] fix: callxrtm destroys the finite difference model
 before the model it uses

---
 utils/callxrtm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 8bc232f..10267b4 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -674,11 +674,11 @@ int main(int argc, char *argv[]) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     xrtm_destroy(&d);
-
      if (md.fd_method >= 0)
           xrtm_fd_destroy(&fd);
 
+     xrtm_destroy(&d);
+
      misc_free(&md);
 
      if (o.out_phis)
-- 
2.43.0


From 695a01fd7832aed8ad8b7657762ad7d4166b588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 074/145] fix: an input that ends in a comment is refused

---
 utils/input_yylex.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/input_yylex.l b/utils/input_yylex.l
index a1dd5f5..1d70ffd 100644
--- a/utils/input_yylex.l
+++ b/utils/input_yylex.l
@@ -153,6 +153,7 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+	exit(1);
 }
 
 
-- 
2.43.0


From 74d07c54b9966d9594b420959dd66d60de58e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 075/145] fix: a finite difference model without derivatives is
 refused

---
 src/xrtm_fd_interface.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..7120bd7 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -44,6 +44,15 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
      jmp_buf env;
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (n_derivs < 1) {
+          fprintf(stderr, "ERROR: invalid value for n_derivs: %d, must be > zero\n", n_derivs);
+          return -1;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 2be8bdb9f3cfa5d3f18fa1238d8e0f50d39599b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 076/145] fix: perturbations of the level Planck functions for
 one derivative are stored for it

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 7120bd7..b0d704e 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -319,7 +319,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -328,8 +327,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 02c27478dd7a065dfb53c224b3d0aaf73cbdc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 077/145] fix: perturbations with indices out of range are not
 returned

---
 src/xrtm_fd_interface.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index b0d704e..5738c79 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -267,7 +267,7 @@ int xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_p) {
 
 double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_top_p[i_deriv];
 }
@@ -306,7 +306,7 @@ int xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_p) {
 
 double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_bot_p[i_deriv];
 }
@@ -429,11 +429,9 @@ double xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {
           return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->surface_b_p[i_deriv];
-
-     return 0;
 }
 
 
@@ -659,8 +657,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 23083238f919ad07eddd0b116a36ff3a5e404f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 078/145] fix: finite differences without their delta are
 refused

---
 src/xrtm_fd_interface.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 5738c79..c6f70ac 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -117,6 +117,8 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     init_array1_d(fd->delta, fd->n_derivs, 0.);
+
      init_array1_d(fd->F_iso_top_p, fd->n_derivs, 0.);
      init_array1_d(fd->F_iso_bot_p, fd->n_derivs, 0.);
 
@@ -1143,6 +1145,17 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 */
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     for (i = 0; i < d->n_derivs; ++i) {
+          if (d->delta[i] == 0.) {
+               fprintf(stderr, "ERROR: delta must be set and nonzero for all derivatives\n");
+               return -1;
+          }
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 77fb3154fe4735e9fde5390e767a0a80f777c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 079/145] fix: isotropic sources of a finite difference model
 are perturbed without thermal sources

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index c6f70ac..dbdc542 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1010,17 +1010,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From 3a8d5adc8a6a9a6ebed23d45cf2a44d52f488d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 080/145] fix: backward differences have the sign of the
 forward differences

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index dbdc542..ddb4ebd 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1204,8 +1204,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
-- 
2.43.0


From c0788d709195e993d411804b98443e3f0c8abe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 081/145] fix: central differences are over twice delta

---
 src/xrtm_fd_interface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ddb4ebd..adb9e20 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1231,8 +1231,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
@@ -1252,8 +1252,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
-- 
2.43.0


From a840d493ec4f83c362d18d627a9a49a40773624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 082/145] fix: perturbations of forward and backward
 differences are undone

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index adb9e20..be06a61 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1210,6 +1210,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                          }
                     }
                }
+
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return -1;
+               }
           }
 
 
-- 
2.43.0


From ce86e060a0a0a95a97dce80509aa512afdf41f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:17 +0000
Subject: [PATCH 083/145] fix: mean radiances and fluxes and their derivatives
 are given by finite differences

---
 src/xrtm_fd_interface.c | 262 +++++++++++++++++++++++++---------------
 1 file changed, 162 insertions(+), 100 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index be06a61..c32e9ce 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1109,40 +1109,124 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 /*******************************************************************************
  *
  ******************************************************************************/
-int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+typedef struct {
+     double ****I_p;
+     double ****I_m;
+
+     double *mean_p;
+     double *mean_m;
+
+     double *flux_p;
+     double *flux_m;
+} solution_data;
+
+
+
+static void solution_alloc(xrtm_fd_data *d, solution_data *s, int n_mus2, int n_out_phis) {
+
+     s->I_p    = n_out_phis > 0 ? alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes) : NULL;
+     s->I_m    = n_out_phis > 0 ? alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes) : NULL;
+
+     s->mean_p = alloc_array1_d(d->d->n_ulevels);
+     s->mean_m = alloc_array1_d(d->d->n_ulevels);
+
+     s->flux_p = alloc_array1_d(d->d->n_ulevels);
+     s->flux_m = alloc_array1_d(d->d->n_ulevels);
+}
+
+
+
+static void solution_free(solution_data *s) {
+
+     if (s->I_p != NULL)
+          free_array4_d(s->I_p);
+     if (s->I_m != NULL)
+          free_array4_d(s->I_m);
+
+     free_array1_d(s->mean_p);
+     free_array1_d(s->mean_m);
+
+     free_array1_d(s->flux_p);
+     free_array1_d(s->flux_m);
+}
+
+
+
+static int solution_solve(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, solution_data *s) {
+
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, s->I_p, s->I_m, NULL, NULL, s->mean_p, s->mean_m, NULL, NULL, s->flux_p, s->flux_m, NULL, NULL, NULL, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
+          return -1;
+     }
+
+     return 0;
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void difference_radiances(xrtm_fd_data *d, int j, int n_mus2, int n_out_phis, double delta, double ****I1, double ****I2, double *****I_l) {
 
      int i;
-     int j;
      int k;
      int l;
      int m;
-/*
-     int n_quad_x;
-*/
+
+     for (i = 0; i < d->d->n_ulevels; ++i) {
+          for (k = 0; k < n_mus2; ++k) {
+               for (l = 0; l < n_out_phis; ++l) {
+                    for (m = 0; m < d->d->n_stokes; ++m) {
+                         I_l[i][j][k][l][m] = (I2[i][k][l][m] - I1[i][k][l][m]) / delta;
+                    }
+               }
+          }
+     }
+}
+
+
+
+static void difference_scalars(xrtm_fd_data *d, int j, double delta, double *x1, double *x2, double **x_l) {
+
+     int i;
+
+     for (i = 0; i < d->d->n_ulevels; ++i)
+          x_l[i][j] = (x2[i] - x1[i]) / delta;
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     int i;
+     int j;
+
      int n_mus2;
 
      double f;
 
+     double delta;
+
      double **coef;
 
-     double ****I_p2;
-     double ****I_m2;
+     solution_data s0;
+     solution_data s1;
+     solution_data s2;
+
+     solution_data *p1;
 
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
-     n_quad_x = d->d->n_quad + d->d->n_umus;
-*/
      if (d->d->n_umus == 0)
-          n_mus2  = d->d->n_quad;
-     else
-          n_mus2  = d->d->n_umus;
-/*
+          n_mus2 = d->d->n_quad;
      else
-          n_mus2  = n_quad_x;
-*/
+          n_mus2 = d->d->n_umus;
 
 
      /*-------------------------------------------------------------------------
@@ -1159,115 +1243,86 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
           return -1;
      }
 
+     s0.I_p    = I_p;
+     s0.I_m    = I_m;
+     s0.mean_p = mean_p;
+     s0.mean_m = mean_m;
+     s0.flux_p = flux_p;
+     s0.flux_m = flux_m;
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
      coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
 
-     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-/*
-     coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
+     if (! (solutions & XRTM_OUTPUT_RADIANCE))
+          n_out_phis = 0;
+
+     solution_alloc(d, &s1, n_mus2, n_out_phis);
+     solution_alloc(d, &s2, n_mus2, n_out_phis);
 
-     I_p2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-     I_m2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-*/
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
      for (j = 0; j < d->n_derivs; ++j) {
-          if (fd_method == XRTM_FD_METHOD_FORWARD || fd_method == XRTM_FD_METHOD_BACKWARD) {
-               if (fd_method == XRTM_FD_METHOD_FORWARD)
-                    f =  1.;
-               else
-               if (fd_method == XRTM_FD_METHOD_BACKWARD)
-                    f = -1.;
-
-               if (perturb_values(d, j, solver, f, coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
-               }
-
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
-               }
+          f = fd_method == XRTM_FD_METHOD_BACKWARD ? -1. : 1.;
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
-                              }
-                         }
-                    }
-               }
-
-               if (perturb_values(d, j, solver, -f, coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
-               }
+          if (perturb_values(d, j, solver, f, coef)) {
+               fprintf(stderr, "ERROR: perturb_values()\n");
+               goto error;
           }
 
+          if (solution_solve(d, solver, solutions, n_out_phis, out_phis, &s2)) {
+               fprintf(stderr, "ERROR: solution_solve()\n");
+               goto error;
+          }
 
-          /*--------------------------------------------------------------------
-           *
-           *------------------------------------------------------------------*/
+          if (fd_method == XRTM_FD_METHOD_FORWARD || fd_method == XRTM_FD_METHOD_BACKWARD) {
+               p1    = &s0;
+               delta = f * d->delta[j];
+          }
           else {
-               if (perturb_values(d, j, solver,  1., coef)) {
+               if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    goto error;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
-               }
+               f     = -1.;
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / (2. * d->delta[j]);
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / (2. * d->delta[j]);
-                              }
-                         }
-                    }
+               if (solution_solve(d, solver, solutions, n_out_phis, out_phis, &s1)) {
+                    fprintf(stderr, "ERROR: solution_solve()\n");
+                    goto error;
                }
 
-               if (perturb_values(d, j, solver, -2., coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
-               }
+               p1    = &s1;
+               delta = 2. * d->delta[j];
+          }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
-               }
+          if (solutions & XRTM_OUTPUT_RADIANCE) {
+               difference_radiances(d, j, n_mus2, n_out_phis, delta, p1->I_p, s2.I_p, I_p_l);
+               difference_radiances(d, j, n_mus2, n_out_phis, delta, p1->I_m, s2.I_m, I_m_l);
+          }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / (2. * d->delta[j]);
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / (2. * d->delta[j]);
-                              }
-                         }
-                    }
-               }
+          if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+               difference_scalars(d, j, delta, p1->mean_p, s2.mean_p, mean_p_l);
+               difference_scalars(d, j, delta, p1->mean_m, s2.mean_m, mean_m_l);
+          }
 
-               if (perturb_values(d, j, solver,  1., coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
-               }
+          if (solutions & XRTM_OUTPUT_FLUX) {
+               difference_scalars(d, j, delta, p1->flux_p, s2.flux_p, flux_p_l);
+               difference_scalars(d, j, delta, p1->flux_m, s2.flux_m, flux_m_l);
+          }
+
+          if (perturb_values(d, j, solver, -f, coef)) {
+               fprintf(stderr, "ERROR: perturb_values()\n");
+               goto error;
           }
      }
 
@@ -1275,14 +1330,21 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-
      free_array2_d(coef);
 
-     free_array4_d(I_p2);
-     free_array4_d(I_m2);
-
+     solution_free(&s1);
+     solution_free(&s2);
 
      return 0;
+
+
+error:
+     free_array2_d(coef);
+
+     solution_free(&s1);
+     solution_free(&s2);
+
+     return -1;
 }
 
 
-- 
2.43.0


From c6ae982644d5ec6800401ea8fd8330d2582e25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:17 +0000
Subject: [PATCH 084/145] fix: finite differences leave the inputs of the model
 as they were

---
 src/xrtm_fd_interface.c | 252 +++++++++++++++++++++++++++++-----------
 1 file changed, 183 insertions(+), 69 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index c32e9ce..8608499 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -998,7 +998,117 @@ double xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 /*******************************************************************************
  *
  ******************************************************************************/
-static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver, double f, double **coef) {
+typedef struct {
+     double F_iso_top;
+     double F_iso_bot;
+
+     double *levels_b;
+     double surface_b;
+
+     double *g;
+     double ***coef;
+     double *omega;
+     double *ltau;
+
+     double *kernel_ampfac;
+     double **kernel_params;
+} input_data;
+
+
+
+static int save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_data *s) {
+
+     int i;
+     int k;
+     int l;
+
+     s->F_iso_top = xrtm_get_F_iso_top(d->d);
+     s->F_iso_bot = xrtm_get_F_iso_bot(d->d);
+
+     s->levels_b  = NULL;
+
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          s->levels_b  = alloc_array1_d(d->d->n_layers + 1);
+
+          if (xrtm_get_levels_b(d->d, s->levels_b)) {
+               fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
+               free_array1_d(s->levels_b);
+               return -1;
+          }
+
+          s->surface_b = xrtm_get_surface_b(d->d);
+     }
+
+     s->g    = NULL;
+     s->coef = NULL;
+
+     if (solver & XRTM_SOLVERS_USE_G) {
+          s->g = alloc_array1_d(d->d->n_layers);
+
+          for (i = 0; i < d->d->n_layers; ++i)
+               s->g[i] = xrtm_get_g(d->d, i);
+     }
+     else {
+          s->coef = alloc_array3_d(d->d->n_layers, d->d->n_elem, d->d->n_coef);
+
+          for (i = 0; i < d->d->n_layers; ++i) {
+               for (k = 0; k < d->d->n_elem; ++k) {
+                    for (l = 0; l < xrtm_get_n_coef(d->d, i); ++l)
+                         s->coef[i][k][l] = xrtm_get_coef(d->d, i, k, l);
+               }
+          }
+     }
+
+     s->omega = alloc_array1_d(d->d->n_layers);
+     s->ltau  = alloc_array1_d(d->d->n_layers);
+
+     for (i = 0; i < d->d->n_layers; ++i) {
+          s->omega[i] = xrtm_get_omega(d->d, i);
+          s->ltau [i] = xrtm_get_ltau (d->d, i);
+     }
+
+     if (d->d->n_kernels > 0) {
+          s->kernel_ampfac = alloc_array1_d(d->d->n_kernels);
+          s->kernel_params = alloc_array2_d(d->d->n_kernels, MAX_KERNEL_PARAMS);
+
+          for (i = 0; i < d->d->n_kernels; ++i) {
+               s->kernel_ampfac[i] = xrtm_get_kernel_ampfac(d->d, i);
+
+               for (k = 0; k < kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]); ++k)
+                    s->kernel_params[i][k] = xrtm_get_kernel_params(d->d, i, k);
+          }
+     }
+
+     return 0;
+}
+
+
+
+static void free_values(xrtm_fd_data *d, input_data *s) {
+
+     if (s->levels_b != NULL)
+          free_array1_d(s->levels_b);
+
+     if (s->g != NULL)
+          free_array1_d(s->g);
+     if (s->coef != NULL)
+          free_array3_d(s->coef);
+
+     free_array1_d(s->omega);
+     free_array1_d(s->ltau);
+
+     if (d->d->n_kernels > 0) {
+          free_array1_d(s->kernel_ampfac);
+          free_array2_d(s->kernel_params);
+     }
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver, double f, input_data *s, double **coef) {
 
      int i;
      int k;
@@ -1010,94 +1120,87 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+     if (xrtm_set_F_iso_top(d->d, s->F_iso_top + f * d->F_iso_top_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
           return -1;
      }
 
-     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+     if (xrtm_set_F_iso_bot(d->d, s->F_iso_bot + f * d->F_iso_bot_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
           return -1;
      }
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           levels_b = alloc_array1_d(d->d->n_layers + 1);
+          levels_b = alloc_array1_d(d->d->n_layers + 1);
 
-           if (xrtm_get_levels_b(d->d, levels_b)) {
-                fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
-                return -1;
-           }
+          for (i = 0; i < d->d->n_layers + 1; ++i)
+               levels_b[i] = s->levels_b[i] + f * d->levels_b_p[i][j];
 
-           for (i = 0; i < d->d->n_layers + 1; ++i) {
-                levels_b[i] += f * d->levels_b_p[i][j];
-           }
+          if (xrtm_set_levels_b(d->d, levels_b)) {
+               fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
+               free_array1_d(levels_b);
+               return -1;
+          }
 
-           if (xrtm_set_levels_b(d->d, levels_b)) {
-                fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
-                return -1;
-           }
+          free_array1_d(levels_b);
 
-           free_array1_d(levels_b);
+          if (xrtm_set_surface_b(d->d, s->surface_b + f * d->surface_b_p[j])) {
+               fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
+               return -1;
+          }
+     }
 
+     if (solver & XRTM_SOLVERS_USE_G) {
+          for (i = 0; i < d->d->n_layers; ++i) {
+               if (xrtm_set_g_1(d->d, i, s->g[i] + f * d->g_p[i][j])) {
+                    fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
+                    return -1;
+               }
+          }
+     }
+     else {
+          for (i = 0; i < d->d->n_layers; ++i) {
+               n_coef_layer = xrtm_get_n_coef(d->d, i);
 
-           if (xrtm_set_surface_b(d->d, xrtm_get_surface_b(d->d) + f * d->surface_b_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-                return -1;
-           }
+               for (k = 0; k < d->d->n_elem; ++k) {
+                    for (l = 0; l < n_coef_layer; ++l)
+                         coef[k][l] = s->coef[i][k][l] + f * d->coef_p[i][j][k][l];
+               }
+
+               if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
+                    fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+                    return -1;
+               }
+          }
      }
 
-     if (solver & XRTM_SOLVERS_USE_G) {
-           for (i = 0; i < d->d->n_layers; ++i) {
-                if (xrtm_set_g_1(d->d, i, xrtm_get_g(d->d, i) + f * d->g_p[i][j])) {
-                     fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                     return -1;
-                }
-           }
-      }
-      else {
-           for (i = 0; i < d->d->n_layers; ++i) {
-                n_coef_layer = xrtm_get_n_coef(d->d, i);
-
-                for (k = 0; k < d->d->n_elem; ++k) {
-                     for (l = 0; l < n_coef_layer; ++l) {
-                          coef[k][l] = xrtm_get_coef(d->d, i, k, l) + f * d->coef_p[i][j][k][l];
-                     }
-                }
-
-                if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
-                     fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                     return -1;
-                }
-           }
-      }
-
-      for (i = 0; i < d->d->n_layers; ++i) {
-           if (xrtm_set_omega_1(d->d, i, xrtm_get_omega(d->d, i) + f * d->omega_p[i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-                return -1;
-           }
-      }
-
-      for (i = 0; i < d->d->n_layers; ++i) {
-           if (xrtm_set_ltau_1(d->d,  i, xrtm_get_ltau(d->d, i)  + f * d->ltau_p [i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-                return -1;
-           }
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (xrtm_set_omega_1(d->d, i, s->omega[i] + f * d->omega_p[i][j])) {
+               fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
+               return -1;
+          }
+     }
+
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (xrtm_set_ltau_1(d->d, i, s->ltau[i] + f * d->ltau_p[i][j])) {
+               fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
+               return -1;
+          }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
-          if (xrtm_set_kernel_ampfac(d->d, i, xrtm_get_kernel_ampfac(d->d, i) + f * d->kernel_ampfac_p[i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-                return -1;
+          if (xrtm_set_kernel_ampfac(d->d, i, s->kernel_ampfac[i] + f * d->kernel_ampfac_p[i][j])) {
+               fprintf(stderr, "ERROR: xrtm_set_kernel_ampfac()\n");
+               return -1;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
 
           for (k = 0; k < n_params; ++k) {
-                if (xrtm_set_kernel_params_1(d->d, i, k, xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {
-                      fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                      return -1;
-                }
+               if (xrtm_set_kernel_params_1(d->d, i, k, s->kernel_params[i][k] + f * d->kernel_params_p[i][j][k])) {
+                    fprintf(stderr, "ERROR: xrtm_set_kernel_params_1()\n");
+                    return -1;
+               }
           }
      }
 
@@ -1213,6 +1316,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      double **coef;
 
+     input_data s;
+
      solution_data s0;
      solution_data s1;
      solution_data s2;
@@ -1259,6 +1364,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     if (save_values(d, solver, &s)) {
+          fprintf(stderr, "ERROR: save_values()\n");
+          return -1;
+     }
+
      coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
 
      if (! (solutions & XRTM_OUTPUT_RADIANCE))
@@ -1274,7 +1384,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      for (j = 0; j < d->n_derivs; ++j) {
           f = fd_method == XRTM_FD_METHOD_BACKWARD ? -1. : 1.;
 
-          if (perturb_values(d, j, solver, f, coef)) {
+          if (perturb_values(d, j, solver, f, &s, coef)) {
                fprintf(stderr, "ERROR: perturb_values()\n");
                goto error;
           }
@@ -1289,13 +1399,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                delta = f * d->delta[j];
           }
           else {
-               if (perturb_values(d, j, solver, -2., coef)) {
+               if (perturb_values(d, j, solver, -1., &s, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
                     goto error;
                }
 
-               f     = -1.;
-
                if (solution_solve(d, solver, solutions, n_out_phis, out_phis, &s1)) {
                     fprintf(stderr, "ERROR: solution_solve()\n");
                     goto error;
@@ -1320,7 +1428,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                difference_scalars(d, j, delta, p1->flux_m, s2.flux_m, flux_m_l);
           }
 
-          if (perturb_values(d, j, solver, -f, coef)) {
+          if (perturb_values(d, j, solver, 0., &s, coef)) {
                fprintf(stderr, "ERROR: perturb_values()\n");
                goto error;
           }
@@ -1330,6 +1438,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     free_values(d, &s);
+
      free_array2_d(coef);
 
      solution_free(&s1);
@@ -1339,6 +1449,10 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
 
 error:
+     perturb_values(d, j, solver, 0., &s, coef);
+
+     free_values(d, &s);
+
      free_array2_d(coef);
 
      solution_free(&s1);
-- 
2.43.0


From 611031a76d9b1f90ff03828cc0a9b9089b54b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:07 +0000
Subject: [PATCH 085/145] fix: the adjoint of EIG_BVP saves the whole local r
 and t

---
 src/xrtm_model.c   | 8 ++++----
 src/xrtm_model_a.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0ba9291..0dfef60 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5406,12 +5406,12 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                     }
                }
 
-               copy_array2_d(save->r_p[i], r_p[i], d->n_umus_v, d->n_quad_v_x);
-               copy_array2_d(save->t_p[i], t_p[i], d->n_umus_v, d->n_quad_v_x);
+               copy_array2_d(save->r_p[i], r_p[i], d->n_quad_v_x, d->n_quad_v_x);
+               copy_array2_d(save->t_p[i], t_p[i], d->n_quad_v_x, d->n_quad_v_x);
 
                if (d->options & XRTM_OPTION_VECTOR) {
-                    copy_array2_d(save->r_m[i], r_m[i], d->n_umus_v, d->n_quad_v_x);
-                    copy_array2_d(save->t_m[i], t_m[i], d->n_umus_v, d->n_quad_v_x);
+                    copy_array2_d(save->r_m[i], r_m[i], d->n_quad_v_x, d->n_quad_v_x);
+                    copy_array2_d(save->t_m[i], t_m[i], d->n_quad_v_x, d->n_quad_v_x);
                }
 
           }
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 69dc4eb..a216d02 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2458,12 +2458,12 @@ int forward_save_fourier_get_bvp_alloc(forward_save_fourier_get_bvp_data *d, int
           }
      }
 
-     d->r_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-     d->t_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+     d->r_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+     d->t_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
 
      if (options & XRTM_OPTION_VECTOR) {
-          d->r_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-          d->t_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+          d->r_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+          d->t_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
      }
 
      if (surface) {
-- 
2.43.0


From 17122a823910081b57efdba08065a7940180ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 086/145] fix: the adjoint of the adding solvers knows layers
 without scattering

---
 src/xrtm_model_a.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index a216d02..479ec42 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -1093,6 +1093,19 @@ static void forward_save_get_layer_R_T_S_U_W_V_free(forward_save_get_layer_R_T_S
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void no_scatter_r_t_s_a(int n_quad, double *qx_v, double ltau, double *ltau_a, double **T_p_a, double **T_m_a) {
+
+     int i;
+
+     for (i = 0; i < n_quad; ++i)
+          *ltau_a += (T_p_a[i][i] + T_m_a[i][i]) * -exp(-ltau / qx_v[i]) / qx_v[i];
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1103,6 +1116,8 @@ static int get_layer_R_T_S_U_W_V_a
       double **R_p_a, double **T_p_a, double **R_m_a, double **T_m_a,
       double *S_p_a, double *S_m_a, int flag, save_tree_data save_tree, work_data *work) {
 
+     int no_scatter;
+
      double b0;
      double b1;
 
@@ -1178,16 +1193,19 @@ static int get_layer_R_T_S_U_W_V_a
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
-*/
+     no_scatter = i_four >= d->n_coef_layer[i_layer];
+
+     if (d->omega[i_layer] == 0. && ! (d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0))
+          no_scatter = 1;
+
+     if (no_scatter)
+          no_scatter_r_t_s_a(d->n_quad_v_x, d->qx_v, d->ltau[i_layer], &d->ltau_a[i_layer], T_p_a, T_m_a);
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
      else {
-*/
           if (d->options & XRTM_OPTION_SOURCE_THERMAL) {
                b0 = d->levels_b[i_layer];
                b1 = d->levels_b[i_layer + 1];
@@ -1206,9 +1224,8 @@ if (d->derivs.layers_union[i_layer]) {
           }
 }
           update_beam_params_a(d, i_layer, work2);
-/*
      }
-*/
+
      update_opt_props_a(d, i_layer, work2);
 
 
-- 
2.43.0


From 629b5a466a05ccece84fcbd5c2aaf2f9e7df4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 087/145] fix: the adjoint of the adding solvers takes the
 boundary inputs in the right order

---
 src/xrtm_model_a.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 479ec42..fe9e88f 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2360,8 +2360,11 @@ static int fourier_get_add_both_ways_a(xrtm_data *d, int i_four, int solver, dou
                     radiance_slab_a(d->n_quad_v_x, save->R_m, save->T_p, save->S_p, R_m_a, T_p_a, S_p_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_p[i], I_p_a[i], work);
                }
                else
-               if (d->ulevels[i] == d->n_layers)
-                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_m[i], I_m_a[i], work);
+               if (d->ulevels[i] == d->n_layers) {
+                    dvec_add(d->In_p_a[i_four], I_p_a[i], d->In_p_a[i_four], d->n_quad_v_x);
+
+                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->In_p[i_four], d->I1_m[i_four], d->In_p_a[i_four], d->I1_m_a[i_four], I_m[i], I_m_a[i], work);
+               }
 #ifdef DEBUG
                else {
                    fprintf(stderr, "ERROR: fourier_get_add_both_ways(): end of if / else if\n");
-- 
2.43.0


From c6e55741deb83e5deaca0a4567b8c4932b2936b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 088/145] fix: the adjoint of EIG_BVP knows eigenvalues shared
 by eigenvectors

---
 src/xrtm_eig_util_a.c | 98 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_eig_util_a.c b/src/xrtm_eig_util_a.c
index 2ce0996..5fa5eca 100644
--- a/src/xrtm_eig_util_a.c
+++ b/src/xrtm_eig_util_a.c
@@ -28,15 +28,6 @@ static void eigen_derivatives_real_a(int i, int n_quad, double **gamma, double *
 
      double a;
      double b;
-
-     if (is_trivial_eigenvector(i, n_quad, evecs))
-/*
-     if (is_dummy_node_eigenvector(i, n_quad, evecs))
-*/
-          return;
-
-     if (is_degenerate_eigenvalue(i, n_quad, evals_r))
-          return;
 if (! flag) {
      a = sqrt(evals_r[i]) * 2.;
      b = evals_r[i];
@@ -80,6 +71,78 @@ if (! flag) {
 
 
 
+/*******************************************************************************
+ * Adjoint of eigen_derivatives_degenerate(), the derivatives of an eigenpair
+ * whose eigenvalue is shared with other eigenvectors.
+ ******************************************************************************/
+static void eigen_derivatives_degenerate_a(int i, int n_quad, double **gamma, double *evals_r, double *evals_i, double **evecs, double **gamma_a, double *evals_r_a, double **evecs_a, work_data work) {
+
+     int j;
+     int k;
+
+     int n;
+
+     int i_i;
+
+     int *ii;
+     int *ip;
+
+     double *B;
+
+     double **A;
+
+     ii = get_work_i1(&work, n_quad);
+
+     i_i = 0;
+     n   = 0;
+     for (j = 0; j < n_quad; ++j) {
+          if (evals_i[j] == 0. && fabs(evals_r[i] - evals_r[j]) <= DBL_EPSILON * 1.e5 * fabs(evals_r[i])) {
+               if (j == i)
+                    i_i = n;
+
+               ii[n++] = j;
+          }
+     }
+
+     ip = get_work_i1(&work, n_quad + n);
+     B  = get_work_d1(&work, n_quad + n);
+     A  = get_work_d2(&work, n_quad + n, n_quad + n);
+
+     dmat_zero(A, n_quad + n, n_quad + n);
+
+     for (j = 0; j < n_quad; ++j) {
+          for (k = 0; k < n; ++k) {
+               A[j][k] = evecs[j][ii[k]];
+               A[n_quad + k][n + j] = evecs[j][ii[k]];
+          }
+
+          for (k = 0; k < n_quad; ++k)
+               A[j][n + k] = -gamma[j][k];
+
+          A[j][n + j] += evals_r[i];
+     }
+
+     dmat_getrf(A, n_quad + n, n_quad + n, ip);
+
+     for (k = 0; k < n; ++k)
+          B[k] = 0.;
+
+     B[i_i] = evals_r_a[i] / (sqrt(evals_r[i]) * 2.);
+
+     for (j = 0; j < n_quad; ++j)
+          B[n + j] = evecs_a[j][i];
+
+     dmat_getrs2('t', A, &B, n_quad + n, 1, ip);
+
+     for (j = 0; j < n_quad; ++j) {
+          for (k = 0; k < n_quad; ++k) {
+               gamma_a[j][k] += B[j] * evecs[k][i];
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -135,8 +198,15 @@ void eig_1n_gen_real_a(int n_quad,
 /*
      A  = get_work_d2(&work, n_quad + 1, n_quad + 1);
 */
-     for (i = 0; i < n_quad; ++i)
+     for (i = 0; i < n_quad; ++i) {
+          if (is_trivial_eigenvector(i, n_quad, evecs))
+/*
+          if (is_dummy_node_eigenvector(i, n_quad, evecs))
+*/
+               continue;
+
           eigen_derivatives_real_a(i, n_quad, gamma, evals, NULL, evecs, gamma_a, evals_a, NULL, evecs_a, save->A[i], B, save->ip[i], save->flag);
+     }
 save->flag = 1;
 }
 
@@ -214,8 +284,12 @@ void eig_1n_gen_complex_a(int n_quad,
      Ac  = get_work_dc2(&work, n_quad + 1, n_quad + 1);
 
      for (i = 0; i < n_quad; ++i) {
-          if (evals_i[i] == 0.)
-               eigen_derivatives_real_a(i, n_quad, gamma, evals_r, evals_i, evecs, gamma_a, evals_r_a, evals_i_a, evecs_a,save->A[i], Br, save->ip[i], save->flag);
+          if (evals_i[i] == 0.) {
+               if (is_degenerate_eigenvalue(i, n_quad, evals_r))
+                    eigen_derivatives_degenerate_a(i, n_quad, gamma, evals_r, evals_i, evecs, gamma_a, evals_r_a, evecs_a, work);
+               else
+                    eigen_derivatives_real_a(i, n_quad, gamma, evals_r, evals_i, evecs, gamma_a, evals_r_a, evals_i_a, evecs_a,save->A[i], Br, save->ip[i], save->flag);
+          }
           else
           if (evals_i[i] > 0.) {
                i1 = i;
-- 
2.43.0


From ab5a9a89b79673ba963443d4af75b7e88ea2c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:15 +0000
Subject: [PATCH 089/145] fix: the adjoint of the phase matrices keeps the
 coefficients when a Fourier term has none

---
 src/xrtm_scatter_a.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_scatter_a.c b/src/xrtm_scatter_a.c
index b2b76f7..63a77bc 100644
--- a/src/xrtm_scatter_a.c
+++ b/src/xrtm_scatter_a.c
@@ -215,7 +215,8 @@ void build_phase_vecs_vector_gc_a(int i_four, int n_coef, int n_mus, int n_stoke
      n_mus_v = n_mus * n_stokes1;
 
      if (i_four >= n_coef) {
-          init_array2_d(gc_a, 6, n_coef, 0.);
+          dvec_zero(P_pp_a, n_mus_v);
+          dvec_zero(P_mp_a, n_mus_v);
 
           return;
      }
-- 
2.43.0


From f1f56e072e9826cf0fe54bcebdb015ee40a9ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 090/145] fix: the adjoint of EIG_BVP gives derivatives at
 optical depths

---
 src/xrtm_eig_bvp_x_a.c | 99 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 98 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_bvp_x_a.c b/src/xrtm_eig_bvp_x_a.c
index 471c6a6..dda5d09 100644
--- a/src/xrtm_eig_bvp_x_a.c
+++ b/src/xrtm_eig_bvp_x_a.c
@@ -513,11 +513,108 @@ static void CALC_RADIANCE_TAUS_A(int n_quad, int n_layers, int n_ulevels,
                      double **Ft_p, double **Ft_m,
                      TYPE **nu_a, TYPE ***X_p_a, TYPE ***X_m_a,
                      double **Ft_p_a, double **Ft_m_a,
-                     TYPE *B, TYPE *B_aa,
+                     TYPE *B, TYPE *B_a,
                      double **I_p, double **I_m, double **I_p_a, double **I_m_a,
                      uchar *derivs_layers, uchar *derivs_beam,
                      save_tree_data save_tree, work_data work) {
 
+     int i;
+     int ii;
+     int iii;
+     int j;
+     int k;
+
+     int n_quad2;
+
+     double f;
+
+     double a_p;
+     double a_m;
+
+     double b;
+     double b_a;
+
+     TYPE *lambda_p;
+     TYPE *lambda_m;
+
+     TYPE *lambda_p_a;
+     TYPE *lambda_m_a;
+
+
+     n_quad2 = n_quad * 2;
+
+
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     lambda_p   = get_work1(&work, WORK_XX);
+     lambda_m   = get_work1(&work, WORK_XX);
+
+     lambda_p_a = get_work1(&work, WORK_XX);
+     lambda_m_a = get_work1(&work, WORK_XX);
+
+
+     /*-------------------------------------------------------------------------
+      * The relative position of each output level within its layer is fixed.
+      *-----------------------------------------------------------------------*/
+     for (i = 0; i < n_ulevels; ++i) {
+          ii  = ulevels[i];
+
+          iii = ii * n_quad2;
+
+          f = utaus[i] / ltau[ii];
+
+          for (k = 0; k < n_quad; ++k) {
+               lambda_p[k] = XEXP(-nu[ii][k] * (utaus[i] - 0.));
+               lambda_m[k] = XEXP(-nu[ii][k] * (ltau[ii] - utaus[i]));
+
+               lambda_p_a[k] = 0.;
+               lambda_m_a[k] = 0.;
+          }
+
+          for (j = 0; j < n_quad; ++j) {
+               a_p = I_p_a[i][j];
+               a_m = I_m_a[i][j];
+
+               for (k = 0; k < n_quad; ++k) {
+                    B_a[iii + k         ] += (a_p * X_p[ii][j][k] - a_m * X_m[ii][j][k]) * lambda_p[k];
+                    B_a[iii + k + n_quad] += (a_p * X_m[ii][j][k] - a_m * X_p[ii][j][k]) * lambda_m[k];
+
+                    if (derivs_layers[ii]) {
+                         X_p_a[ii][j][k] += a_p * B[iii + k] * lambda_p[k] - a_m * B[iii + k + n_quad] * lambda_m[k];
+                         X_m_a[ii][j][k] += a_p * B[iii + k + n_quad] * lambda_m[k] - a_m * B[iii + k] * lambda_p[k];
+
+                         lambda_p_a[k] += B[iii + k         ] * (a_p * X_p[ii][j][k] - a_m * X_m[ii][j][k]);
+                         lambda_m_a[k] += B[iii + k + n_quad] * (a_p * X_m[ii][j][k] - a_m * X_p[ii][j][k]);
+                    }
+               }
+          }
+
+          if (derivs_layers[ii]) {
+               for (k = 0; k < n_quad; ++k) {
+                    nu_a[ii][k] -= lambda_p_a[k] *  utaus[i]             * lambda_p[k];
+                    nu_a[ii][k] -= lambda_m_a[k] * (ltau[ii] - utaus[i]) * lambda_m[k];
+
+                    ltau_a[ii]  -= XREAL(lambda_p_a[k] * nu[ii][k] * lambda_p[k]) *       f;
+                    ltau_a[ii]  -= XREAL(lambda_m_a[k] * nu[ii][k] * lambda_m[k]) * (1. - f);
+               }
+          }
+
+          if (derivs_beam[ii]) {
+               b   = exp(-utaus[i] * as_0[ii]);
+
+               b_a = 0.;
+               for (j = 0; j < n_quad; ++j) {
+                    Ft_p_a[ii][j] += I_p_a[i][j] * b;
+                    Ft_m_a[ii][j] += I_m_a[i][j] * b;
+
+                    b_a += I_p_a[i][j] * Ft_p[ii][j] + I_m_a[i][j] * Ft_m[ii][j];
+               }
+
+               ltau_a[ii] -= b_a * b * f * as_0[ii];
+               as_0_a[ii] -= b_a * b * utaus[i];
+          }
+     }
 }
 
 
-- 
2.43.0


From 89e55da846bf63fafd22db2e22d3c9032cdfd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 091/145] fix: adjoint derivatives that are not supported are
 refused

---
 src/xrtm_interface.c | 63 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f6fd51e..68e6940 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5799,6 +5799,60 @@ int xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flu
 
 
 
+/*******************************************************************************
+ * The adjoint is implemented for only some of the solvers and some of the inputs.
+ ******************************************************************************/
+static int adjoint_check(xrtm_data *d, enum xrtm_solver_mask solver) {
+
+     int i;
+     int j;
+     int k;
+
+     int n_params;
+
+     if (solver != XRTM_SOLVER_EIG_ADD && solver != XRTM_SOLVER_EIG_BVP && solver != XRTM_SOLVER_SINGLE) {
+          fprintf(stderr, "ERROR: adjoint derivatives are not supported by solver \"%s\"\n", xrtm_solver_mask_to_name(solver));
+          return -1;
+     }
+
+     if (solver != XRTM_SOLVER_SINGLE && d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          fprintf(stderr, "ERROR: adjoint derivatives are not supported with option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_SOURCE_THERMAL));
+          return -1;
+     }
+
+     if (solver == XRTM_SOLVER_EIG_BVP && d->options & XRTM_OPTION_SFI && d->n_umus > 0) {
+          fprintf(stderr, "ERROR: adjoint derivatives are not supported with option \"%s\" for user defined zenith angles\n", xrtm_option_mask_to_name(XRTM_OPTION_SFI));
+          return -1;
+     }
+
+     for (i = 0; i < d->n_derivs; ++i) {
+          if (d->F_iso_top_l[i] != 0. || d->F_iso_bot_l[i] != 0.) {
+               fprintf(stderr, "ERROR: adjoint derivatives are not supported with respect to isotropic incident radiances\n");
+               return -1;
+          }
+
+          for (j = 0; j < d->n_kernels; ++j) {
+               if (d->kernel_ampfac_l[j][i] != 0. && brdf_needs_fourier(&d->kernels[j], 1)) {
+                    fprintf(stderr, "ERROR: adjoint derivatives are not supported with respect to kernel \"%s\"\n", xrtm_kernel_index_to_name(d->kernels[j]));
+                    return -1;
+               }
+
+               n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[j]);
+
+               for (k = 0; k < n_params; ++k) {
+                    if (d->kernel_params_l[j][i][k] != 0.) {
+                         fprintf(stderr, "ERROR: adjoint derivatives are not supported with respect to kernel parameters\n");
+                         return -1;
+                    }
+               }
+          }
+     }
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5867,6 +5921,15 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      }
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (adjoint_check(d, solver)) {
+          fprintf(stderr, "ERROR: adjoint_check()\n");
+          return -1;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 25c97e75405730cd044196a08e2d1bae5a25c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 092/145] fix: a failed adjoint solution leaves the options and
 derivatives as they were

---
 src/xrtm_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 68e6940..69ec758 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5953,6 +5953,9 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      d->n_derivs = 0;
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
+          d->options  = options;
+          d->n_derivs = n_derivs;
+
           fprintf(stderr, "ERROR: get_solution2()\n");
           return -1;
      }
-- 
2.43.0


From 084e5c316cb02478a85bead02a3d43090c5b9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 093/145] fix: adjoint derivatives of a lambertian kernel
 beside other kernels are refused too

---
 src/xrtm_interface.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 69ec758..23134d6 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5832,9 +5832,13 @@ static int adjoint_check(xrtm_data *d, enum xrtm_solver_mask solver) {
           }
 
           for (j = 0; j < d->n_kernels; ++j) {
-               if (d->kernel_ampfac_l[j][i] != 0. && brdf_needs_fourier(&d->kernels[j], 1)) {
-                    fprintf(stderr, "ERROR: adjoint derivatives are not supported with respect to kernel \"%s\"\n", xrtm_kernel_index_to_name(d->kernels[j]));
-                    return -1;
+               if (d->kernel_ampfac_l[j][i] != 0.) {
+                    for (k = 0; k < d->n_kernels; ++k) {
+                         if (d->kernels[k] != XRTM_KERNEL_LAMBERTIAN) {
+                              fprintf(stderr, "ERROR: adjoint derivatives are not supported with respect to kernels that are not lambertian\n");
+                              return -1;
+                         }
+                    }
                }
 
                n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[j]);
-- 
2.43.0


From 25d7d73a48c3f9a5aba0764c4b321491ec091536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 094/145] fix: eigenvalues complex only by rounding do not end
 the process in derivatives

---
 src/xrtm_eig_util.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 27bda78..f7a9ce9 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -504,6 +504,38 @@ static void eig_func_gen_complex(int n_quad, double **A, double *evals_r, double
 
 
 
+/*******************************************************************************
+ * A pair of eigenvalues that is complex only by rounding is an eigenvalue shared
+ * by two real eigenvectors.
+ ******************************************************************************/
+static void real_eigen_pairs(int n_quad, double *evals_r, double *evals_i, double **evecs) {
+
+     int i;
+     int j;
+     int k;
+
+     double a;
+
+     for (i = 0; i < n_quad - 1; ++i) {
+          if (evals_i[i] > 0. && evals_i[i] <= DBL_EPSILON * 1.e3 * fabs(evals_r[i])) {
+               evals_i[i]     = 0.;
+               evals_i[i + 1] = 0.;
+
+               for (j = i; j < i + 2; ++j) {
+                    a = 0.;
+                    for (k = 0; k < n_quad; ++k)
+                         a += evecs[k][j] * evecs[k][j];
+                    a = sqrt(a);
+
+                    for (k = 0; k < n_quad; ++k)
+                         evecs[k][j] /= a;
+               }
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -554,6 +586,8 @@ void eig_1n_gen_complex(int n_quad, int n_derivs,
 
      eig_func_gen_complex(n_quad, gamma, evals_r, evals_i, evecs, eigen_solver, work);
 
+     real_eigen_pairs(n_quad, evals_r, evals_i, evecs);
+
 
      if (flags_or(derivs, n_derivs)) {
           ip = get_work_i1(&work, n_quad + 1);
-- 
2.43.0


From d169103c8f6394d4c6fcba95e050afe3b9c693af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 095/145] fix: scat_header_write_fn() and
 scat_header_write_bin_fn() open the file for writing

---
 misc/rtutil_scat_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 7faf09b..8fcddb0 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -229,7 +229,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
@@ -400,7 +400,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
-- 
2.43.0


From 78322a73315da3c3a2fd186555adb1efd2590ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 096/145] fix: binary coefficient files are read correctly when
 only some of the coefficients are requested

---
 misc/rtutil_scat_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 8fcddb0..960940e 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -969,11 +969,13 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      else
           coefs = (void **) alloc_array2_d(n_elem, n_total);
 
-     for (i = 0; i < n_elem; ++i)
+     for (i = 0; i < n_elem; ++i) {
           if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
+          if (fseek(fp, size2 * (n_coef2 - n_total), SEEK_CUR) != 0 ) goto L1;
+     }
 
      for (     ; i < n_elem2; ++i)
-          if (fseek(fp, size2 * n_total, SEEK_CUR) != 0             )  goto L1;
+          if (fseek(fp, size2 * n_coef2, SEEK_CUR) != 0             ) goto L1;
 
      if (size != size2) {
           if (size == 4) {
-- 
2.43.0


From 4bbe34e2f1b3e472ec1edd6814c6745bf7a16805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 097/145] fix: coefficient files with only the first element
 can be read

---
 misc/rtutil_scat_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 960940e..52d6a36 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -777,8 +777,8 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
           for (j = 0; j < n_elem; ++j)
                if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L1;
 
-          for (     ; j < n_elem2; ++j)
-               if (fscanf(fp, "%*s"              ) < 0) goto L1;
+          if (j < n_elem2)
+               gpass_newline(fp);
      }
 
      *coefs_ = coefs;
-- 
2.43.0


From 63d6f217be02367b6a4c482e948ee424352d850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 098/145] fix: files are closed when they cannot be read or
 written as scattering files

---
 misc/rtutil_scat_io.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 52d6a36..c5f9de6 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -142,6 +142,7 @@ int scat_header_read_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -237,6 +238,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -331,6 +333,7 @@ int scat_header_read_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -408,6 +411,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -537,6 +541,7 @@ int phase_func_read_fn(const char *filename, scat_header_data *h,
 
      if ((n_angles = phase_func_read_fp(fp, h, theta, phase, allsix)) < 0) {
           fprintf(stderr, "ERROR: phase_func_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -623,6 +628,7 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
 
      if (phase_func_write_fp(fp, h, theta, phase, n_angles, allsix) < 0) {
           fprintf(stderr, "ERROR: phase_func_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -716,6 +722,7 @@ int scat_coefs_read_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_fp(fp, n_coef, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -810,6 +817,7 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_fp(fp, n_coef2, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -910,6 +918,7 @@ int scat_coefs_read_bin_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_bin_fp(fp, n_coef, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1031,6 +1040,7 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_bin_fp(fp, n_coef2, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1299,6 +1309,7 @@ int scat_total_read_fn(const char *filename, scat_header_data *h, int *n_quad,
      if (scat_total_read_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                             cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1387,6 +1398,7 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
      if (scat_total_write_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                              cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1454,6 +1466,7 @@ int phase_mats_read_fn(const char *filename, scat_header_data *h, int *n_quad,
 
      if (phase_mats_read_fp(fp, h, n_quad, n_four, quad_type, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1631,6 +1644,7 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
 
      if (phase_mats_write_fp(fp, h, n_quad, n_four, quad_type, qx, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-- 
2.43.0


From 9a211c7abfbde9c2c67c846d5c19f374438d7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 099/145] fix: scattering file readers free what they allocated
 when a file cannot be read

---
 misc/rtutil_scat_io.c | 56 +++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index c5f9de6..42a55c9 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -170,7 +170,10 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      max_length = size_dist_name_max_length();
      snprintf(format, length, "dist_type = %%%ds\n", max_length);
      name = (char *) malloc(max_length + 1);
-     if (fscanf(fp, format,  name)                      < 1) goto L1;
+     if (fscanf(fp, format,  name)                      < 1) {
+          free(name);
+          goto L1;
+     }
      h->dist_type = size_dist_code(name);
      free(name);
 
@@ -582,10 +585,10 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
      phase = alloc_array2_d(6, n_angles);
 
      for (i = 0; i < n_angles; ++i) {
-          if (fscanf(fp, "%lf", &theta[i]) < 1) goto L1;
+          if (fscanf(fp, "%lf", &theta[i]) < 1) goto L2;
 
           if (! allsix) {
-               if (fscanf(fp, "%lf", &phase[0][i]) < 1) goto L1;
+               if (fscanf(fp, "%lf", &phase[0][i]) < 1) goto L2;
                phase[1][i] = 0.;
                phase[2][i] = 0.;
                phase[3][i] = 0.;
@@ -595,7 +598,7 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
           else {
                if (fscanf(fp, "%lf%lf%lf%lf%lf%lf",
                           &phase[0][i], &phase[1][i], &phase[2][i],
-                          &phase[3][i], &phase[4][i], &phase[5][i]) < 6) goto L1;
+                          &phase[3][i], &phase[4][i], &phase[5][i]) < 6) goto L2;
           }
      }
 
@@ -605,6 +608,9 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
      return n_angles;
 
+L2:  free_array1_d(theta);
+     free_array2_d(phase);
+
 L1:  if (errno == 0)
           fprintf(stderr, "ERROR: Problem reading phase function from file\n");
      else
@@ -782,7 +788,7 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
 
      for (i = 0; i < n_total; ++i) {
           for (j = 0; j < n_elem; ++j)
-               if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L1;
+               if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L2;
 
           if (j < n_elem2)
                gpass_newline(fp);
@@ -792,6 +798,8 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
 
      return n_total;
 
+L2:  free_array2_d(coefs);
+
 L1:  if (errno == 0)
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file\n");
      else
@@ -979,12 +987,12 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
           coefs = (void **) alloc_array2_d(n_elem, n_total);
 
      for (i = 0; i < n_elem; ++i) {
-          if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
-          if (fseek(fp, size2 * (n_coef2 - n_total), SEEK_CUR) != 0 ) goto L1;
+          if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L2;
+          if (fseek(fp, size2 * (n_coef2 - n_total), SEEK_CUR) != 0 ) goto L2;
      }
 
      for (     ; i < n_elem2; ++i)
-          if (fseek(fp, size2 * n_coef2, SEEK_CUR) != 0             ) goto L1;
+          if (fseek(fp, size2 * n_coef2, SEEK_CUR) != 0             ) goto L2;
 
      if (size != size2) {
           if (size == 4) {
@@ -1015,6 +1023,11 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      return n_total;
 
+L2:  if (size2 == 4)
+          free_array2_f((float **) coefs);
+     else
+          free_array2_d((double **) coefs);
+
 L1:  if (errno == 0)
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file\n");
      else
@@ -1091,13 +1104,16 @@ int scat_coefs_write_bin_fp(FILE *fp, int n_coef2,
           coefs2 = (void **) coefs;
 
      for (i = 0; i < n_elem; ++i)
-          if (fwrite(coefs2[i], size, n_coef2, fp) < (size_t) n_coef2) goto L1;
+          if (fwrite(coefs2[i], size, n_coef2, fp) < (size_t) n_coef2) goto L2;
 
      if (size == 4)
           free_array2_f((float **) coefs2);
 
      return 0;
 
+L2:  if (size == 4)
+          free_array2_f((float **) coefs2);
+
 L1:  if (errno == 0)
           fprintf(stderr, "ERROR: Problem writing phase coefficients to file\n");
      else
@@ -1352,6 +1368,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1359,6 +1376,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1536,6 +1554,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1543,6 +1562,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1562,14 +1582,14 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                for (i = 0; i < *n_four; ++i) {
                     if (fscanf(fp, "%lf%lf%d", &mu1, &mu2, &i_four) < 3) {
                          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                         return -1;
+                         goto L1;
                     }
 
                     line++;
 
                     if (i_four != i) {
                          fprintf(stderr, "ERROR: invalid fourier order encountered\n");
-                         return -1;
+                         goto L1;
                     }
 
                     for (l = 0; l < 4; ++l) {
@@ -1577,7 +1597,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                                     &P[i][j][k][l][0], &P[i][j][k][l][1],
                                     &P[i][j][k][l][2], &P[i][j][k][l][3]) < 4) {
                               fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                              return -1;
+                              goto L1;
                          }
 
                          line++;
@@ -1591,7 +1611,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
           if (fscanf(fp, "%lf", &mu1) < 1) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1601,7 +1621,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                           &Kext[i][j][0], &Kext[i][j][1],
                           &Kext[i][j][2], &Kext[i][j][3]) < 4) {
                     fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                    return -1;
+                    goto L1;
                }
 
                line++;
@@ -1615,7 +1635,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1626,6 +1646,12 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      *Kemi_ = Kemi;
 
      return 0;
+
+L1:  free_array5_d(P);
+     free_array3_d(Kext);
+     free_array2_d(Kemi);
+
+     return -1;
 }
 
 
-- 
2.43.0


From c24ffc9d17c4e77729f9ee3a3866691e597154f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 100/145] fix: load_scat_coefs() frees its copy of the name of
 the phase function on failure

---
 misc/rtutil_scat_io.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 42a55c9..a89021e 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1841,14 +1841,14 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
      if (! token) {
           fprintf(stderr, "ERROR: empty phase input\n");
-          return -1;
+          goto L2;
      }
 
      if (is_user_defined_n_coef(token)) {
           if (n_coef <= 0) {
                fprintf(stderr, "ERROR: must specifiy the number of phase function "
                       "coefficients for the %s phase function()\n", token);
-               return -1;
+               goto L2;
           }
 
           coefs = alloc_array2_d(6, n_coef);
@@ -1974,12 +1974,12 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           if (! token2) {
                fprintf(stderr, "ERROR: no file name for phase input type: %s\n", token);
-               return -1;
+               goto L2;
           }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L2;
           }
 
           *flag = SCAT_COEF_GC;
@@ -1991,12 +1991,12 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           if (! token2) {
                fprintf(stderr, "ERROR: no file name for phase input type: %s\n", token);
-               return -1;
+               goto L2;
           }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, all_six))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L2;
           }
 
           *flag = SCAT_COEF_LC;
@@ -2013,7 +2013,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           if (! token2 || strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               return -1;
+               goto L2;
           }
 
           coefs = alloc_array2_d(6, 3);
@@ -2030,14 +2030,14 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
           if (! token2 || strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               return -1;
+               goto L2;
           }
 
           token2 = strtok_r(NULL, "", &lasts);
 
           if (! token2 || strtod_errmsg(token2, "linearized ray depolarization factor rho_l", &rho_l)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
-               return -1;
+               goto L2;
           }
 
           coefs = alloc_array2_d(6, 3);
@@ -2051,7 +2051,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
      else {
           fprintf(stderr, "ERROR: invalid phase input type: %s\n", token);
-          return -1;
+          goto L2;
      }
 
      if (! all_six) {
@@ -2084,6 +2084,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
 L1:  free_array2_d(coefs);
 
+L2:  free(temp);
+
      return -1;
 }
 
-- 
2.43.0


From d60bb5cb15cc45ba5046b89681bcd5238d6f8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 101/145] fix: strtol_errmsg() and strtod_errmsg() return an
 error for an invalid value

---
 misc/gutil_error.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/misc/gutil_error.c b/misc/gutil_error.c
index 6fa982a..e5b109c 100644
--- a/misc/gutil_error.c
+++ b/misc/gutil_error.c
@@ -90,12 +90,12 @@ long strtol_errmsg(const char *string, const char *name, long *value) {
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: NULL\n", name);
-          exit(1);
+          return -1;
      }
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
-          exit(1);
+          return -1;
      }
 
      *value = strtol(string, &endptr, 0);
@@ -103,17 +103,17 @@ long strtol_errmsg(const char *string, const char *name, long *value) {
      if (errno == ERANGE) {
           if (*value == LONG_MIN) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
-               exit(1);
+               return -1;
           }
           else {
                fprintf(stderr, "ERROR: invalid value for %s, too large: %s\n", name, string);
-               exit(1);
+               return -1;
           }
      }
 
      if (*endptr != '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 /*
      if (sscanf(string, "%ld", &value) != 1) {
@@ -146,12 +146,12 @@ double strtod_errmsg(const char *string, const char *name, double *value) {
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: NULL\n", name);
-          exit(1);
+          return -1;
      }
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
-          exit(1);
+          return -1;
      }
 
      *value = strtod(string, &endptr);
@@ -159,17 +159,17 @@ double strtod_errmsg(const char *string, const char *name, double *value) {
      if (errno == ERANGE) {
           if (*value == HUGE_VAL) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
-               exit(1);
+               return -1;
           }
           else {
                fprintf(stderr, "ERROR: invalid value for %s, too large: %s\n", name, string);
-               exit(1);
+               return -1;
           }
      }
 
      if (*endptr != '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 /*
      if (sscanf(string, "%lf", &value) != 1) {
-- 
2.43.0


From 67c7afa987f3b30df4eb8985c4b38c55de2d9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 102/145] fix: a total scattering file whose last line is cut
 off is not read as a whole file

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index a89021e..c088aff 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1387,7 +1387,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
            if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
-                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 6) {
+                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 8) {
                 fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                 return -1;
            }
-- 
2.43.0


From 55c94d6521e1ad726c1841dbc1969af30cba2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:32 +0000
Subject: [PATCH 103/145] fix: scattering data that follow other scattering
 data in an open text file can be read

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index c088aff..8f85f94 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -163,7 +163,7 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      int max_length;
 
-     if (fscanf(fp, "lambda    = %lf\n", &h->lambda)    < 1) goto L1;
+     if (fscanf(fp, " lambda    = %lf\n", &h->lambda)    < 1) goto L1;
      if (fscanf(fp, "mr        = %lf\n", &h->mr)        < 1) goto L1;
      if (fscanf(fp, "mi        = %lf\n", &h->mi)        < 1) goto L1;
 
-- 
2.43.0


From 49b863ef4d0c88574e0e6d8df27f6b586e9c623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 104/145] fix: points of the extended trapezoidal rule are
 where its weights hold

---
 misc/rtutil_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index ca385b9..d353217 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -47,7 +47,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
 
      if (n == 1) {
           x[0] = (a + b) / 2.;
-          w[0] = 1.;
+          w[0] = b - a;
      }
      else {
           dx = (b - a) / (n - 1);
@@ -56,7 +56,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
           w[0] = dx / 2.;
 
           for (i = 1; i < n-1; ++i) {
-               x[i] = a + (i - 1) * dx;
+               x[i] = a + i * dx;
                w[i] = dx;
           }
 
-- 
2.43.0


From 4b2a6c4c72c4708c8615df66650e1fc260631575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 105/145] fix: generalized spherical functions of odd order
 difference are not zero

---
 misc/rtutil_math.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index d353217..bf7cb88 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -651,6 +651,8 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
      double da;
      double db;
 
+     dcomplex dc;
+
      double apmqd2;
      double appqd2;
 
@@ -666,8 +668,8 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
      apmqd2 = apmq / 2.;
      appqd2 = appq / 2.;
 
-     da = creal(cpow(-_Complex_I, apmq) / pow(2., r) *
-                sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq))));
+     dc = cpow(-_Complex_I, apmq) / pow(2., r) *
+          sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq)));
 
      for (i = 0; i < n_mu; ++i) {
           if (r == 0) {
@@ -684,7 +686,7 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][r] = da * pow(1. - mu[i], apmqd2) *
+               gsf[i][r] = dc * pow(1. - mu[i], apmqd2) *
                                 pow(1. + mu[i], appqd2);
 
                j = r;
@@ -732,6 +734,8 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
      double da;
      double db;
 
+     dcomplex dc;
+
      double qd2;
 
      double fq;
@@ -742,7 +746,7 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      fq  = factorial(q);
 
-     da = creal(cpow(-_Complex_I, q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq)));
+     dc = cpow(-_Complex_I, q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq));
 
      for (i = 0; i < n_mu; ++i) {
           if (q == 0) {
@@ -759,7 +763,7 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][q] = da * pow(1. - mu[i], qd2) *
+               gsf[i][q] = dc * pow(1. - mu[i], qd2) *
                                 pow(1. + mu[i], qd2);
 
                j = q;
@@ -805,6 +809,8 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
      double da;
      double db;
 
+     dcomplex dc;
+
      double pd2;
 
      double fp;
@@ -815,7 +821,7 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      fp  = factorial(p);
 
-     da = creal(cpow(-_Complex_I, p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp)));
+     dc = cpow(-_Complex_I, p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp));
 
      for (i = 0; i < n_mu; ++i) {
           if (p == 0) {
@@ -832,7 +838,7 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][p] = da * pow(1. - mu[i], pd2) *
+               gsf[i][p] = dc * pow(1. - mu[i], pd2) *
                                 pow(1. + mu[i], pd2);
 
                j = p;
-- 
2.43.0


From 28bb61e39334740c1005cff212a283f582f28da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:20 +0000
Subject: [PATCH 106/145] fix: the Fortran interfaces reserve as many bytes as
 the model has

---
 interfaces/xrtm_int_f77.inc | 2 +-
 interfaces/xrtm_int_f90.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/xrtm_int_f77.inc b/interfaces/xrtm_int_f77.inc
index a53905c..1c279fe 100644
--- a/interfaces/xrtm_int_f77.inc
+++ b/interfaces/xrtm_int_f77.inc
@@ -132,7 +132,7 @@ c***********************************************************************
 c
 c***********************************************************************
       integer N_BYTES_XRTM_TYPE
-      parameter (N_BYTES_XRTM_TYPE = 2264)
+      parameter (N_BYTES_XRTM_TYPE = 2280)
 
 
 
diff --git a/interfaces/xrtm_int_f90.f90 b/interfaces/xrtm_int_f90.f90
index 11fc607..f302c0c 100644
--- a/interfaces/xrtm_int_f90.f90
+++ b/interfaces/xrtm_int_f90.f90
@@ -202,7 +202,7 @@ integer, parameter, public :: XRTM_KERNEL_USER_DEFINED = 10_int64
 !
 !*******************************************************************************
 type, bind(c) :: xrtm_type
-     integer(c_signed_char) :: data(2264)
+     integer(c_signed_char) :: data(2280)
 end type xrtm_type
 
 
-- 
2.43.0


From 6727619fc6d56b3fb8fc0a27aa2d90c710dd0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:18 +0000
Subject: [PATCH 107/145] fix: the Fortran 77 getters return the value of the
 property

---
 interfaces/xrtm_fd_int_f77.f      |  20 +-
 interfaces/xrtm_fd_int_f77_util.c |  88 ++++-----
 interfaces/xrtm_int_f77.f         |  50 ++---
 interfaces/xrtm_int_f77_util.c    | 312 +++++++++++++++---------------
 4 files changed, 235 insertions(+), 235 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..2b6e3d7 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,11 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
+     int r;
+     r = xrtm_fd_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -90,12 +90,12 @@ int xrtm_fd_set_f_iso_top_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_top_l)
 double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_top_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -126,12 +126,12 @@ int xrtm_fd_set_f_iso_bot_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_bot_l)
 double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_bot_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -163,12 +163,12 @@ int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *levels_b_l)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
+     r = xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -199,12 +199,12 @@ int xrtm_fd_set_surface_b_p_n_bindx_f77_(xrtm_fd_data *d, double *surface_b_l)
 double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
+     r = xrtm_fd_get_surface_b_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -265,13 +265,13 @@ double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_g_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -341,15 +341,15 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_deriv;
      int i_elem;
      int i_coef;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -410,13 +410,13 @@ double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_der
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_omega_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -477,13 +477,13 @@ double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -519,13 +519,13 @@ double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
 {
      int i_kernel;
      int i_deriv;
+     double r;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
+     r = xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -595,14 +595,14 @@ double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      int i_kernel;
      int i_deriv;
      int i_param;
+     double r;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..525712d 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,133 +57,133 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
+     int r;
+     r = xrtm_get_options(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
+     int r;
+     r = xrtm_get_solvers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
+     int r;
+     r = xrtm_get_max_coef(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
+     int r;
+     r = xrtm_get_n_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
+     int r;
+     r = xrtm_get_n_stokes(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
+     int r;
+     r = xrtm_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
+     int r;
+     r = xrtm_get_n_layers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
+     int r;
+     r = xrtm_get_n_kernels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
+     int r;
+     r = xrtm_get_n_kernel_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
+     enum xrtm_kernel_type r;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
+     r = xrtm_get_kernel(d, i_kernel);
+     if ((int) r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
+     int r;
+     r = xrtm_get_n_out_levels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas_2(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -201,11 +201,11 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
+     double r;
+     r = xrtm_get_doub_d_tau(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -273,11 +273,11 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
+     double r;
+     r = xrtm_get_fourier_tol(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -295,11 +295,11 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
+     double r;
+     r = xrtm_get_lambda(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -317,11 +317,11 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
+     double r;
+     r = xrtm_get_planet_r(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -419,11 +419,11 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
+     double r;
+     r = xrtm_get_F_iso_top(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -454,12 +454,12 @@ int xrtm_set_f_iso_top_l_n_bindx_f77_(xrtm_data *d, double *F_iso_top_l)
 double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_top_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -477,11 +477,11 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
+     double r;
+     r = xrtm_get_F_iso_bot(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -512,12 +512,12 @@ int xrtm_set_f_iso_bot_l_n_bindx_f77_(xrtm_data *d, double *F_iso_bot_l)
 double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_bot_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -535,11 +535,11 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
+     double r;
+     r = xrtm_get_F_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -557,11 +557,11 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
+     double r;
+     r = xrtm_get_theta_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -579,11 +579,11 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
+     double r;
+     r = xrtm_get_phi_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -658,11 +658,11 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
+     double r;
+     r = xrtm_get_surface_b(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -693,12 +693,12 @@ int xrtm_set_surface_b_l_n_bindx_f77_(xrtm_data *d, double *surface_b_l)
 double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
+     double r;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
+     r = xrtm_get_surface_b_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -729,12 +729,12 @@ int xrtm_set_g_n_bindx_f77_(xrtm_data *d, double *g)
 double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
+     double r;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
+     r = xrtm_get_g(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -795,13 +795,13 @@ double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_g_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -838,12 +838,12 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
+     int r;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
+     r = xrtm_get_n_coef(d, i_layer);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -852,14 +852,14 @@ double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *
      int i_layer;
      int i_elem;
      int i_coef;
+     double r;
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
+     r = xrtm_get_coef(d, i_layer, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -929,15 +929,15 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      int i_deriv;
      int i_elem;
      int i_coef;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -968,12 +968,12 @@ int xrtm_set_omega_n_bindx_f77_(xrtm_data *d, double *omega)
 double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
+     double r;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
+     r = xrtm_get_omega(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1034,13 +1034,13 @@ double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_omega_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1071,12 +1071,12 @@ int xrtm_set_ltau_n_bindx_f77_(xrtm_data *d, double *ltau)
 double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
+     double r;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
+     r = xrtm_get_ltau(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1137,13 +1137,13 @@ double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
      int i_layer;
      int i_deriv;
+     double r;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_ltau_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1164,12 +1164,12 @@ int xrtm_set_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_, double *ampf
 double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
+     double r;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
+     r = xrtm_get_kernel_ampfac(d, i_kernel);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1205,13 +1205,13 @@ double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_pa
 {
      int i_kernel;
      int i_param;
+     double r;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
+     r = xrtm_get_kernel_params(d, i_kernel, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1247,13 +1247,13 @@ double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
 {
      int i_kernel;
      int i_deriv;
+     double r;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
+     r = xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1323,14 +1323,14 @@ double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      int i_kernel;
      int i_deriv;
      int i_param;
+     double r;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From befe575fdb662bc921d6043d80838efc62052baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:08 +0000
Subject: [PATCH 108/145] fix: tables of arrays with a zero extent stay within
 their memory

---
 misc/gutil_alloc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..1771b69 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
@@ -97,6 +97,9 @@ static void *ptr_array_realloc(void **a1, int rank, size_t *dimen, int size, int
  ******************************************************************************/
 static void *from_mem_ptr_array(void **a, void *a2, int rank, size_t *dimen, int length) {
 
+     if (length == 0)
+          return (void *) a;
+
      if (rank == 1)
           a[0] = a2;
      else
@@ -113,11 +116,11 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
 
      void *a;
 
-     length = array_mem_length(rank, dimen, 0);
-
-     if (length == 0)
+     if (rank == 1)
           return a2;
 
+     length = array_mem_length(rank, dimen, 0);
+
      if (! flag) {
           a = a2;
 
-- 
2.43.0


From 53c64a011ecfdecf9fd9c3289cbefd23d4d9945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:25 +0000
Subject: [PATCH 109/145] fix: azimuth angles have as many rows as there are
 output angles

---
 interfaces/xrtm_int_f77_util.c |  4 ++--
 interfaces/xrtm_int_f90_util.c |  4 ++--
 interfaces/xrtm_int_idl.c      | 12 ++++++------
 interfaces/xrtm_int_jl_util.c  |  4 ++--
 interfaces/xrtm_int_py.c       |  4 ++--
 interfaces/xrtm_interface.def  |  4 ++--
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 525712d..9d6a344 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1402,7 +1402,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1441,7 +1441,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..263a6f4 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -166,7 +166,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -201,7 +201,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..c0618d5 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3836,11 +3836,11 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[4]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
@@ -4012,11 +4012,11 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..247f25e 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -337,7 +337,7 @@ int kernel_qw_kernel_qw_dims(xrtm_data *d, size_t *dims)
 
 int solution_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
@@ -462,7 +462,7 @@ int solution_flux_div_l_dims(xrtm_data *d, enum xrtm_solver_mask solver, int sol
 
 int radiance_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..6407db7 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 7bd434d19a191f4516e0f89a4ac70cf8e72f957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:11 +0000
Subject: [PATCH 110/145] fix: the Python get_kernel returns the name of the
 kernel

---
 interfaces/xrtm_int_py.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 6407db7..f244032 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -329,11 +329,11 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
      if (! PyArg_ParseTuple(args, "i", &i_kernel))
           return NULL;
      r = xrtm_get_kernel(d, i_kernel);
-     if (r == XRTM_INT_ERROR) {
+     if ((int) r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
-- 
2.43.0


From 50a266134f347a4b1f7caff0a3334b115a30fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:11 +0000
Subject: [PATCH 111/145] fix: a Python model that could not be created is not
 destroyed

---
 interfaces/xrtm_int_py.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index f244032..109cd6e 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -17,6 +17,7 @@
 typedef struct {
      PyObject_HEAD
      xrtm_data xrtm;
+     int created;
 } xrtm_data_py;
 
 
@@ -162,8 +163,10 @@ static int xrtm_init(xrtm_data_py *self, PyObject *args)
      r = xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, (enum xrtm_kernel_type *) kernels, n_out_levels, n_out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_create()");
+          free(kernels);
           return -1;
      }
+     self->created = 1;
      free(kernels);
      return 0;
 }
@@ -173,10 +176,12 @@ static void xrtm_dealloc(xrtm_data_py *self)
 {
      int r;
      xrtm_data *d = &self->xrtm;
-     r = xrtm_destroy(d);
-     if (r == XRTM_INT_ERROR) {
-          PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
-          return ;
+     if (self->created) {
+          r = xrtm_destroy(d);
+          if (r == XRTM_INT_ERROR) {
+               PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
+               return ;
+          }
      }
 #if PY_MAJOR_VERSION < 3
      self->ob_type->tp_free((PyObject *) self);
-- 
2.43.0


From d54eefe5d417302184ca61b724025fffe5642d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:11 +0000
Subject: [PATCH 112/145] fix: the Python interface says how many dimensions an
 array must have

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 109cd6e..78cd4d5 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -99,7 +99,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
-- 
2.43.0


From a19995afa31c5cbb44843e376db239a68a0dafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:11 +0000
Subject: [PATCH 113/145] fix: the Python interface gives its output arrays
 away

---
 interfaces/xrtm_int_py.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 78cd4d5..5d12ac8 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -625,7 +625,7 @@ static PyObject *xrtm_get_levels_z_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_z()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_z_ndarray);
+     return Py_BuildValue("N", levels_z_ndarray);
 }
 
 
@@ -673,7 +673,7 @@ static PyObject *xrtm_get_out_levels_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_levels()");
           return NULL;
      }
-     return Py_BuildValue("O", out_levels_ndarray);
+     return Py_BuildValue("N", out_levels_ndarray);
 }
 
 
@@ -721,7 +721,7 @@ static PyObject *xrtm_get_out_taus_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_taus()");
           return NULL;
      }
-     return Py_BuildValue("O", out_taus_ndarray);
+     return Py_BuildValue("N", out_taus_ndarray);
 }
 
 
@@ -769,7 +769,7 @@ static PyObject *xrtm_get_out_thetas_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_thetas()");
           return NULL;
      }
-     return Py_BuildValue("O", out_thetas_ndarray);
+     return Py_BuildValue("N", out_thetas_ndarray);
 }
 
 
@@ -1088,7 +1088,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_b_ndarray);
+     return Py_BuildValue("N", levels_b_ndarray);
 }
 
 
@@ -1164,7 +1164,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b_l()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_b_l_ndarray);
+     return Py_BuildValue("N", levels_b_l_ndarray);
 }
 
 
@@ -2302,7 +2302,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_qx()");
           return NULL;
      }
-     return Py_BuildValue("O", qx_ndarray);
+     return Py_BuildValue("N", qx_ndarray);
 }
 
 
@@ -2325,7 +2325,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_qw()");
           return NULL;
      }
-     return Py_BuildValue("O", qw_ndarray);
+     return Py_BuildValue("N", qw_ndarray);
 }
 
 
@@ -2348,7 +2348,7 @@ static PyObject *xrtm_kernel_qx_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qx()");
           return NULL;
      }
-     return Py_BuildValue("O", kernel_qx_ndarray);
+     return Py_BuildValue("N", kernel_qx_ndarray);
 }
 
 
@@ -2371,7 +2371,7 @@ static PyObject *xrtm_kernel_qw_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qw()");
           return NULL;
      }
-     return Py_BuildValue("O", kernel_qw_ndarray);
+     return Py_BuildValue("N", kernel_qw_ndarray);
 }
 
 
@@ -2533,7 +2533,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OOOOOOOOOOOOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NNNNNNNNNNNNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
 }
 
 
@@ -2614,7 +2614,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      free_array(I_m, 4);
      free_array(K_p, 5);
      free_array(K_m, 5);
-     return Py_BuildValue("OOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
+     return Py_BuildValue("NNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
 }
 
 
@@ -2669,7 +2669,7 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      }
      free_array(mean_p_l, 2);
      free_array(mean_m_l, 2);
-     return Py_BuildValue("OOOO", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
+     return Py_BuildValue("NNNN", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
 }
 
 
@@ -2724,7 +2724,7 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      }
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
-     return Py_BuildValue("OOOO", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
+     return Py_BuildValue("NNNN", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
 }
 
 
@@ -2763,7 +2763,7 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      }
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OO", flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NN", flux_div_ndarray, flux_div_l_ndarray);
 }
 
 
-- 
2.43.0


From a2ddb25ad67ede1d63110f3d97eef5b0c1e5df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:01 +0000
Subject: [PATCH 114/145] fix: xrtm_get_levels_b_l returns a status like the
 other array getters

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 utils/input_util.c                | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 23134d6..f839af1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3747,16 +3747,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
diff --git a/utils/input_util.c b/utils/input_util.c
index 0922041..2980070 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1739,7 +1739,7 @@ static int print_levels_b_l(FILE *fp, format_data *f, xrtm_data *d) {
      x1 = alloc_array1_d(n_layers + 1);
      x2 = alloc_array2_d(n_layers + 1, n_derivs);
      for (i = 0; i < n_derivs; ++i) {
-          if (xrtm_get_levels_b_l(d, i, x1) == XRTM_DBL_ERROR) {
+          if (xrtm_get_levels_b_l(d, i, x1) == XRTM_INT_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_levels_b_l(), i_deriv = %d\n", i);
                return -1;
           }
-- 
2.43.0


From 1d86cb15cc28aa6e37a1cf3e71fd6b6503d4b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:56 +0000
Subject: [PATCH 115/145] fix: the interfaces' quadrature arrays have room for
 the output angles

---
 interfaces/xrtm_int_idl.c     | 8 ++++----
 interfaces/xrtm_int_jl_util.c | 4 ++--
 interfaces/xrtm_int_py.c      | 4 ++--
 interfaces/xrtm_interface.def | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index c0618d5..ac66e24 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3696,11 +3696,11 @@ void IDL_CDECL xrtm_qx_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qx = malloc((d->n_quad) * sizeof(double));
+     qx = malloc((d->n_quad + d->n_umus) * sizeof(double));
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qx()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qx, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3718,11 +3718,11 @@ void IDL_CDECL xrtm_qw_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qw = malloc((d->n_quad) * sizeof(double));
+     qw = malloc((d->n_quad + d->n_umus) * sizeof(double));
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qw()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qw, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 247f25e..ef67d9f 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -309,14 +309,14 @@ int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **pa
 
 int qx_qx_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
 
 int qw_qw_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 5d12ac8..86ea74b 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2292,7 +2292,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      double *qx;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
           return NULL;
@@ -2315,7 +2315,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      double *qw;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
           return NULL;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 2f4a1d0..8311d6b 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -115,8 +115,8 @@ subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
-subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
+subprogram_general int 0 qx			        0, double 1 "d->n_quad + d->n_umus" qx out;
+subprogram_general int 0 qw			        0, double 1 "d->n_quad + d->n_umus" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 60515dc2ddd805d333a5de9424088b38c9cd0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:45 +0000
Subject: [PATCH 116/145] fix: Planck values are at the levels in the Python
 and IDL interfaces

---
 interfaces/xrtm_int_idl.c | 22 +++++++++++-----------
 interfaces/xrtm_int_py.c  | 10 +++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index ac66e24..5e7d8e8 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -1776,8 +1776,8 @@ void IDL_CDECL xrtm_set_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be of type double");
      if (argv[1]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[0] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_layers + 1 elements");
      levels_b = (double *) argv[1]->value.arr->data;
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
@@ -1797,11 +1797,11 @@ void IDL_CDECL xrtm_get_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     levels_b = malloc((d->n_out_levels) * sizeof(double));
+     levels_b = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -1830,8 +1830,8 @@ void IDL_CDECL xrtm_set_levels_b_l_1_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[2]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[2]->value.arr->dim[0] != (d->n_derivs))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
+     if (argv[2]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_layers + 1 elements");
      levels_b_l = (double *) argv[2]->value.arr->data;
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
@@ -1855,11 +1855,11 @@ void IDL_CDECL xrtm_set_levels_b_l_n_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[1]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[1] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[1] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_layers + 1 elements");
      if (argv[1]->value.arr->dim[0] != (d->n_derivs))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
-     dim[0] = d->n_out_levels;
+     dim[0] = d->n_layers + 1;
      dim[1] = d->n_derivs;
      levels_b_l = (double **) array_from_mem((void *) argv[1]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1889,11 +1889,11 @@ void IDL_CDECL xrtm_get_levels_b_l_dlm(int argc, IDL_VPTR argv[], char *argk)
           i_deriv = argv[1]->value.l;
      else
           i_deriv = argv[1]->value.i;
-     levels_b_l = malloc((d->n_out_levels) * sizeof(double));
+     levels_b_l = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b_l()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b_l, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[2]);
      return;
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 86ea74b..16ad9bb 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1056,7 +1056,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1078,7 +1078,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1105,7 +1105,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1130,7 +1130,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1154,7 +1154,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From 1b34ee1d9aef71e7174cd560d22193521ce1ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:50 +0000
Subject: [PATCH 117/145] fix: single_scattered_radiance_dn_a() reads before
 the start of ulevels

---
 src/xrtm_single_a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_single_a.c b/src/xrtm_single_a.c
index 17e5835..84661f8 100644
--- a/src/xrtm_single_a.c
+++ b/src/xrtm_single_a.c
@@ -432,7 +432,7 @@ void single_scattered_radiance_dn_a(int n_stokes, int n_layers, double F_0, int
 
           dvec_copy(I_a, I_a2, n_umus_v);
 
-          if (  utau_output && i_ulevel < n_ulevels && i == ulevels[i_ulevel]) {
+          if (  utau_output && i_ulevel >= 0 && i == ulevels[i_ulevel]) {
                while (i_ulevel >= 0 && i == ulevels[i_ulevel]) {
                     ssr_dn_layer_a(i, n_stokes, utaus[i_ulevel], umus, n_umus, omega, omega_a, ltau, ltau_a, btran, btran_a, as_0, as_0_a, P, P_a, save->I[i], I_a, NULL, I_ss_a[i_ulevel], work);
 
-- 
2.43.0


From c8df1cbe4937ebf5d36079dbfadc95b67153f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:25 +0000
Subject: [PATCH 118/145] fix: BOTTOM_UP_ADDING without a surface leaves
 surface derivatives unset

---
 src/xrtm_model.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0dfef60..117cc76 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2880,6 +2880,17 @@ static int get_total_TOA_R_S_U_V
                }
           }
      }
+     else {
+          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(derivs_total[0], d->n_derivs)) {
+               for (i = 0; i < d->n_derivs; ++i) {
+                    if (derivs_layers[d->n_layers][i])
+                         dmat_zero(R1_m_l[i], d->n_quad_v_x, d->n_quad_v_x);
+
+                    if (derivs_sources[d->n_layers][i])
+                         dvec_zero(S1_p_l[i], d->n_quad_v_x);
+               }
+          }
+     }
 
      for (i = d->n_layers - 1; i >= 0; --i) {
           work3 = work2;
@@ -3077,6 +3088,14 @@ static int get_total_TOA_R_S_U_V_2
                if (derivs_sources[i][j])
                     dvec_copy((*S_p_l)[j], S_s_l[j], d->n_quad_v_x);
           }
+          else {
+               i = d->n_layers;
+               if (derivs_layers[i][j])
+                    dmat_zero((*R_m_l)[j], d->n_quad_v_x, d->n_quad_v_x);
+
+               if (derivs_sources[i][j])
+                    dvec_zero((*S_p_l)[j], d->n_quad_v_x);
+          }
 
           i1    = d->n_layers - 1;
           flag2 = 0;
-- 
2.43.0


From 68aa50594af5e92b1cd290ea8d55a3b805a7067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:48 +0000
Subject: [PATCH 119/145] fix: pade parameters above the maxima overrun the
 coefficient array or the shift

---
 src/xrtm_pade_rts.c | 6 +++---
 src/xrtm_pade_rts.h | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_pade_rts.c b/src/xrtm_pade_rts.c
index 73c04cf..57a69d7 100644
--- a/src/xrtm_pade_rts.c
+++ b/src/xrtm_pade_rts.c
@@ -59,7 +59,7 @@ void pade_get_s_and_r(double **r_, double **t_, int n_quad,
      if (i < 0)
           i = 0;
      else
-     if (i > pade_table_n_ltaus) {
+     if (i > pade_table_n_ltaus - 1) {
           fprintf(stderr, "ERROR: pade_get_s_and_r(): ltau index too high\n");
           exit(1);
      }
@@ -2318,7 +2318,7 @@ void rtm_pade_rts2(int n_quad, int n_stokes, int n_derivs, double F_0,
      double a;
      double b;
 
-     double pade_c[MAX_PADE_R];
+     double pade_c[MAX_PADE_R + 1];
 
      double *F_p;
      double *F_m;
@@ -2392,7 +2392,7 @@ void rtm_pade_rts2(int n_quad, int n_stokes, int n_derivs, double F_0,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (pade_s < 0 || pade_r <= 0)
+     if (pade_s < 0 || pade_s > MAX_PADE_S || pade_r <= 0 || pade_r > MAX_PADE_R)
           pade_get_s_and_r(r_p, t_p, n_quad_v, ltau, n_umus, umus, &pade_s, &pade_r, flags_or(derivs_layers, n_derivs));
 
      pade_coefs_x(pade_r, pade_r, 1., pade_c);
diff --git a/src/xrtm_pade_rts.h b/src/xrtm_pade_rts.h
index e4b5d3f..67be1d3 100644
--- a/src/xrtm_pade_rts.h
+++ b/src/xrtm_pade_rts.h
@@ -18,6 +18,7 @@ extern "C" {
 #endif
 
 
+#define MAX_PADE_S 30
 #define MAX_PADE_R 32
 
 
-- 
2.43.0


From 1e22fb113c617c2fd33fd89a71bb543e2e3d96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:52 +0000
Subject: [PATCH 120/145] fix: a negative real eigenvalue is taken for a
 complex pair

---
 src/xrtm_eig_util.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index f7a9ce9..bb71c39 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -908,8 +908,16 @@ void eig_1n_to_2n_complex(int n_quad, int n_derivs,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     for (i = 0; i < n_quad; ++i)
+     for (i = 0; i < n_quad; ++i) {
+          /* The root of a negative real eigenvalue is imaginary but, below, an
+             imaginary part means that there is a complex conjugate pair. */
+          if (evals_i[i] == 0. && evals_r[i] < 0.) {
+               fprintf(stderr, "ERROR: eig_1n_to_2n_complex(), negative eigenvalue: %e\n", evals_r[i]);
+               exit(1);
+          }
+
           nu[i] = csqrt(evals_r[i] + _Complex_I * evals_i[i]);
+     }
 
      if (flags_or(derivs, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
-- 
2.43.0


From 497d5e45634d229dc5a8b9540849f4b0ded63434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 121/145] fix: the four-stream solver calls
 calc_radiance_levels() with a stale prototype

---
 src/xrtm_four_stream.c | 31 -------------------------------
 1 file changed, 31 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..2bf7d43 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -926,37 +926,6 @@ if (n_umus == 0) {
                }
           }
 
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From 530dae73d4ccb551e48eb7b31139e4ab2e671af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 122/145] fix: arguments of sfi_layer() in the two-stream
 solver at optical depths

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 55cf05a..dd3f172 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From 083abc89b8327ada9633db4224e917286506d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 123/145] fix: four- and six-stream particular solution with a
 spherical beam

---
 src/xrtm_four_stream.c |  8 ++++----
 src/xrtm_six_stream.c  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 2bf7d43..5f594e8 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -542,8 +542,8 @@ if (solar) {
           h[0] = apb[0][0] * p[0] + apb[0][1] * p[1] + e[0];
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + e[1];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -558,7 +558,7 @@ if (solar) {
           mat2d_matvec(apb, p, v1);
           vec2d_add(v1, e, h);
 
-          vec2d_scale(mu_0, h, v1);
+          vec2d_scale(1. / as_0[i], h, v1);
           vec2d_add(v1, p, v1);
           vec2d_scale(.5, v1, F_p[i]);
 
@@ -574,7 +574,7 @@ if (solar) {
           dm_v_mul(apb, p, 2, 2, v1);
           dvec_add(v1, e, h, 2);
 
-          dvec_scale(mu_0, h, v1, 2);
+          dvec_scale(1. / as_0[i], h, v1, 2);
           dvec_add(v1, p, v1, 2);
           dvec_scale(.5, v1, F_p[i], 2);
 
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..69b618b 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -792,9 +792,9 @@ if (n_derivs > 0) {
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + apb[1][2] * p[2] + e[1];
           h[2] = apb[2][0] * p[0] + apb[2][1] * p[1] + apb[2][2] * p[2] + e[2];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
-          F_p[i][2] = (mu_0 * h[2] + p[2]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
+          F_p[i][2] = (h[2] / as_0[i] + p[2]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -810,7 +810,7 @@ if (n_derivs > 0) {
           mat3d_matvec(apb, p, v1);
           vec3d_add(v1, e, h);
 
-          vec3d_scale(mu_0, h, v1);
+          vec3d_scale(1. / as_0[i], h, v1);
           vec3d_add(v1, p, v1);
           vec3d_scale(.5, v1, F_p[i]);
 
@@ -826,7 +826,7 @@ if (n_derivs > 0) {
           dm_v_mul(apb, p, 3, 3, v1);
           dvec_add(v1, e, h, 3);
 
-          dvec_scale(mu_0, h, v1, 3);
+          dvec_scale(1. / as_0[i], h, v1, 3);
           dvec_add(v1, p, v1, 3);
           dvec_scale(.5, v1, F_p[i], 3);
 
-- 
2.43.0


From 80b1759bed636bbbedde68cce262372f8b24fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 124/145] fix: two-, four- and six-stream solvers with
 QUAD_NORM_GAUS_LEG

---
 src/xrtm_four_stream.c |  65 +------------------
 src/xrtm_six_stream.c  | 137 +----------------------------------------
 src/xrtm_two_stream.c  |   2 +-
 3 files changed, 5 insertions(+), 199 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 5f594e8..df45cfe 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -51,63 +51,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  2.1132486540518713e-01;
-          Y[2] = -4.3301270189221930e-01;
-          Y[3] = -2.9339382851364088e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.9113739634803417e-01;
-          Y[2] = -2.5297384456881489e-01;
-          Y[3] =  3.2872926407690672e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  5.8502498576049988e-01;
-          Y[3] =  2.7644581385388761e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.2199120072772409e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  7.8867513459481287e-01;
-          Y[2] =  4.3301270189221941e-01;
-          Y[3] =  4.3393828513641042e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -4.3473643283710062e-01;
-          Y[2] = -5.9386101120610690e-01;
-          Y[3] = -5.6173675511805921e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  2.3147159516722612e-01;
-          Y[3] =  4.0820738302757004e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -1.2991165542275507e-01;
-     }
-}
-
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -303,12 +246,8 @@ void rtm_four_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
@@ -1199,7 +1138,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  2, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1]), qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
@@ -1229,7 +1168,7 @@ if (n_umus != 0) {
      if (downwelling)
           sfi_dn(i_four,
                  2, 1, 0, n_layers,
-                 1., qx, qw, F_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1]), qx, qw, F_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  NULL, NULL,
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 69b618b..129efd9 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -50,134 +50,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  1.1270166537925830e-01;
-          Y[2] = -4.8094750193111252e-01;
-          Y[3] = -1.6547375096555625e-01;
-          Y[4] =  3.2807458365518544e-01;
-          Y[5] =  1.9893319427622813e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -7.0260171314221176e-01;
-          Y[2] = -1.3715137481548439e-01;
-          Y[3] =  4.0292921564868400e-01;
-          Y[4] = -1.8223631786344985e-01;
-          Y[5] =  2.8081218084679899e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  6.0459428593010522e-01;
-          Y[3] =  1.5236295047544621e-01;
-          Y[4] = -3.5556492019184532e-01;
-          Y[5] = -1.9387690021392759e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4840021642031433e-01;
-          Y[4] =  1.6352229402102095e-01;
-          Y[5] = -3.2126686945422495e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  5.0971315964803132e-01;
-          Y[5] =  1.7233656587417068e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  4.8047556172276995e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  5.0000000000000000e-01;
-          Y[2] = -1.2500000000000000e-01;
-          Y[3] = -4.3750000000000000e-01;
-          Y[4] = -2.8906250000000000e-01;
-          Y[5] =  8.9843750000000000e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.1237243569579447e-01;
-          Y[2] = -5.3033008588991071e-01;
-          Y[3] = -9.3750000000000014e-02;
-          Y[4] = -3.0257682392245444e-01;
-          Y[5] = -3.5205044263593283e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  4.5927932677184591e-01;
-          Y[3] =  5.1348989766109321e-01;
-          Y[4] =  2.2234764798058917e-01;
-          Y[5] = -1.6982082124440748e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -3.6309218870694526e-01;
-          Y[4] =  4.8032581715435607e-01;
-          Y[5] =  3.0020363572147252e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.9413829057838586e-01;
-          Y[5] =  4.4120743586757882e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  2.4165926516368683e-01;
-     }
-}
-
-
-
-static void calc_Y_3(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  8.8729833462074170e-01;
-          Y[2] =  6.8094750193111264e-01;
-          Y[3] =  4.1547375096555617e-01;
-          Y[4] =  1.3442541634481442e-01;
-          Y[5] = -1.1768319427622852e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -3.2611475386683919e-01;
-          Y[2] = -5.0118808883115185e-01;
-          Y[3] = -5.8642821144342672e-01;
-          Y[4] =  5.7443661482497066e-01;
-          Y[5] =  4.7276033207965390e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  1.3025263690484826e-01;
-          Y[3] =  2.5842896765342832e-01;
-          Y[4] =  3.7928200264310813e-01;
-          Y[5] =  4.6559021420497959e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4837967049776844e-02;
-          Y[4] =  1.2873600645546979e-01;
-          Y[5] =  2.2073939349622659e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.3657607267441809e-02;
-          Y[5] =  6.2974066588538019e-02;
-     }
-     else if (i_four == 5) {
-          Y[5] =  1.0350885816619845e-02;
-     }
-}
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -463,14 +335,9 @@ void rtm_six_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-     calc_Y_3(i_four, Y_q[2]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
      calc_Y_x(i_four, qx[2], Y_q[2]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
@@ -1537,7 +1404,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  3, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1] + qx[2] * qw[2]), qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
@@ -1567,7 +1434,7 @@ if (n_umus != 0) {
      if (downwelling)
           sfi_dn(i_four,
                  3, 1, 0, n_layers,
-                 1., qx, qw, F_0,
+                 .5 / (qx[0] * qw[0] + qx[1] * qw[1] + qx[2] * qw[2]), qx, qw, F_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  NULL, NULL,
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index dd3f172..8e0bae2 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -297,7 +297,7 @@ void rtm_two_stream(int i_four,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     solfac = F_0 * mu_0 / PI;
+     solfac = .5 / qx * F_0 * mu_0 / PI;
 
 
      /*-------------------------------------------------------------------------
-- 
2.43.0


From 1784b7e8b2b0e09dd106e843eb749dddaac80fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 125/145] fix: two-, four- and six-stream solvers leave
 F_iso_top and F_iso_bot out

---
 src/prototypes/xrtm_four_stream_p.h |  2 +-
 src/prototypes/xrtm_six_stream_p.h  |  2 +-
 src/prototypes/xrtm_two_stream_p.h  |  2 +-
 src/xrtm_four_stream.c              | 12 ++++++++----
 src/xrtm_model.c                    |  3 +++
 src/xrtm_six_stream.c               | 12 ++++++++----
 src/xrtm_two_stream.c               | 12 +++++++++---
 7 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/prototypes/xrtm_four_stream_p.h b/src/prototypes/xrtm_four_stream_p.h
index 767d103..ddb096a 100644
--- a/src/prototypes/xrtm_four_stream_p.h
+++ b/src/prototypes/xrtm_four_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_four_stream.c */
-void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double F_iso_bot, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_six_stream_p.h b/src/prototypes/xrtm_six_stream_p.h
index 392ac39..8746a8b 100644
--- a/src/prototypes/xrtm_six_stream_p.h
+++ b/src/prototypes/xrtm_six_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_six_stream.c */
-void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double F_iso_bot, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_two_stream_p.h b/src/prototypes/xrtm_two_stream_p.h
index 2580fb4..f38727f 100644
--- a/src/prototypes/xrtm_two_stream_p.h
+++ b/src/prototypes/xrtm_two_stream_p.h
@@ -1,4 +1,4 @@
 /* xrtm_two_stream.c */
-void rtm_two_stream(int i_four, int n_derivs, int n_layers, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_two_stream(int i_four, int n_derivs, int n_layers, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
 void calc_level_radiance(int i_const, int n_derivs, double atran, double *atran_l, double Lambda1, double Lambda2, double X_p, double X_m, double F_p, double F_m, double *Lambda1_l, double *Lambda2_l, double *X_p_l, double *X_m_l, double *F_p_l, double *F_m_l, double *x, double **x_l, double *I_p, double *I_m, double **I_p_l, double **I_m_l, derivs_data *derivs);
 void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double F_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_u0_pm, double **P_uq_pp, double **P_uq_mp, double *nu, double *X_p, double *X_m, double *F_p, double *F_m, double ***P_u0_pm_l, double ***P_uq_pp_l, double ***P_uq_mp_l, double **nu_l, double **X_p_l, double **X_m_l, double **F_p_l, double **F_m_l, double *B, double **B_l, double *I_0, double **I_0_l, int offset, double **I_u, double ***I_u_l, int add_single_scattering, int solar, int thermal, int utau_output, derivs_data *derivs, work_data work, int flag);
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index df45cfe..01c3582 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -66,6 +66,7 @@ void rtm_four_stream(int i_four,
                      double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                      double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
                      double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                     double F_iso_top, double F_iso_bot,
                      double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                      int add_single_scattering, int solar, int thermal, int surface,
                      int upwelling, int downwelling, int utau_output,
@@ -662,7 +663,8 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(2, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 2);
+     insert_vector1_d(2, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -678,7 +680,9 @@ if (thermal) {
      }
 
      if (! surface) {
-          dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 2);
+          dvec_scale(atran[n_layers - 1], F_p[n_layers - 1], v1, 2);
+
+          dvec_sub(In_p, v1, v1, 2);
 
           insert_vector1_d(2, 2 * n_layers - 1, b, 1., v1);
      }
@@ -1160,7 +1164,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                  b, NULL,
-                 0., NULL,
+                 F_iso_bot, NULL,
                  I_m2, NULL, I_p, NULL, 2,
                  1, 0, surface, 1, 0, utau_output,
                  NULL, work);
@@ -1188,7 +1192,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  NULL, NULL,
                  b, NULL,
-                 0., NULL,
+                 F_iso_top, NULL,
                  I_m2, NULL, I_m, NULL, 2,
                  1, 0, 1, 0, utau_output,
                  NULL, work);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 117cc76..16277a3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5340,6 +5340,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                          d->as_0, d->as_0_l, d->atran, d->atran_l,
                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                         d->F_iso_top, d->F_iso_bot,
                          I_p, I_m, I_p_l, I_m_l,
                          add_single_scattering,
                          solar, thermal, surface,
@@ -5361,6 +5362,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                           Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                           d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          d->F_iso_top, d->F_iso_bot,
                           I_p, I_m, I_p_l, I_m_l,
                           add_single_scattering,
                           solar, thermal, surface,
@@ -5381,6 +5383,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                           Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                           d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          d->F_iso_top, d->F_iso_bot,
                           I_p, I_m, I_p_l, I_m_l,
                           add_single_scattering,
                           solar, thermal, surface,
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 129efd9..aacc853 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -145,6 +145,7 @@ void rtm_six_stream(int i_four,
                     double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                     double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
                     double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                    double F_iso_top, double F_iso_bot,
                     double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                     int add_single_scattering, int solar, int thermal, int surface,
                     int upwelling, int downwelling, int utau_output,
@@ -821,7 +822,8 @@ if (n_derivs > 0) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(3, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 3);
+     insert_vector1_d(3, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -837,7 +839,9 @@ if (n_derivs > 0) {
      }
 
      if (! surface) {
-          dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 3);
+          dvec_scale(atran[n_layers - 1], F_p[n_layers - 1], v1, 3);
+
+          dvec_sub(In_p, v1, v1, 3);
 
           insert_vector1_d(3, 2 * n_layers - 1, b, 1., v1);
      }
@@ -1426,7 +1430,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                  b, NULL,
-                 0., NULL,
+                 F_iso_bot, NULL,
                  I_m2, NULL, I_p, NULL, 3,
                  1, 0, surface, 1, 0, utau_output,
                  NULL, work);
@@ -1454,7 +1458,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  NULL, NULL,
                  b, NULL,
-                 0., NULL,
+                 F_iso_top, NULL,
                  I_m2, NULL, I_m, NULL, 3,
                  1, 0, 1, 0, utau_output,
                  NULL, work);
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 8e0bae2..0a94ca1 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -58,6 +58,7 @@ void rtm_two_stream(int i_four,
                     double *as_0, double **as_0_l, double *atran, double **atran_l,
                     double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                     double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                    double F_iso_top, double F_iso_bot,
                     double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                     int add_single_scattering, int solar, int thermal, int surface,
                     int upwelling, int downwelling, int utau_output,
@@ -667,6 +668,11 @@ if (solar) {
      b[2 * n_layers - 1] = a1 - a2 * atran[n_layers - 1];
 }
 
+     if (i_four == 0) {
+          b[0]                += F_iso_top;
+          b[2 * n_layers - 1] += F_iso_bot;
+     }
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -1117,7 +1123,7 @@ else {
            *------------------------------------------------------------------*/
 if (upwelling) {
           for (i = 0; i < n_umus; ++i)
-               I_0[i] = 0.;
+               I_0[i] = i_four == 0 ? F_iso_bot : 0.;
 
           for (i = 0; i < n_derivs; ++i) {
                for (j = 0; j < n_umus; ++j)
@@ -1131,7 +1137,7 @@ if (upwelling) {
                a1 = x[ii] * -X_m[i] * Lambda[i] + x[ii + 1] * -X_p[i] + F_m[i] * atran[i];
 
                for (j = 0; j < n_umus; ++j) {
-                    I_0[j] = a1 * Rs_uq[j][0];
+                    I_0[j] += a1 * Rs_uq[j][0];
 if (solar) {
      if (add_single_scattering)
                     I_0[j] += solfac * btran[n_layers - 0] * Rs_u0[j];
@@ -1202,7 +1208,7 @@ if (add_single_scattering) {
            *------------------------------------------------------------------*/
 if (downwelling) {
           for (i = 0; i < n_umus; ++i)
-               I_0[i] = 0.;
+               I_0[i] = i_four == 0 ? F_iso_top : 0.;
 
           for (i = 0; i < n_derivs; ++i) {
                for (j = 0; j < n_umus; ++j)
-- 
2.43.0


From df781c492ab8bc910de4e5316c9a2419f862a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 126/145] fix: six-stream eigenvectors of a layer that does not
 scatter in a Fourier term

---
 src/xrtm_six_stream.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index aacc853..5dbd0e8 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -498,6 +498,15 @@ if (n_derivs > 0) {
 
           dd = gamma[0][0] * gamma[1][1] * gamma[2][2] + gamma[0][1] * gamma[1][2] * gamma[2][0] + gamma[0][2] * gamma[1][0] * gamma[2][1] - gamma[0][2] * gamma[1][1] * gamma[2][0] - gamma[0][0] * gamma[1][2] * gamma[2][1] - gamma[0][1] * gamma[1][0] * gamma[2][2];
 
+if (gamma[0][1] == 0. && gamma[0][2] == 0. && gamma[1][0] == 0. &&
+    gamma[1][2] == 0. && gamma[2][0] == 0. && gamma[2][1] == 0.) {
+          for (j = 0; j < 3; ++j) {
+               evals[j] = gamma[j][j];
+               for (k = 0; k < 3; ++k)
+                    evecs[j][k] = j == k ? 1. : 0.;
+          }
+}
+else {
           cubic_roots_general(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
           evals[0] *= -1.;
           evals[1] *= -1.;
@@ -516,6 +525,7 @@ if (n_derivs > 0) {
           evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
           evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
           evecs[2][2] = 1.;
+}
 
 
           /*--------------------------------------------------------------------
-- 
2.43.0


From 18911fea84487a6590e9157e7442058a7f8fd272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 127/145] fix: two-, four- and six-stream solvers use phase
 function coefficients that are not set

---
 src/xrtm_model.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 16277a3..d6467c8 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5012,6 +5012,29 @@ static int fourier_get_add_both_ways(xrtm_data *d, int i_four, int solver, doubl
 
 
 
+/*******************************************************************************
+ * The two-, four- and six-stream solvers use the first 2 * n_quad coefficients
+ * of each layer, however many of them are set.
+ ******************************************************************************/
+static double ***get_stream_coefs(xrtm_data *d, work_data *work) {
+
+     int i;
+     int j;
+
+     double ***coef;
+
+     coef = get_work_d3(work, d->n_layers, 1, 2 * d->n_quad);
+
+     for (i = 0; i < d->n_layers; ++i) {
+          for (j = 0; j < 2 * d->n_quad; ++j)
+               coef[i][0][j] = j < d->n_coef_layer2[i] ? d->coef[i][0][j] : 0.;
+     }
+
+     return coef;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5028,6 +5051,8 @@ static int fourier_get_bvp(xrtm_data *d, int i_four, int solver, double **I_p, d
      double **In_p_l;
      double **I1_m_l;
 
+     double ***coef;
+
      double **P_q0_mm;
      double **P_q0_pm;
 
@@ -5135,6 +5160,10 @@ static int fourier_get_bvp(xrtm_data *d, int i_four, int solver, double **I_p, d
      update_opt_props_all(d, work);
 
      update_beam_params_all(d, work);
+     coef = NULL;
+     if (solver & XRTM_SOLVER_TWO_STREAM || solver & XRTM_SOLVER_FOUR_STREAM || solver & XRTM_SOLVER_SIX_STREAM)
+          coef = get_stream_coefs(d, &work);
+
 if (! (solver & XRTM_SOLVER_TWO_STREAM || solver & XRTM_SOLVER_FOUR_STREAM || solver & XRTM_SOLVER_SIX_STREAM)) {
 if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
      if (get_phase_vecs_q0_all(d, i_four, &P_q0_mm, &P_q0_pm, &P_q0_mm_l, &P_q0_pm_l, 1, &work)) {
@@ -5335,7 +5364,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                          d->qx[0], d->F_0, d->mu_0,
                          d->n_ulevels, d->ulevels, d->utaus2,
                          d->n_umus, d->umus,
-                         d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                         coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
                          d->btran, d->btran_l,
                          d->as_0, d->as_0_l, d->atran, d->atran_l,
                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
@@ -5356,7 +5385,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
-                          d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                          coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
                           d->btran, d->btran_l,
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
@@ -5376,7 +5405,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
-                          d->coef, d->coef_l,
+                          coef, d->coef_l,
                           d->omega, d->omega_l, d->ltau, d->ltau_l,
                           d->btran, d->btran_l,
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
-- 
2.43.0


From a9180326cdbb3ae9f3a285cedbd0aa899d1d18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 128/145] fix: boundary input left out for other solvers on an
 instance with TWO_STREAM

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index d6467c8..8383fec 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5199,7 +5199,7 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
           }
      }
 }
-if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
+if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      update_diff_bound_input(d, i_four, save_tree, work);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From a4a39561ab08cd3e436830502d2745a7f962b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 129/145] fix: two- and four-stream mean and flux with SFI

---
 src/xrtm_four_stream.c |   2 -
 src/xrtm_two_stream.c  | 212 ++++++++++++++++++++---------------------
 2 files changed, 105 insertions(+), 109 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 01c3582..6f62f8d 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -722,7 +722,6 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-if (n_umus == 0) {
      if (! utau_output) {
           for (i = 0; i < n_ulevels; ++i) {
                ii = ulevels[i];
@@ -989,7 +988,6 @@ if (n_umus == 0) {
                              save_tree, work);
 */
      }
-}
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 0a94ca1..45b128f 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -871,162 +871,160 @@ if (0)
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (n_umus == 0) {
-          if (! utau_output) {
-               for (i = 0; i < n_ulevels; ++i) {
-                    ii = ulevels[i];
+     if (! utau_output) {
+          for (i = 0; i < n_ulevels; ++i) {
+               ii = ulevels[i];
 
-                    if (ii != n_layers) {
-                         iii = ii * 2 * 1;
+               if (ii != n_layers) {
+                    iii = ii * 2 * 1;
 if (1) {
-                         a1 = x[iii    ];
-                         a2 = x[iii + 1] * Lambda[ii];
+                    a1 = x[iii    ];
+                    a2 = x[iii + 1] * Lambda[ii];
 
-                         I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii];
-                         I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii];
+                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii];
+                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii];
      if (0) {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l = x_l[j][iii    ];
-                              a2_l = x_l[j][iii + 1] * Lambda[ii] + x[iii + 1] * Lambda_l[ii][j];
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l = x_l[j][iii    ];
+                         a2_l = x_l[j][iii + 1] * Lambda[ii] + x[iii + 1] * Lambda_l[ii][j];
 
-                              I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]  +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j];
-                              I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]  +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j];
-                         }
+                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]  +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j];
+                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]  +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j];
+                    }
      }
      else {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l  = x_l[j][iii    ];
-                              a2_l  = x_l[j][iii + 1] * Lambda[ii];
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l  = x_l[j][iii    ];
+                         a2_l  = x_l[j][iii + 1] * Lambda[ii];
 
-                              if (derivs->layers[ii][j])
-                                   a2_l += x[iii + 1] * Lambda_l[ii][j];
+                         if (derivs->layers[ii][j])
+                              a2_l += x[iii + 1] * Lambda_l[ii][j];
 
-                              I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                              I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
 
-                              if (derivs->layers[ii][j]) {
-                                   I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                                   I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                              }
+                         if (derivs->layers[ii][j]) {
+                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
+                         }
 
-                              if (derivs->beam[ii][j]) {
-                                   I_p_l[i][j][0] += F_p_l[ii][j];
-                                   I_m_l[i][j][0] += F_m_l[ii][j];
-                              }
+                         if (derivs->beam[ii][j]) {
+                              I_p_l[i][j][0] += F_p_l[ii][j];
+                              I_m_l[i][j][0] += F_m_l[ii][j];
                          }
+                    }
      }
 }
 else
-                         calc_level_radiance(iii, n_derivs, 1., NULL, 1., Lambda[ii], X_p[ii], X_m[ii], F_p[ii], F_m[ii], NULL, Lambda_l[ii], X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
-                    }
-                    else {
-                         ii = n_layers - 1;
+                    calc_level_radiance(iii, n_derivs, 1., NULL, 1., Lambda[ii], X_p[ii], X_m[ii], F_p[ii], F_m[ii], NULL, Lambda_l[ii], X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
+               }
+               else {
+                    ii = n_layers - 1;
 
-                         iii = ii * 2 * 1;
+                    iii = ii * 2 * 1;
 if (1) {
-                         a1 = x[iii    ] * Lambda[ii];
-                         a2 = x[iii + 1];
+                    a1 = x[iii    ] * Lambda[ii];
+                    a2 = x[iii + 1];
 
-                         I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * atran[ii];
-                         I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * atran[ii];
+                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * atran[ii];
+                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * atran[ii];
      if (0) {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l = x_l[j][iii    ] * Lambda[ii] + x[iii    ] * Lambda_l[ii][j];
-                              a2_l = x_l[j][iii + 1];
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l = x_l[j][iii    ] * Lambda[ii] + x[iii    ] * Lambda_l[ii][j];
+                         a2_l = x_l[j][iii + 1];
 
-                              I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
-                              I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
-                         }
+                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
+                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
+                    }
      }
      else {
-                         for (j = 0; j < n_derivs; ++j) {
-                              a1_l  = x_l[j][iii] * Lambda  [ii];
-                              if (derivs->layers[ii][j])
-                                   a1_l += x[iii] * Lambda_l[ii][j];
-                              a2_l  = x_l[j][iii + 1];
-
-                              I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                              I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
-
-                              if (derivs->layers[ii][j]) {
-                                   I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                                   I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                              }
-
-                              if (derivs->beam[ii][j]) {
-                                   I_p_l[i][j][0] += F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
-                                   I_m_l[i][j][0] += F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
-                              }
+                    for (j = 0; j < n_derivs; ++j) {
+                         a1_l  = x_l[j][iii] * Lambda  [ii];
+                         if (derivs->layers[ii][j])
+                              a1_l += x[iii] * Lambda_l[ii][j];
+                         a2_l  = x_l[j][iii + 1];
+
+                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+
+                         if (derivs->layers[ii][j]) {
+                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
                          }
+
+                         if (derivs->beam[ii][j]) {
+                              I_p_l[i][j][0] += F_p_l[ii][j] * atran[ii] + F_p[ii] * atran_l[ii][j];
+                              I_m_l[i][j][0] += F_m_l[ii][j] * atran[ii] + F_m[ii] * atran_l[ii][j];
+                         }
+                    }
      }
 }
 else
-                         calc_level_radiance(iii, n_derivs, atran[ii], atran_l[ii], Lambda[ii], 1., X_p[ii], X_m[ii], F_p[ii], F_m[ii], Lambda_l[ii], NULL, X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
-                    }
+                    calc_level_radiance(iii, n_derivs, atran[ii], atran_l[ii], Lambda[ii], 1., X_p[ii], X_m[ii], F_p[ii], F_m[ii], Lambda_l[ii], NULL, X_p_l[ii], X_m_l[ii], F_p_l[ii], F_m_l[ii], x, x_l, I_p[i], I_m[i], I_p_l[i], I_m_l[i], derivs);
                }
           }
+     }
 
 
-          /*--------------------------------------------------------------------
-           *
-           *------------------------------------------------------------------*/
-          else {
-               for (i = 0; i < n_ulevels; ++i) {
-                    ii = ulevels[i];
+     /*--------------------------------------------------------------------
+      *
+      *------------------------------------------------------------------*/
+     else {
+          for (i = 0; i < n_ulevels; ++i) {
+               ii = ulevels[i];
 
-                    iii = ii * 2 * 1;
+               iii = ii * 2 * 1;
 
-                    uatran = exp(-utaus[i] * as_0[ii]);
+               uatran = exp(-utaus[i] * as_0[ii]);
 
-                    a1 = x[iii]     * exp(-nu[ii] * (utaus[i] - 0.));
-                    a2 = x[iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+               a1 = x[iii]     * exp(-nu[ii] * (utaus[i] - 0.));
+               a2 = x[iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                    I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * uatran;
-                    I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * uatran;
+               I_p[i][0] = a1 *  X_p[ii] + a2 *  X_m[ii] + F_p[ii] * uatran;
+               I_m[i][0] = a1 * -X_m[ii] + a2 * -X_p[ii] + F_m[ii] * uatran;
 if (0) {
-                    for (j = 0; j < n_derivs; ++j) {
-                         utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
+               for (j = 0; j < n_derivs; ++j) {
+                    utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
 
-                         uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
+                    uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
 
-                         a1_l = x_l[j][iii]     * exp(-nu[ii] * (utaus[i] - 0.))       + x[iii]     * (-nu_l[ii][j] * (utaus[i] - 0.)       - nu[ii] * (utau_l        - 0.))     * exp(-nu[ii] * (utaus[i] - 0.));
-                         a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i])) + x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    a1_l = x_l[j][iii]     * exp(-nu[ii] * (utaus[i] - 0.))       + x[iii]     * (-nu_l[ii][j] * (utaus[i] - 0.)       - nu[ii] * (utau_l        - 0.))     * exp(-nu[ii] * (utaus[i] - 0.));
+                    a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i])) + x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
-                         I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
-                    }
+                    I_p_l[i][j][0] = a1_l *  X_p[ii] + a1 *  X_p_l[ii][j]   +   a2_l *  X_m[ii] + a2 *  X_m_l[ii][j]   +   F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
+                    I_m_l[i][j][0] = a1_l * -X_m[ii] + a1 * -X_m_l[ii][j]   +   a2_l * -X_p[ii] + a2 * -X_p_l[ii][j]   +   F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
+               }
 }
 else {
-                    for (j = 0; j < n_derivs; ++j) {
-                         utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
+               for (j = 0; j < n_derivs; ++j) {
+                    utau_l   =  utaus[i] * ltau_l[ii][j] / ltau[ii];
 
-                         uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
+                    uatran_l = (-utau_l * as_0[ii] - utaus[i] * as_0_l[ii][j]) * uatran;
 
-                         a1_l = x_l[j][iii] * exp(-nu[ii] * (utaus[i] - 0.));
+                    a1_l = x_l[j][iii] * exp(-nu[ii] * (utaus[i] - 0.));
 
-                         if (derivs->layers[ii][j])
-                              a1_l += x[iii] * (-nu_l[ii][j] * (utaus[i] - 0.) - nu[ii] * (utau_l - 0.)) * exp(-nu[ii] * (utaus[i] - 0.));
+                    if (derivs->layers[ii][j])
+                         a1_l += x[iii] * (-nu_l[ii][j] * (utaus[i] - 0.) - nu[ii] * (utau_l - 0.)) * exp(-nu[ii] * (utaus[i] - 0.));
 
-                         a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    a2_l = x_l[j][iii + 1] * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         if (derivs->layers[ii][j])
-                              a2_l += x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
+                    if (derivs->layers[ii][j])
+                         a2_l += x[iii + 1] * (-nu_l[ii][j] * (ltau[ii] - utaus[i]) - nu[ii] * (ltau_l[ii][j] - utau_l)) * exp(-nu[ii] * (ltau[ii] - utaus[i]));
 
-                         I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
-                         I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
+                    I_p_l[i][j][0]  = a1_l *  X_p[ii] + a2_l *  X_m[ii];
+                    I_m_l[i][j][0]  = a1_l * -X_m[ii] + a2_l * -X_p[ii];
 
-                         if (derivs->layers[ii][j]) {
-                              I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
-                              I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
-                         }
+                    if (derivs->layers[ii][j]) {
+                         I_p_l[i][j][0] += a1 *  X_p_l[ii][j] + a2 *  X_m_l[ii][j];
+                         I_m_l[i][j][0] += a1 * -X_m_l[ii][j] + a2 * -X_p_l[ii][j];
+                    }
 
-                         if (derivs->beam[ii][j]) {
-                              I_p_l[i][j][0] += F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
-                              I_m_l[i][j][0] += F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
-                         }
+                    if (derivs->beam[ii][j]) {
+                         I_p_l[i][j][0] += F_p_l[ii][j] * uatran + F_p[ii] * uatran_l;
+                         I_m_l[i][j][0] += F_m_l[ii][j] * uatran + F_m[ii] * uatran_l;
                     }
-}
                }
+}
           }
      }
 
@@ -1034,7 +1032,7 @@ else {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     else {
+     if (n_umus != 0) {
           v1      = get_work_d1(&work, n_umus);
           v2      = get_work_d1(&work, n_umus);
           v3      = get_work_d1(&work, n_umus);
-- 
2.43.0


From c04dd68b517e74b5052cc1be529a270642fe1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 130/145] fix: exponential size distribution without
 derivatives

---
 misc/rtutil_size_dist.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc/rtutil_size_dist.c b/misc/rtutil_size_dist.c
index 8caa9fe..5bc5119 100644
--- a/misc/rtutil_size_dist.c
+++ b/misc/rtutil_size_dist.c
@@ -594,6 +594,9 @@ int get_particle_dist(enum size_dist_type dist_type,
 
           a = 0.;
 
+          for (i = 0; i < n_derivs; ++i)
+               a_l[i] = 0.;
+
           get_particle_dist_quad(n_int2, n_quad, n_derivs, *r1_, *r2_,
                                  r1_l_, r2_l_, qx, qw, qx_l, qw_l);
 
@@ -605,11 +608,9 @@ int get_particle_dist(enum size_dist_type dist_type,
                a += nr[i] * qw[i];
 
                for (j = 0; j < n_derivs; ++j) {
-/*
-                    nr_l[i][j] =
+                    nr_l[i][j] = -nr[i] * 2. * (a1_l[j] * qx[i] + a1 * qx_l[i][j]);
 
                     a_l[j] += nr_l[i][j] * qw[i] + nr[i] * qw_l[i][j];
-*/
                }
           }
      }
-- 
2.43.0


From 201fd54b9b8312be1fabe65ec59dd4fd45f03700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:06 +0000
Subject: [PATCH 131/145] fix: adjoint derivatives with the adding options

---
 src/prototypes/xrtm_model_p.h |  1 +
 src/xrtm_model.c              |  4 ++--
 src/xrtm_model_a.c            | 36 +++++++++--------------------------
 3 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/prototypes/xrtm_model_p.h b/src/prototypes/xrtm_model_p.h
index 05fc493..aca64e8 100644
--- a/src/prototypes/xrtm_model_p.h
+++ b/src/prototypes/xrtm_model_p.h
@@ -2,6 +2,7 @@
 int xrtm_phase_type_to_coef_type(xrtm_data *d);
 int solar_surface_for_i_four(xrtm_data *d, int i_four);
 int thermal_surface_for_i_four(xrtm_data *d, int i_four);
+int has_iso_input_for_i_four(xrtm_data *d, int i_four);
 void get_delta_m_f(xrtm_data *d, int i_layer, int i_deriv, int n_derivs, double a, double *f, double *f_l);
 void get_chapman(xrtm_data *d, double ***chapman);
 void get_Y_p(xrtm_data *d, int i_four, double ***Y_p);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 8383fec..a2f677a 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5487,7 +5487,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
  * The one way adding schemes do not carry the isotropic boundary sources through
  * the atmosphere.
  ******************************************************************************/
-static int has_iso_input_for_i_four(xrtm_data *d, int i_four) {
+int has_iso_input_for_i_four(xrtm_data *d, int i_four) {
 
      int i;
 
@@ -5547,7 +5547,7 @@ static int get_fourier(xrtm_data *d, int i_four, int solver, double **I_p, doubl
      if (solver & XRTM_SOLVERS_ADDING) {
           select_adding_solver(d, solver);
 
-          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING && ! has_iso_input_for_i_four(d, i_four)) {
+          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING && ! (d->options & XRTM_OPTION_REVERSE_DERIVS) && ! has_iso_input_for_i_four(d, i_four)) {
                if (fourier_get_add_top_down(d, i_four, solver, I_p, I_m, I_p_l, I_m_l, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_top_down()\n");
                     return -1;
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index fe9e88f..ccd659d 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2206,14 +2206,9 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, surface, 1, save_tree, &work)) {
-               fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_a()\n");
-               return -1;
-          }
-     }
-     else {
-
+     if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, surface, 1, save_tree, &work)) {
+          fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_a()\n");
+          return -1;
      }
 
 
@@ -2229,6 +2224,8 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
       *-----------------------------------------------------------------------*/
      update_diff_bound_input_a(d, i_four, save_tree, work);
 
+     update_opt_props_all_a(d, work);
+
 
      /*-------------------------------------------------------------------------
       *
@@ -2414,15 +2411,9 @@ static int fourier_get_add_both_ways_a(xrtm_data *d, int i_four, int solver, dou
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) ||
-          ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_R_T_S_U_W_V_a(d, i_four, solver, save->R_p, save->T_p, save->R_m, save->T_m, save->S_p, save->S_m, R_p_a, T_p_a, R_m_a, T_m_a, S_p_a, S_m_a, 1, save_tree, &work)) {
-               fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V_a()\n");
-               return -1;
-          }
-     }
-     else {
-
+     if (get_total_R_T_S_U_W_V_a(d, i_four, solver, save->R_p, save->T_p, save->R_m, save->T_m, save->S_p, save->S_m, R_p_a, T_p_a, R_m_a, T_m_a, S_p_a, S_m_a, 1, save_tree, &work)) {
+          fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V_a()\n");
+          return -1;
      }
 
 
@@ -2816,16 +2807,7 @@ static int get_fourier_a(xrtm_data *d, int i_four, int solver, double **I_p, dou
       *
       *-----------------------------------------------------------------------*/
      if (solver & XRTM_SOLVERS_ADDING) {
-          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
-/*
-               if (fourier_get_add_top_down_a(d, i_four, solver, I_p, I_m, I_p_a, I_m_a, save_tree, work)) {
-                    fprintf(stderr, "ERROR: fourier_get_add_top_down_a()\n");
-                    return -1;
-               }
-*/
-          }
-          else
-          if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING) {
+          if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING && ! has_iso_input_for_i_four(d, i_four)) {
                if (fourier_get_add_bottom_up_a(d, i_four, solver, I_p, I_m, I_p_a, I_m_a, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_bottom_up_a()\n");
                     return -1;
-- 
2.43.0


From ac942e2aad66d8ae6c84f9a16bf4f5c4c05429cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 132/145] fix: mat2d_inv sets the last element of the inverse

---
 misc/gmath_mat2d3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmath_mat2d3d.c b/misc/gmath_mat2d3d.c
index 472f84a..54a1430 100644
--- a/misc/gmath_mat2d3d.c
+++ b/misc/gmath_mat2d3d.c
@@ -353,7 +353,7 @@ int mat2d_inv(double a[2][2], double b[2][2]) {
           b[0][0] =  a[1][1] / det;
           b[0][1] = -a[0][1] / det;
           b[1][0] = -a[1][0] / det;
-          b[0][0] =  a[0][0] / det;
+          b[1][1] =  a[0][0] / det;
 
           return 1;
      }
-- 
2.43.0


From 68f8e50db7fa1a35f1ee7f4e6e8c771434b78366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 133/145] fix: mat_p_inf_norm of a matrix that is not square

---
 misc/gmatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 4a9dde5..aa19cc1 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -159,9 +159,9 @@ double XCAT(prefix_, mat_p_inf_norm)(type_ **a, long m, long n) {
      double sum;
      double max = -DBL_MAX;
 
-     for (i = 0; i < n; ++i) {
+     for (i = 0; i < m; ++i) {
           sum = 0.;
-          for (j = 0; j < m; ++j) {
+          for (j = 0; j < n; ++j) {
                sum += xabs_(a[i][j]);
           }
           if (sum > max)
-- 
2.43.0


From 647ac4233eff399e7cfb3607bcad2b51de60aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 134/145] fix: the Frobenius norm of a complex matrix counts
 the imaginary parts

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index aa19cc1..0e617a5 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -183,7 +183,7 @@ double XCAT(prefix_, mat_frob_norm)(type_ **a, long m, long n) {
      sum = 0.;
      for (i = 0; i < m; ++i) {
           for (j = 0; j < n; ++j) {
-               sum += (double) xreal_(a[i][j]) * (double) xreal_(a[i][j]);
+               sum += (double) xabs_(a[i][j]) * (double) xabs_(a[i][j]);
           }
      }
 
-- 
2.43.0


From 09c1985123c7f26e0be1601f94c03a3be82d9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 135/145] fix: mat_potrs with another number of right hand
 sides than equations

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 0e617a5..4109cb0 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -967,7 +967,7 @@ void XCAT(prefix_, mat_potrs)(type_ **a, type_ **b, int n, int nrhs) {
 
      int info;
 
-     XCAT(prefix_, potrs_)("l", &n, &nrhs, *a, &n, *b, &nrhs, &info);
+     XCAT(prefix_, potrs_)("l", &n, &nrhs, *a, &n, *b, &n, &info);
 
      if (info) {
           fprintf(stderr, "ERROR: dpotrs() info = %d\n", info);
-- 
2.43.0


From ceaba6e1f4dd76eb83ecaa377444eefa0f70ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 136/145] fix: the diagonal of mat_add_trans when it is not in
 place

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 4109cb0..60c558a 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -212,7 +212,7 @@ void XCAT(prefix_, mat_add_trans)(type_ **a, type_ **c, long m, long n) {
      long j;
 
      for (i = 0; i < m; ++i) {
-          c[i][i] += c[i][i];
+          c[i][i] = a[i][i] + a[i][i];
 
           for (j = i + 1; j < n; ++j) {
                c[i][j] = c[j][i] = a[i][j] + a[j][i];
-- 
2.43.0


From 1bf886ed74f5f0e762726424eaaeabdf850b5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:43 +0000
Subject: [PATCH 137/145] fix: insert_matrix2_d at the column of a block that
 is not square

---
 src/xrtm_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_matrix.c b/src/xrtm_matrix.c
index 667c366..229b004 100644
--- a/src/xrtm_matrix.c
+++ b/src/xrtm_matrix.c
@@ -908,7 +908,7 @@ void insert_matrix2_d(int m, int n, int i, int j, double **a, double alpha, doub
      int jjj;
 
      i *= m;
-     j *= m;
+     j *= n;
 
      if (alpha ==  1.) {
           for (ii = i, iii = 0; iii < m; ++ii, ++iii) {
-- 
2.43.0


From 8fd4212fa26e082ecdeef35975309591a06c0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 138/145] fix: conversions of text to integers refuse values
 that the type cannot hold

---
 misc/gutil_string.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 5d95a73..0615b81 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -156,6 +156,8 @@ int XCAT(gstrto, postfix_)(const char *nprt, type_ *x) {\
 							\
      char *endptr;					\
 							\
+     int64_t value;					\
+							\
      errno = 0;						\
 							\
      if (nprt == NULL)					\
@@ -164,9 +166,11 @@ int XCAT(gstrto, postfix_)(const char *nprt, type_ *x) {\
      if (*nprt == '\0')					\
           return -1;					\
 							\
-     *x = (type_) function_(nprt, &endptr, 10);		\
+     value = function_(nprt, &endptr, 10);		\
 							\
-     if (errno == ERANGE)				\
+     *x = (type_) value;				\
+							\
+     if (errno == ERANGE || (int64_t) *x != value)	\
           return -1;					\
 							\
      if (*endptr != '\0')				\
-- 
2.43.0


From 3bd8085fc63c10047eee5fdce092d892d8a70ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 139/145] fix: gstrtob reads no further than the end of its
 text

---
 misc/gutil_string.c | 69 ++-------------------------------------------
 1 file changed, 2 insertions(+), 67 deletions(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 0615b81..6c2a6a8 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -54,81 +54,16 @@ int gstrtob(const char *s, int *x) {
 
      if (s[i+1]) {
           if (s[i] == 'f' || s[i] == 'F') {
-                if (s[i+5]) {
+                if (ncscmp(s + i, "false") != 0) {
                       *x = 0;
                       return -1;
                 }
-
-                switch(s[i+1]) {
-                     case 'a':
-                          break;
-                     case 'A':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
-                switch(s[i+2]) {
-                     case 'l':
-                          break;
-                     case 'L':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
-                switch(s[i+3]) {
-                     case 's':
-                          break;
-                     case 'S':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
-                switch(s[i+4]) {
-                     case 'e':
-                          break;
-                     case 'E':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
           }
           else if (s[i] == 't' || s[i] == 'T') {
-                if (s[i+4]) {
+                if (ncscmp(s + i, "true") != 0) {
                       *x = 0;
                       return -1;
                 }
-
-                switch(s[i+1]) {
-                     case 'r':
-                          break;
-                     case 'R':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
-                switch(s[i+2]) {
-                     case 'u':
-                          break;
-                     case 'U':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
-                switch(s[i+3]) {
-                     case 'e':
-                          break;
-                     case 'E':
-                          break;
-                     default:
-                          *x = 0;
-                          return -1;
-                }
           }
           else {
                *x = 0;
-- 
2.43.0


From 02f1433b705435b3fbe217b0bc8c49dee6ff0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 140/145] fix: trimm_string of an empty string writes nothing
 behind it

---
 misc/gutil_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gutil_parse.c b/misc/gutil_parse.c
index d427d15..ceb09f3 100644
--- a/misc/gutil_parse.c
+++ b/misc/gutil_parse.c
@@ -90,7 +90,7 @@ void trimm_string(char *s) {
      n = strlen(s + i);
 
      if (n == 0)
-          j = 0;
+          j = -1;
      else {
           for (j = n - 1; s[i + j] == ' ' || s[i + j] == '\t'; --j) ;
      }
-- 
2.43.0


From fd55947a6d7d3f3c396e9b708c88cc45856f0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 141/145] fix: lists without entries are empty instead of an
 invalid entry

---
 misc/rtutil_support.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_support.c b/misc/rtutil_support.c
index 0f7bd50..322de5f 100644
--- a/misc/rtutil_support.c
+++ b/misc/rtutil_support.c
@@ -26,7 +26,8 @@ static int count_list_entries(char *list) {
      lasts = NULL;
 
      i = 0;
-     strtok_r(list, " \n,", &lasts);
+     if (! strtok_r(list, " \n,", &lasts))
+          return 0;
      do {
           i++;
      } while ((strtok_r(NULL, " \n,", &lasts)));
@@ -50,7 +51,11 @@ static int count_list_entries2(char *list, int *m_, int *n_) {
 
      i =  0;
      j = -1;
-     token = strtok_r(list, " \n;", &lasts);
+     if (! (token = strtok_r(list, " \n;", &lasts))) {
+          *m_ = 0;
+          *n_ = 0;
+          return 0;
+     }
      do {
           i++;
 
-- 
2.43.0


From d0206a27b1b1e951af9022939792f9d524ec8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 142/145] fix: put_value_list functions write no further than
 the given length

---
 misc/rtutil_support.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_support.c b/misc/rtutil_support.c
index 322de5f..75bd427 100644
--- a/misc/rtutil_support.c
+++ b/misc/rtutil_support.c
@@ -128,9 +128,11 @@ int put_value_list_s(char **array, int m, char *list, int length) {
 
      list[0] = '\0';
 
-     for (i = 0; i < m; ++i)
+     for (i = 0; i < m && nn < length; ++i)
           nn += snprintf(list + nn, length - nn, "%s,", array[i]);
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
@@ -187,11 +189,13 @@ int put_value_list2_s(char ***array, int m, int n, char *list, int length) {
 
      int nn = 0;
 
-     for (i = 0; i < m; ++i) {
+     for (i = 0; i < m && nn < length; ++i) {
           nn += put_value_list_s(array[i], n, list + nn, length - nn);
           nn += snprintf(list + nn, length - nn, ";");
      }
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
@@ -251,9 +255,11 @@ int put_value_list_i(int *array, int m, char *list, int length) {
 
      list[0] = '\0';
 
-     for (i = 0; i < m; ++i)
+     for (i = 0; i < m && nn < length; ++i)
           nn += snprintf(list + nn, length - nn, "%d,", array[i]);
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
@@ -310,11 +316,13 @@ int put_value_list2_i(int **array, int m, int n, char *list, int length) {
 
      int nn = 0;
 
-     for (i = 0; i < m; ++i) {
+     for (i = 0; i < m && nn < length; ++i) {
           nn += put_value_list_i(array[i], n, list + nn, length - nn);
           nn += snprintf(list + nn, length - nn, ";");
      }
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
@@ -374,11 +382,14 @@ int put_value_list_d(double *array, int m, char *list, int length, const char *f
 
      list[0] = '\0';
 
-     for (i = 0; i < m; ++i) {
+     for (i = 0; i < m && nn < length; ++i) {
           nn += snprintf(list + nn, length - nn, format, array[i]);
-          nn += snprintf(list + nn, length - nn, ",");
+          if (nn < length)
+               nn += snprintf(list + nn, length - nn, ",");
      }
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
@@ -435,11 +446,13 @@ int put_value_list2_d(double **array, int m, int n, char *list, int length, cons
 
      int nn = 0;
 
-     for (i = 0; i < m; ++i) {
+     for (i = 0; i < m && nn < length; ++i) {
           nn += put_value_list_d(array[i], n, list + nn, length - nn, format);
           nn += snprintf(list + nn, length - nn, ";");
      }
 
+     if (nn > length)
+          nn = length;
      if (nn > 0)
           list[nn-1] = '\0';
 
-- 
2.43.0


From b51b85e3b450de6e0c06bb35fb40d38b64a388ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:05 +0000
Subject: [PATCH 143/145] fix: the empty string is not a number

---
 misc/gutil_error.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gutil_error.c b/misc/gutil_error.c
index e5b109c..8bddc03 100644
--- a/misc/gutil_error.c
+++ b/misc/gutil_error.c
@@ -37,7 +37,7 @@ int strtoi_errmsg(const char *string, const char *name, int *value) {
           return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
           return -1;
      }
@@ -93,7 +93,7 @@ long strtol_errmsg(const char *string, const char *name, long *value) {
           return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
           return -1;
      }
@@ -149,7 +149,7 @@ double strtod_errmsg(const char *string, const char *name, double *value) {
           return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
           return -1;
      }
-- 
2.43.0


From 94b39bbcb43aab060b95f672747cd4a5574f2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:05 +0000
Subject: [PATCH 144/145] fix: integers that an int cannot hold are refused
 instead of truncated

---
 misc/gutil_error.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/misc/gutil_error.c b/misc/gutil_error.c
index 8bddc03..bd262c9 100644
--- a/misc/gutil_error.c
+++ b/misc/gutil_error.c
@@ -30,6 +30,8 @@ int strtoi_errmsg(const char *string, const char *name, int *value) {
 
      char *endptr;
 
+     long value2;
+
      errno = 0;
 
      if (string == NULL) {
@@ -42,10 +44,12 @@ int strtoi_errmsg(const char *string, const char *name, int *value) {
           return -1;
      }
 
-     *value = strtol(string, &endptr, 0);
+     value2 = strtol(string, &endptr, 0);
 
-     if (errno == ERANGE) {
-          if (*value == INT_MIN) {
+     *value = (int) value2;
+
+     if (errno == ERANGE || value2 < INT_MIN || value2 > INT_MAX) {
+          if (value2 < 0) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
                return -1;
           }
-- 
2.43.0


From 61c1ded22bdffbb21d57013d38aefb50a6282082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:29 +0000
Subject: [PATCH 145/145] fix: str_replace_char replaces every one and stops at
 the end of the string

---
 misc/gutil_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 6c2a6a8..c76dfeb 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -12,7 +12,7 @@
 
 void str_replace_char(char *s, char c1, char c2) {
 
-     while ((s = strchr(s+1, c1)))
+     while ((s = strchr(s, c1)))
           *s++ = c2;
 }
 
-- 
2.43.0

