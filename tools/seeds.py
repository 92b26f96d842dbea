#!/usr/bin/env python3
"""Sources of the planted bugs: python3 tools/seeds.py [ID ...] writes seeded/ID."""
import sys
from mkseed import seed
want = sys.argv[1:]
def S(id, *a, **k):
    if not want or id in want: seed(id, *a, **k)

S("mem_bvp_u_sign", "C01", [("src/xrtm_mem_bvp_x.c", """               sigma_m[i][j] = -cc * P_q0_mm[i][j];
               if (j % n_stokes > 1)""", """               sigma_m[i][j] = -cc * P_q0_mm[i][j];
               if (j % n_stokes > 2)""")],
  "MEM_BVP with three or four Stokes parameters away from the principal plane",
  "The beam source of U has the wrong sign in the matrix exponential solver, so it no longer agrees with the others.",
r"""
int main(void) {
  sc s = base(XRTM_SOLVER_MEM_BVP | XRTM_SOLVER_EIG_BVP); int i, l; double g[MC]; xrtm_data d; double e;
  s.opt |= XRTM_OPTION_VECTOR; s.ns = 4;
  for (i = 0; i < 2; ++i) { hg(g, 8, .5);
    for (l = 0; l < 8; ++l) { s.coef[i][0][l] = g[l]; s.coef[i][1][l] = l < 2 ? 0 : .8 * g[l]; s.coef[i][2][l] = l < 2 ? 0 : .7 * g[l]; s.coef[i][3][l] = .75 * g[l]; s.coef[i][4][l] = l < 2 ? 0 : .2 * g[l]; s.coef[i][5][l] = l < 2 ? 0 : .1 * g[l]; } }
  create(&d, &s); inputs(&d, &s);
  solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE); save();
  solve(&d, &s, XRTM_SOLVER_MEM_BVP, XRTM_OUTPUT_RADIANCE); e = worst(&s);
  return verdict("MEM_BVP against EIG_BVP, four Stokes parameters", e, 1e-6);
}
""")

S("delta_m_epsilon", "C02", [("src/xrtm_utility.c", "                    coef_prime[5][i] = coef[5][i] / a;", "                    coef_prime[5][i] = coef[5][i];")],
  "delta-M with four Stokes parameters, epsilon coefficients and a truncated phase function",
  "The epsilon coefficients of a truncated phase matrix are not renormalised, so all solvers agree on a wrong phase matrix.",
r"""
/* A layer given with a forward peak and delta-M equals the same layer without the peak: f of the scattering goes straight on. */
int main(void) {
  sc s = base(XRTM_SOLVER_EIG_BVP), t; int l; double g[MC], f = .3; 
  s.opt |= XRTM_OPTION_VECTOR; s.ns = 4; s.nl = 1; s.lev[1] = 1; s.om[0] = .9; s.tau[0] = .7; hg(g, 8, .5);
  for (l = 0; l < 8; ++l) { s.coef[0][0][l] = g[l]; s.coef[0][1][l] = l < 2 ? 0 : .8 * g[l]; s.coef[0][2][l] = l < 2 ? 0 : .7 * g[l]; s.coef[0][3][l] = .75 * g[l]; s.coef[0][4][l] = l < 2 ? 0 : .2 * g[l]; s.coef[0][5][l] = l < 2 ? 0 : .1 * g[l]; }
  run(&s); save();
  t = s; t.opt |= XRTM_OPTION_DELTA_M; t.max_coef = 9; t.ncoef[0] = 9;
  for (l = 0; l < 9; ++l) { double p = f * (2 * l + 1), q = l < 8; int e; for (e = 0; e < 4; ++e) t.coef[0][e][l] = p + (1 - f) * s.coef[0][e][l] * q; for (e = 4; e < 6; ++e) t.coef[0][e][l] = (1 - f) * s.coef[0][e][l] * q; }
  /* primed values: tau' = (1 - om f) tau, om' = om (1 - f) / (1 - om f); solve for the unprimed ones */
  t.om[0] = s.om[0] / (1 - f + s.om[0] * f); t.tau[0] = s.tau[0] / (1 - t.om[0] * f);
  run(&t);
  return verdict("forward peak with delta-M against no forward peak, four Stokes parameters", worst(&s), 1e-8);
}
""")

S("delta_m_ltau_deriv", "C05", [("src/xrtm_utility.c", "          ltau_prime_l[i] = -(omega_l[i] * f + omega * f_l[i]) * ltau +", "          ltau_prime_l[i] = -(omega_l[i] * f) * ltau +")],
  "delta-M and a derivative direction that changes the first truncated phase function coefficient",
  "The derivative of the delta-M scaled optical thickness misses the change of the truncated fraction.",
r"""
int main(void) {
  sc s = base(XRTM_SOLVER_EIG_BVP), t; double h = 1e-4, e = 0., m = 0.; int i, j; static double a[2][MT], b[2][MT], k[2][MT];
  s.opt |= XRTM_OPTION_DELTA_M; s.max_coef = 9; for (i = 0; i < 2; ++i) { s.ncoef[i] = 9; hg(s.coef[i][0], 9, .6); }
  t = s; t.opt |= XRTM_OPTION_CALC_DERIVS; t.nd = 1; t.coef_l[0][1][0][8] = 1.; run(&t);
  for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) k[i][j] = i ? Km[1][0][j][0][0] : Kp[0][0][j][0][0];
  t = s; t.coef[1][0][8] += h; run(&t); for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) a[i][j] = i ? Im[1][j][0][0] : Ip[0][j][0][0];
  t = s; t.coef[1][0][8] -= h; run(&t); for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) b[i][j] = i ? Im[1][j][0][0] : Ip[0][j][0][0];
  for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) { double q = (a[i][j] - b[i][j]) / (2 * h); if (fabs(q) > m) m = fabs(q); if (!(fabs(q - k[i][j]) <= e)) e = fabs(q - k[i][j]); }
  return verdict("derivative against difference quotient", e / m, 1e-4);
}
""")

S("sos_psa_sublayers", "C01", [("src/xrtm_sos.c", "              b = exp(j * -a * as_0[i]);", "              b = exp(j * -a * as_0[0]);")],
  "SOS, pseudo-spherical beam at a low sun, and layers thicker than the SOS sub-layer limit",
  "The beam transmittance inside lower layers uses the average secant of the first layer, so SOS drifts from the other solvers.",
r"""
int main(void) {
  sc s = base(XRTM_SOLVER_SOS | XRTM_SOLVER_EIG_BVP); xrtm_data d;
  s.opt |= XRTM_OPTION_PSA; s.th0 = 83.; s.z[0] = 200.; s.z[1] = 20.; s.z[2] = 0.; s.tau[0] = .05; s.tau[1] = .3;
  create(&d, &s); inputs(&d, &s);
  solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE); save();
  solve(&d, &s, XRTM_SOLVER_SOS, XRTM_OUTPUT_RADIANCE);
  return verdict("SOS against EIG_BVP, low sun, pseudo-spherical", worst(&s), 1e-3);
}
""")

S("four_conv_first_azimuth", "C29", [("src/xrtm_model.c", "if (d->fourier_tol > 0. && i > 0) {", "if (d->fourier_tol > 0. && i > 0 && l == 0) {")],
  "a Fourier tolerance, two or more output azimuths, the first of which has small terms for its radiance (near the beam)",
  "Convergence of the azimuth series is tested at the first output azimuth only, so the series ends before it has converged at the others.",
r"""
/* what is returned at one azimuth does not change more than the tolerance when another azimuth is asked for before it */
int main(void) {
  sc s = base(XRTM_SOLVER_EIG_BVP), t; double a, b; int i;
  s.nq = 8; s.max_coef = 16; for (i = 0; i < 2; ++i) { s.ncoef[i] = 16; hg(s.coef[i][0], 16, .75); }
  s.four_tol = 1e-3; s.th0 = 50.; s.nt = 1; s.theta[0] = 55.; s.np = 2; s.phi[0] = 0.; s.phi[1] = 180.; s.nout = 1; s.lev[0] = 2; run(&s);
  t = s; a = Im[0][0][1][0]; t.np = 1; t.phi[0] = 180.; run(&t); b = Im[0][0][0][0];
  return verdict("radiance at one azimuth with another before it", fabs(a - b) / b, 2e-5);
}
""")

S("delta_m_epsilon_deriv", "C30", [("src/xrtm_utility.c", """                         coef_prime_l[i][5][j] =
                              (coef_l[i][5][j] + coef[5][j] * e) / a;""", """                         coef_prime_l[i][5][j] =
                              (coef_l[i][5][j] + coef[4][j] * e) / a;""")],
  "delta-M, four Stokes parameters and a derivative direction that changes the truncated fraction",
  "The derivative of the renormalised epsilon coefficients uses the gamma coefficients, so derivatives of circular polarization are wrong.",
r"""
int main(void) {
  sc s = base(XRTM_SOLVER_EIG_BVP), t; double h = 1e-3, e = 0., m = 0., q; int i, j, l, p; double g[MC]; static double A[2][MT][4], B[2][MT][4], K[2][MT][4];
  s.opt |= XRTM_OPTION_VECTOR | XRTM_OPTION_DELTA_M; s.ns = 4; s.max_coef = 9; s.nl = 1; s.lev[1] = 1; s.om[0] = .95; s.tau[0] = 1.5; s.ncoef[0] = 9; hg(g, 9, .6);
  for (l = 0; l < 9; ++l) { s.coef[0][0][l] = g[l]; s.coef[0][1][l] = l < 2 ? 0 : .8 * g[l]; s.coef[0][2][l] = l < 2 ? 0 : .7 * g[l]; s.coef[0][3][l] = .75 * g[l]; s.coef[0][4][l] = l < 2 ? 0 : .2 * g[l]; s.coef[0][5][l] = l < 2 ? 0 : -.4 * g[l]; }
  t = s; t.opt |= XRTM_OPTION_CALC_DERIVS; t.nd = 1; t.coef_l[0][0][0][8] = 1.; run(&t);
  for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) for (p = 0; p < 4; ++p) K[i][j][p] = i ? Km[1][0][j][0][p] : Kp[0][0][j][0][p];
  t = s; t.coef[0][0][8] += h; run(&t); for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) for (p = 0; p < 4; ++p) A[i][j][p] = i ? Im[1][j][0][p] : Ip[0][j][0][p];
  t = s; t.coef[0][0][8] -= h; run(&t); for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) for (p = 0; p < 4; ++p) B[i][j][p] = i ? Im[1][j][0][p] : Ip[0][j][0][p];
  for (i = 0; i < 2; ++i) for (j = 0; j < s.nt; ++j) { p = 3; q = (A[i][j][p] - B[i][j][p]) / (2 * h); if (fabs(q) > m) m = fabs(q); if (!(fabs(q - K[i][j][p]) <= e)) e = fabs(q - K[i][j][p]); }
  return verdict("derivative of V against difference quotient", e / m, 1e-4);
}
""")

S("flux_with_radiance", "C13", [("src/xrtm_model.c", "if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {", "if (solutions & XRTM_OUTPUT_FLUX            && (i == 0 || i == 2)) {")],
  "a call that asks for radiances and fluxes and takes at least three terms of the series in azimuth",
  "Fluxes that are asked for along with radiances are those of a higher term of the azimuth series.",
r"""
/* the flux does not depend on what else is asked for */
int main(void) {
  sc s = base(XRTM_SOLVER_EIG_BVP); xrtm_data d; double u[3], v[3], e = 0.; int i;
  create(&d, &s); inputs(&d, &s); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_FLUX); xrtm_destroy(&d); memcpy(u, fp, sizeof u); memcpy(v, fm, sizeof v);
  create(&d, &s); inputs(&d, &s); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX); xrtm_destroy(&d);
  for (i = 0; i < s.nout; ++i) { if (fabs(u[i] - fp[i]) > e) e = fabs(u[i] - fp[i]); if (fabs(v[i] - fm[i]) > e) e = fabs(v[i] - fm[i]); }
  return verdict("fluxes alone and with radiances", e, 1e-10);
}
""")

S("li_no_overlap", "C17", [("src/xrtm_brdf.c", """     if (cos_t > 1.) /* overlap area = 0 */
          *q = 1.;""", """     if (cos_t > 1.) /* overlap area = 0 */
          *q = 0.;""")],
  "a Li kernel where the shadows do not overlap (large angles, backscatter excluded)",
  "The Li kernels treat directions whose shadows do not overlap as if they overlapped completely.",
r"""
/* li_sparse: O is zero where cos t > 1, so K = - sec i' - sec r' + (1 + cos xi') sec r' / 2 there */
int main(void) {
  double p[2] = {2., 1.}, ti = 65. * acos(-1.) / 180., tr = 60. * acos(-1.) / 180., ph, D, ct, K, cx, z; sc s = base(XRTM_SOLVER_EIG_BVP), t; double a; int i;
  s.nl = 1; s.lev[1] = 1; s.om[0] = 0.; s.tau[0] = 1e-9; s.nk = 2; s.nt = 1; s.theta[0] = 60.; s.th0 = 65.; s.phi[0] = 170.;
  s.nq = 8; s.max_coef = 16; s.ncoef[0] = 1; s.coef[0][0][0] = 1.; s.nkq = 64;
  s.k[0] = XRTM_KERNEL_LAMBERTIAN; s.amp[0] = .9; s.k[1] = XRTM_KERNEL_LI_SPARSE; s.amp[1] = .05; s.par[1][0] = 1.; s.par[1][1] = 2.;
  /* azimuthal mean of the kernel */
  for (i = 0, K = 0.; i < 20000; ++i) { ph = 2. * acos(-1.) * (i + .5) / 20000; cx = cos(ti) * cos(tr) + sin(ti) * sin(tr) * cos(ph);
    D = sqrt(fabs(tan(ti) * tan(ti) + tan(tr) * tan(tr) - 2 * tan(ti) * tan(tr) * cos(ph))); z = tan(ti) * tan(tr) * sin(ph);
    ct = 2. * sqrt(D * D + z * z) / (1. / cos(ti) + 1. / cos(tr)); { double O = 0., T; if (ct <= 1.) { T = acos(ct); O = (T - sin(T) * cos(T)) * (1. / cos(ti) + 1. / cos(tr)) / acos(-1.); }
    K += (O - 1. / cos(ti) - 1. / cos(tr) + 5e-1 * (1. + cx) / cos(tr)) / 20000; } }
  s.opt |= XRTM_OPTION_NO_AZIMUTHAL; run(&s); a = Ip[0][0][0][0]; 
  return verdict("azimuthal mean of li_sparse", fabs(a - (.9 + .05 * K) * cos(ti) / acos(-1.)) / a, 2e-3);
}
""")

S("single_repeated_levels", "C04", [("src/xrtm_single.c", """               while (i_ulevel >= 0 && i == ulevels[i_ulevel]) {
                    if (n_derivs > 0)
                         I_ss_l2 = I_ss_l[i_ulevel];

                    ssr_up_layer(""", """               if (i_ulevel >= 0 && i == ulevels[i_ulevel]) {
                    if (n_derivs > 0)
                         I_ss_l2 = I_ss_l[i_ulevel];

                    ssr_up_layer(""")],
  "SINGLE (or the single scattering correction) with two output optical depths inside one layer",
  "Upwelling single scattering is written for one output optical depth per layer only; output of the others holds something else.",
r"""
int main(void) {
  sc s = base(XRTM_SOLVER_SINGLE), t; double a[3], e = 0.; int i;
  s.opt = (s.opt & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS; s.nout = 3; s.tau_out[0] = .1; s.tau_out[1] = .2; s.tau_out[2] = .5;
  run(&s); for (i = 0; i < 3; ++i) a[i] = Ip[i][1][0][0];
  for (i = 0; i < 3; ++i) { t = s; t.nout = 1; t.tau_out[0] = s.tau_out[i]; run(&t); if (!(fabs(a[i] - Ip[0][1][0][0]) / Ip[0][1][0][0] <= e)) e = fabs(a[i] - Ip[0][1][0][0]) / Ip[0][1][0][0]; }
  return verdict("single scattering at three optical depths together and alone", e, 1e-10);
}
""")

S("phase_mats_order", "C08", [("src/xrtm_model.c", "          flag2 = flag2 || i_four != *order_x;", "          flag2 = flag2 || i_four > *order_x;")],
  "reused Legendre functions of a later Fourier term: SAVE_* off and more than one solution or solver from one instance",
  "Legendre functions of a higher Fourier term are kept when a lower one is needed again.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_EIG_ADD); xrtm_data d; double e;
  create(&d, &s); inputs(&d, &s); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE); save();
  CK(xrtm_set_theta_0(&d, 41.)); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE);
  CK(xrtm_set_theta_0(&d, 40.)); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE); e = worst(&s);
  return verdict("the same inputs again", e, 1e-10); }
""")

S("out_levels_refused", "C18", [("src/xrtm_interface.c", """     if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
          if (out_levels[0] != d->n_layers) {""", """     for (i = 0; i < d->n_ulevels; ++i)
          d->ulevels[i] = out_levels[i];

     if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
          if (out_levels[0] != d->n_layers) {"""), ("src/xrtm_interface.c", """#endif
     for (i = 0; i < d->n_ulevels; ++i)
          d->ulevels[i] = out_levels[i];

     d->set_flags_ulevels = 1;""", """#endif
     d->set_flags_ulevels = 1;""")],
  "a model for adding in one direction and a refused call of xrtm_set_out_levels() after an accepted one",
  "Output levels that one-way adding refuses are stored all the same: the next solution is at another level.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_ADD); xrtm_data d; int l[2] = {0, 0};
  s.opt |= XRTM_OPTION_BOTTOM_UP_ADDING; s.nout = 1; s.lev[0] = 0; create(&d, &s); inputs(&d, &s);
  l[0] = 2; if (xrtm_set_out_levels(&d, l) == 0) { puts("accepted"); return 1; }
  CK(xrtm_get_out_levels(&d, l)); printf("level after a refused call: %d\n", l[0]); return l[0] != 0; }
""")

S("phi_fold", "C14", [("src/xrtm_model.c", "                              a = i * (phis[k][l] - d->phi_0)*D2R;", "                              a = i * fabs(phis[k][l] - d->phi_0)*D2R;")],
  "three or four Stokes parameters and an output azimuth smaller than that of the sun",
  "Relative azimuths are folded onto 0 to 180 degrees, which is right for I and Q but not for U and V.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); int i, l; double g[MC];
  s.opt |= XRTM_OPTION_VECTOR; s.ns = 3;
  for (i = 0; i < 2; ++i) { hg(g, 8, .5);
    for (l = 0; l < 8; ++l) { s.coef[i][0][l] = g[l]; s.coef[i][1][l] = l < 2 ? 0 : .8 * g[l]; s.coef[i][2][l] = l < 2 ? 0 : .7 * g[l]; s.coef[i][3][l] = .75 * g[l]; s.coef[i][4][l] = l < 2 ? 0 : .2 * g[l]; s.coef[i][5][l] = l < 2 ? 0 : .1 * g[l]; } }
  s.phi0 = 100.; s.phi[0] = 60.; run(&s); save(); s.phi0 = 40.; s.phi[0] = 0.; s.phi0 -= 40; s.phi[0] += 320.; run(&s);
  return verdict("both azimuths turned, three Stokes parameters", worst(&s), 1e-9); }
""")

S("emission_overwrites", "C02", [("src/xrtm_model.c", "                    d->In_p[i_four][ii] += d->surface_b * (1. - a);", "                    d->In_p[i_four][ii] = d->surface_b * (1. - a);")],
  "a thermal surface together with the solar beam or an isotropic source at the bottom",
  "Thermal emission of the surface replaces what the other sources put there instead of adding to it.",
r"""
/* what an isotropic source at the bottom adds does not depend on the thermal emission */
int main(void) { sc s = base(XRTM_SOLVER_EIG_ADD), a; int i, j, k; double e = 0., m = 0.; static double p[2][2][4];
  s.nt = 0; s.F0 = 0.;
  for (k = 0; k < 2; ++k) { s.opt |= k ? XRTM_OPTION_SOURCE_THERMAL : 0; s.iso_bot = .7; a = s; a.iso_bot = 0.;
    run(&s); for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) p[k][i][j] = Ip[i][j][0][0];
    run(&a); for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) p[k][i][j] -= Ip[i][j][0][0]; }
  for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) { if (p[0][i][j] > m) m = p[0][i][j]; if (!(fabs(p[0][i][j] - p[1][i][j]) <= e)) e = fabs(p[0][i][j] - p[1][i][j]); }
  return verdict("what an isotropic source adds, with and without thermal emission", e / m, 1e-9); }
""")

S("coef_moves_ltau", "C07", [("src/xrtm_interface.c", """          deps |= DEP_MASK_OMEGA;
          deps |= DEP_MASK_LTAU;

          if (d->options & XRTM_OPTION_CALC_DERIVS) {
               deps |= DEP_MASK_COEF_L;""", """          deps |= DEP_MASK_OMEGA;

          if (d->options & XRTM_OPTION_CALC_DERIVS) {
               deps |= DEP_MASK_COEF_L;""")],
  "delta-M and phase function coefficients that are set again after a solution",
  "New phase function coefficients no longer mark the delta-M scaled optical thickness as out of date.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP), t; xrtm_data d; double *p[1];
  s.opt |= XRTM_OPTION_DELTA_M; s.max_coef = 9; s.ncoef[0] = s.ncoef[1] = 9; hg(s.coef[0][0], 9, .6); hg(s.coef[1][0], 9, .6);
  t = s; hg(t.coef[0][0], 9, .8); run(&t); save();
  create(&d, &s); inputs(&d, &s); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE);
  p[0] = t.coef[0][0]; CK(xrtm_set_coef_1(&d, 0, 9, p)); solve(&d, &s, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE);
  return verdict("coefficients changed after a solution against a new model", worst(&s), 1e-9); }
""")

S("tau_delta_m_layer", "C30", [("src/xrtm_model.c", "               delta_m_ltau(d->n_derivs, f, NULL, d->omega0[ii], NULL, d->utaus20[i], &d->utaus2[i], NULL, NULL, 0);", "               delta_m_ltau(d->n_derivs, f, NULL, d->omega0[0], NULL, d->utaus20[i], &d->utaus2[i], NULL, NULL, 0);")],
  "output at optical depths below the first layer, delta-M, layers of different single scattering albedo",
  "The position inside a layer is scaled with the albedo of the first layer.",
r"""
/* a layer split at the output depth, output at the level between, must give the same */
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP), t; double a[2][2], e = 0., m = 0.; int j;
  s.opt |= XRTM_OPTION_DELTA_M; s.max_coef = 9; s.ncoef[0] = s.ncoef[1] = 9; hg(s.coef[0][0], 9, .7); hg(s.coef[1][0], 9, .7); s.om[0] = .4; s.om[1] = .95;
  t = s; t.nl = 3; t.ncoef[2] = 9; memcpy(t.coef[2], s.coef[1], sizeof s.coef[1]); t.om[2] = .95; t.tau[1] = .2; t.tau[2] = .3; t.nout = 2; t.lev[0] = 0; t.lev[1] = 2;
  run(&t); for (j = 0; j < 2; ++j) { a[0][j] = Ip[1][j][0][0]; a[1][j] = Im[1][j][0][0]; }
  s.opt = (s.opt & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS; s.nout = 1; s.tau_out[0] = .5; run(&s);
  for (j = 0; j < 2; ++j) { if (!(fabs(a[0][j] - Ip[0][j][0][0]) <= e)) e = fabs(a[0][j] - Ip[0][j][0][0]); if (!(fabs(a[1][j] - Im[0][j][0][0]) <= e)) e = fabs(a[1][j] - Im[0][j][0][0]); if (a[0][j] > m) m = a[0][j]; }
  return verdict("optical depth inside a layer against a level, delta-M", e / m, 1e-8); }
""")

LINK = "gcc -O1 -w -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -I$T/src -I$T/misc"
SH = r"""#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf -- "$W"' EXIT
T=$PWD/_build/tree
export OPENBLAS_NUM_THREADS=1
"""

S("hapke_h", "C15", [("src/xrtm_brdf.c", "     aux2->hapke.d    = ((1. + a) / (1. + a * gamma)) * ((1. + b) / (1. + b * gamma));", "     aux2->hapke.d    = ((1. + a) / (1. + a * gamma)) * ((1. + b) / (1. + a * gamma));")],
  "a Hapke surface and directions in and out at different zenith angles",
  "Both multiple scattering functions of the Hapke kernel are divided by that of the incident direction, so reflection is not reciprocal.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); double a, b;
  s.k[0] = XRTM_KERNEL_HAPKE; s.amp[0] = 1.; s.par[0][0] = .5; s.par[0][1] = .6; s.par[0][2] = .1; s.nkq = 40; s.nt = 1; s.opt |= XRTM_OPTION_NO_AZIMUTHAL;
  s.th0 = 20.; s.theta[0] = 60.; run(&s); a = Ip[0][0][0][0] / cos(20. * acos(-1.) / 180.);
  s.th0 = 60.; s.theta[0] = 20.; run(&s); b = Ip[0][0][0][0] / cos(60. * acos(-1.) / 180.);
  return verdict("reflection with sun and view exchanged", fabs(a - b) / a, 1e-3); }
""")

S("bvp_thermal_flags", "C06", [("src/xrtm_eig_bvp_x.c", """                    if (thermal && derivs_thermal[i + 1][m])
                         a += Ft0_m_l[i + 1][m][j];""", """                    if (thermal && derivs_thermal[i    ][m])
                         a += Ft0_m_l[i + 1][m][j];""")],
  "EIG_BVP, thermal source and a derivative along a layer without one along the layer above",
  "A boundary term of the thermal source is differentiated only if the layer above is varied too.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); double e = 0., m = 0.; int i, j;
  s.opt |= XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_CALC_DERIVS; s.nd = 3; s.om_l[0][0] = 1.; s.om_l[1][1] = 1.; s.om_l[2][0] = s.om_l[2][1] = 1.; s.nt = 0;
  run(&s);
  for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) { double q = Kp[i][2][j][0][0]; if (fabs(q) > m) m = fabs(q); q = fabs(q - Kp[i][0][j][0][0] - Kp[i][1][j][0][0]); if (!(q <= e)) e = q; q = fabs(Km[i][2][j][0][0] - Km[i][0][j][0][0] - Km[i][1][j][0][0]); if (!(q <= e)) e = q; }
  return verdict("derivative along two layers against the sum along each", e / m, 1e-8); }
""")

S("correction_with_flux", "C09", [("src/xrtm_model.c", """     if (solutions & XRTM_OUTPUT_RADIANCE) {
          if (apply_corrections_radiance(d, n_phis,""", """     if (solutions == XRTM_OUTPUT_RADIANCE) {
          if (apply_corrections_radiance(d, n_phis,""")],
  "the single scattering correction and radiances asked for together with fluxes or mean radiances",
  "Radiances are corrected only when nothing else is asked for.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); xrtm_data d; int i;
  s.opt |= XRTM_OPTION_DELTA_M | XRTM_OPTION_N_T_TMS; s.max_coef = 16; for (i = 0; i < 2; ++i) { s.ncoef[i] = 16; hg(s.coef[i][0], 16, .75); }
  create(&d, &s); inputs(&d, &s); solve(&d, &s, s.solv, XRTM_OUTPUT_RADIANCE); save(); solve(&d, &s, s.solv, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX);
  return verdict("radiances alone and with fluxes", worst(&s), 1e-10); }
""")

S("total_leak", "C19", [("src/xrtm_interface.c", """               free_array2_d(d->Sla_p);
               free_array2_d(d->Sla_m);
          }""", """               free_array2_d(d->Sla_p);
          }""")],
  "SAVE_TOTAL_R_T_S and many instances",
  "Destroying an instance that saves the total matrices leaves one of them allocated.",
r"""
#include <malloc.h>
int main(void) { sc s = base(XRTM_SOLVER_EIG_ADD); size_t a; int i; s.opt |= XRTM_OPTION_SAVE_TOTAL_R_T_S;
  size_t b;
  xrtm_data d; setvbuf(stdout, NULL, _IONBF, 0); printf("start\n"); run(&s); run(&s);
  create(&d, &s); inputs(&d, &s); xrtm_destroy(&d); a = mallinfo2().uordblks;
  for (i = 0; i < 20; ++i) { create(&d, &s); inputs(&d, &s); xrtm_destroy(&d); }
  b = mallinfo2().uordblks;
  printf("bytes in use: %zu, after twenty more instances: %zu\n", a, b); return b > a + 400; }
""")

S("two_os_levels", "C27", [("src/xrtm_interface.c", '"n_out_levels > 2", XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, 0', '"n_out_levels > 2", XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS, 0')],
  "creation with TWO_OS and three or more output levels",
  "A combination that the solver cannot do is accepted at creation.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_TWO_OS); xrtm_data d; int r;
  r = xrtm_create(&d, s.opt, s.solv, 8, 4, 1, 0, 4, 1, s.nk, 16, s.k, 3, 2); printf("creation with three levels returns %d\n", r); return r == 0; }
""")

S("cpp_params_l_n1", "C20", [("interfaces/xrtm_int_cpp.cpp", "     r = xrtm_set_kernel_params_l_n1(&d, i_kernel, i_param, params_l);", "     r = xrtm_set_kernel_params_l_1n(&d, i_kernel, i_param, params_l);")],
  "the C++ interface and derivatives of one kernel parameter for all derivatives at once",
  "The C++ set_kernel_params_l_n1() makes the call for one derivative and all parameters.",
SH + LINK.replace("gcc", "g++") + r""" -I$T/interfaces -o "$W/demo" "$D/demo.cpp" $T/interfaces/xrtm_int_cpp.cpp $T/src/libxrtm.a $T/misc/libxrtm_misc.a -lopenblas -lgfortran -lm -fopenmp || exit 3
"$W/demo"
""", kind="sh", files={"demo.cpp": r"""
#include <stdio.h>
#include <string.h>
#include "xrtm_int_cpp.h"
int main() {
  typedef xrtm_int_cpp X; X::kernel_type k[1] = {X::KERNEL_LI_SPARSE}; double v[2] = {.25, .75}; int bad = 0;
  X x(X::OPTION_CALC_DERIVS | X::OPTION_OUTPUT_AT_LEVELS | X::OPTION_SOURCE_SOLAR, X::SOLVER_EIG_BVP, 8, 4, 1, 2, 2, 1, 1, 16, k, 2, 0);
  x.set_kernel_params_l_n1(0, 1, v);
  for (int j = 0; j < 2; ++j) { double a = x.get_kernel_params_l(0, j, 1); printf("derivative %d of parameter 1: %g\n", j, a); if (a != v[j]) bad = 1; }
  return bad;
}
"""})

S("input_params_forms", "C21", [("utils/input_util.c", "(int (*)(void *, int, int, double *)) xrtm_set_kernel_params_l_n1, (int (*)(void *, int, int, double *)) xrtm_set_kernel_params_l_1n,", "(int (*)(void *, int, int, double *)) xrtm_set_kernel_params_l_1n, (int (*)(void *, int, int, double *)) xrtm_set_kernel_params_l_n1,")],
  "an input that sets derivatives of kernel parameters along one index",
  "kernel_params_l[k][:][p] sets what kernel_params_l[k][j] means and the other way round.",
SH + LINK + r""" -I$T/utils -o "$W/demo" "$D/demo.c" $T/utils/libxrtm_input.a $T/src/libxrtm.a $T/misc/libxrtm_misc.a -lopenblas -lgfortran -lm -fopenmp || exit 3
"$W/demo"
""", kind="sh", files={"demo.c": r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "xrtm_interface.h"
#include "xrtm_fd_interface.h"
#include "input_util.h"
int main(void) { xrtm_data d; xrtm_fd_data fd; misc_data md; int j, bad = 0; double w[2] = {.25, .75};
  char s[] = "-options calc_derivs,output_at_levels,source_solar -solvers eig_bvp -max_coef 8 -n_quad 4 -n_stokes 1 -n_derivs 2 -n_layers 1 -n_kernels 1 -n_kernel_quad 16 -kernels li_sparse -n_out_levels 1 -n_out_thetas 0 -kernel_params_l[0][:][1] .25,.75";
  memset(&fd, 0, sizeof fd); memset(&md, 0, sizeof md);
  if (xrtm_sread_input(&d, &fd, &md, s, 0, 1, 1, 0)) return 9;
  for (j = 0; j < 2; ++j) { double a = xrtm_get_kernel_params_l(&d, 0, j, 1); printf("derivative %d of parameter 1: %g\n", j, a); if (a != w[j]) bad = 1; }
  return bad; }
"""})

S("single_psa_adjoint", "C24", [("src/xrtm_single_a.c", "               as_0_a[i_layer] -= t * c_save;", "               as_0_a[i_layer] -= t * c_save * (i_layer == 0);")],
  "adjoint derivatives of SINGLE at optical depths inside a layer with the pseudo-spherical approximation",
  "The dependence on the slant of the beam is dropped for downward radiances below the first layer.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_SINGLE), t; xrtm_data d; double e = 0., m = 0., q; int j; double *ph[MT], ***p4[1], ***m4[1], ****p5[1], ****m5[1]; static double k[4][MT];
  s.opt = (s.opt & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_PSA | XRTM_OPTION_CALC_DERIVS; s.nout = 1; s.tau_out[0] = .6; s.th0 = 80.; s.nd = 1; s.tau_l[0][0] = 1.;
  run(&s); for (j = 0; j < 2; ++j) { k[0][j] = Kp[0][0][j][0][0]; k[1][j] = Km[0][0][j][0][0]; }
  s.opt |= XRTM_OPTION_REVERSE_DERIVS; create(&d, &s); inputs(&d, &s);
  for (j = 0; j < 2; ++j) ph[j] = s.phi;
  p4[0] = malloc(2 * sizeof(void *)); m4[0] = malloc(2 * sizeof(void *)); p5[0] = malloc(sizeof(void *)); m5[0] = malloc(sizeof(void *)); p5[0][0] = malloc(2 * sizeof(void *)); m5[0][0] = malloc(2 * sizeof(void *));
  for (j = 0; j < 2; ++j) { p4[0][j] = malloc(sizeof(void *)); m4[0][j] = malloc(sizeof(void *)); p5[0][0][j] = malloc(sizeof(void *)); m5[0][0][j] = malloc(sizeof(void *)); p4[0][j][0] = Ip[0][j][0]; m4[0][j][0] = Im[0][j][0]; p5[0][0][j][0] = Kp[0][0][j][0]; m5[0][0][j][0] = Km[0][0][j][0]; }
  memset(Kp, 0, sizeof Kp); memset(Km, 0, sizeof Km);
  CK(xrtm_radiance_2(&d, XRTM_SOLVER_SINGLE, 1, ph, p4, m4, p5, m5));
  for (j = 0; j < 2; ++j) { q = fabs(Kp[0][0][j][0][0] - k[0][j]); if (!(q <= e)) e = q; q = fabs(Km[0][0][j][0][0] - k[1][j]); if (!(q <= e)) e = q; if (fabs(k[1][j]) > m) m = fabs(k[1][j]); }
  return verdict("adjoint derivative against forward derivative", e / m, 1e-7); }
""")

S("interp_short", "C28", [("misc/rtutil_scat_io.c", "     n_coef = MAX(n_coef1, n_coef2);", "     n_coef = MIN(MAX(n_coef1, n_coef2), 2 * n_coef1);")],
  "interpolation between two sets of coefficients of which the second has more than twice as many as the first",
  "The coefficients beyond twice the number of the first set are left out of the interpolation.",
r"""
#include <gutil.h>
#include <rtutil_scat_io.h>
int main(void) { double **a = alloc_array2_d(6, 3), **b = alloc_array2_d(6, 9), **c = alloc_array2_d(6, 9), e = 0., w; scat_header_data h, g, f; int i, j, n;
  memset(&h, 0, sizeof h); memset(&g, 0, sizeof g);
  for (i = 0; i < 6; ++i) for (j = 0; j < 9; ++j) { if (j < 3) a[i][j] = 1 + i + j / 16.; b[i][j] = 2 + i - j / 16.; c[i][j] = -99.; }
  n = scat_coefs_interp(.25, 3, &h, a, 9, &g, b, &f, c, 1);
  if (n != 9) { printf("%d coefficients\n", n); return 1; }
  for (i = 0; i < 6; ++i) for (j = 0; j < 9; ++j) { w = .25 * b[i][j] + (j < 3 ? .75 * a[i][j] : 0.); if (!(fabs(c[i][j] - w) <= e)) e = fabs(c[i][j] - w); }
  return verdict("interpolated coefficients", e, 1e-12); }
""")

S("gsf_sign", "C25", [("misc/rtutil_math.c", "               gsf[i][j+1] = (twojp1 * (jjp1 * mu[i] - pq) * gsf[i][j] -", "               gsf[i][j+1] = (twojp1 * (jjp1 * mu[i] - abs(pq)) * gsf[i][j] -")],
  "generalized spherical functions of two indices with different signs",
  "The recurrence in l takes the product of the two indices to be positive.",
r"""
#include <gutil.h>
#include <rtutil_math.h>
int main(void) { dcomplex a[12], b[12]; int p, q, l; double e = 0.;
  for (p = -3; p < 4; ++p) for (q = -3; q < 4; ++q) { gen_spher_funcs(p, q, 12, .37, a); gen_spher_funcs(p, -q, 12, -.37, b); for (l = 0; l < 12; ++l) if (!(fabs(cabs(a[l]) - cabs(b[l])) <= e)) e = fabs(cabs(a[l]) - cabs(b[l])); }
  return verdict("sizes of the functions of p, q at mu and of p, -q at -mu", e, 1e-12); }
""")

S("surface_emission_stokes", "C16", [("src/xrtm_sfi_x.c", """               I_0[ii] += surface_b * (1. - a);

               ii += n_stokes;""", """               I_0[ii] += surface_b * (1. - a);

               ++ii;""")],
  "more than one Stokes parameter, a thermal surface, source function integration and at least two user-defined angles",
  "The emission of the surface into the second and following user-defined angles is put into the wrong elements.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP), t; int i, j; double e = 0., m = 0., q[2][2];
  s.opt = (s.opt & ~XRTM_OPTION_SOURCE_SOLAR) | XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_SFI;
  run(&s); for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) q[i][j] = Ip[i][j][0][0];
  s.opt |= XRTM_OPTION_VECTOR; s.ns = 3; for (i = 0; i < 2; ++i) memcpy(s.coef[i][3], s.coef[i][0], sizeof s.coef[i][0]);
  run(&s); for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) { if (q[i][j] > m) m = q[i][j]; if (!(fabs(Ip[i][j][0][0] - q[i][j]) <= e)) e = fabs(Ip[i][j][0][0] - q[i][j]); }
  return verdict("thermal radiances without polarizing scattering against the scalar ones", e / m, 1e-9); }
""")

S("sources_else", "C10", [("src/xrtm_eig_bvp_x.c", """               I_m[i][j] = XREAL(a);
               if (solar)
                    I_m[i][j] += Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
               if (thermal)
                    I_m[i][j] +=""", """               I_m[i][j] = XREAL(a);
               if (solar)
                    I_m[i][j] += Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
               else if (thermal)
                    I_m[i][j] +=""")],
  "the beam and thermal emission together, polarized radiances, and output at optical depths inside layers",
  "Downward radiances at optical depths lose the particular solution of the thermal source when there is a beam.",
r"""
/* what the thermal source adds does not depend on the beam */
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP), t; double v[2][2][4], e = 0., m = 0.; int i, j, k;
  s.opt = (s.opt & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_VECTOR | XRTM_OPTION_SOURCE_THERMAL; s.ns = 3; s.nout = 2; s.tau_out[0] = .1; s.tau_out[1] = .6; s.nt = 0;
  for (i = 0; i < 2; ++i) { memcpy(s.coef[i][3], s.coef[i][0], sizeof s.coef[i][0]); s.coef[i][1][2] = .3; s.coef[i][2][2] = .2; s.coef[i][4][2] = .1; s.coef[i][5][2] = .1; }
  for (k = 0; k < 2; ++k) { s.F0 = k; t = s; for (i = 0; i <= ML; ++i) t.lb[i] = 0.; t.sb = 0.;
    run(&s); for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) v[k][i][j] = Im[i][j][0][0];
    run(&t); for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) v[k][i][j] -= Im[i][j][0][0];
    if (k == 0) { /* no beam at all */ s.opt &= ~XRTM_OPTION_SOURCE_SOLAR; run(&s); for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) v[0][i][j] = Im[i][j][0][0]; s.opt |= XRTM_OPTION_SOURCE_SOLAR; } }
  for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) { if (v[0][i][j] > m) m = v[0][i][j]; if (!(fabs(v[0][i][j] - v[1][i][j]) <= e)) e = fabs(v[0][i][j] - v[1][i][j]); }
  return verdict("what thermal emission adds, with and without a beam", e / m, 1e-9); }
""")

S("thin_gradient", "C11", [("src/xrtm_source.c", "     c[1] = (planck1 - planck0) / ltau;", "     c[1] = (planck1 - planck0) / MAX(ltau, 2.e-3);")],
  "thermal emission that varies through a layer of less than 0.002 in optical thickness",
  "The gradient of the emission in optical depth is limited for thin layers.",
r"""
/* eighty layers' worth: a layer of .04 and the same cut into equal parts of .001 are too many, so eight of .0015 */
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP), t; int i; double a;
  s.opt = (s.opt & ~XRTM_OPTION_SOURCE_SOLAR) | XRTM_OPTION_SOURCE_THERMAL; s.sb = 0.; s.amp[0] = 0.; s.nl = 1; s.lev[1] = 1; s.tau[0] = .012; s.om[0] = .3; s.lb[0] = 0.; s.lb[1] = 8.;
  t = s; t.nl = 8; t.lev[1] = 8; for (i = 0; i < 8; ++i) { t.tau[i] = .0015; t.om[i] = .3; t.ncoef[i] = 8; memcpy(t.coef[i], s.coef[0], sizeof s.coef[0]); } for (i = 0; i < 9; ++i) t.lb[i] = i;
  run(&s); save(); run(&t); return verdict("one thin layer and the same in eight", worst(&s), 1e-9); }
""")

S("kirchhoff_user", "C12", [("src/xrtm_sfi_x.c", """          ii = 0;
          for (i = 0; i < n_umus; ++i) {
               a  = 0.;
               jj = 0;
               for (j = 0; j < n_quad; ++j) {
                    a  += Rs_uq[ii][jj];
                    jj += n_stokes;
               }
               I_0""", """          a  = 0.;
          ii = 0;
          for (i = 0; i < n_umus; ++i) {
               jj = 0;
               for (j = 0; j < n_quad; ++j) {
                    a  += Rs_uq[ii][jj];
                    jj += n_stokes;
               }
               I_0""")],
  "thermal emission of a surface with source function integration and at least two user-defined angles",
  "The reflectance at the second and further user-defined angles includes those of the angles before.",
r"""
/* nothing but the surface in equilibrium with what falls on it */
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); int i, j; double e = 0.;
  s.opt = (s.opt & ~XRTM_OPTION_SOURCE_SOLAR) | XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_SFI; s.k[0] = XRTM_KERNEL_RAHMAN; s.amp[0] = .3; s.par[0][0] = 1.; s.par[0][1] = .7; s.par[0][2] = .1; s.nkq = 60; s.nq = 8;
  for (i = 0; i <= ML; ++i) s.lb[i] = 1.; s.sb = 1.; s.iso_top = 1.; run(&s);
  for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) if (!(fabs(Ip[i][j][0][0] - 1.) <= e)) e = fabs(Ip[i][j][0][0] - 1.);
  return verdict("radiances in an enclosure of one temperature", e, 1e-6); }
""")

S("input_refused", "C22", [("utils/input_util.c", """     if (xrtm_set_x(input->d, x)) {
          input_error(&input->locus, "xrtm_set_%s()\\n", name);
          exit(1);
     }""", """     if (xrtm_set_x(input->d, x))
          input_error(&input->locus, "xrtm_set_%s()\\n", name);""")],
  "an input with one number, like doub_d_tau, that the library refuses",
  "callxrtm goes on after a refused number, with the default or an earlier value.",
SH + r"""
o="-options output_at_levels,source_solar -solvers doub_add -max_coef 8 -n_quad 4 -n_stokes 1 -n_derivs 0 -n_layers 1 -n_out_levels 2 -n_out_thetas 1 ::"
b="-out_levels 0,1 -out_thetas 10. -F_iso_top 0. -F_iso_bot 0. -F_0 1. -theta_0 35. -phi_0 0. -coef_files hg:.5 -omega .9 -ltau .5"
"$T/utils/callxrtm" -input_string "$o -doub_d_tau 1.e-6 $b" > "$W/out" 2> "$W/err"; a=$?
"$T/utils/callxrtm" -input_string "$o -doub_d_tau -1. $b" > "$W/out" 2> "$W/err"; c=$?
echo "valid: $a, refused: $c"; [ $a -eq 0 ] && [ $c -ne 0 ]
""", kind="sh")

S("fd_coef_index", "C23", [("src/xrtm_fd_interface.c", "                                   a = ((double ***)  coef_p)[jj][k][l];", "                                   a = ((double ***)  coef_p)[jj > 1 ? 1 : jj][k][l];")],
  "finite differences of at least three derivatives whose coefficients are perturbed for one layer at a time",
  "The perturbations of coefficients given for all derivatives of one layer are right for the first two only.",
r"""
#include "xrtm_fd_interface.h"
int main(void) { sc s = base(XRTM_SOLVER_EIG_BVP); xrtm_data d; xrtm_fd_data f; double ***p, e = 0., q; int j, l; create(&d, &s); inputs(&d, &s);
  CK(xrtm_fd_create(&f, &d, 3)); p = alloc_array3_d(3, 1, 8); for (j = 0; j < 3; ++j) for (l = 0; l < 8; ++l) p[j][0][l] = l ? .1 * (j + 1) + .01 * l : 0.;
  CK(xrtm_fd_set_coef_p_1n(&f, 1, p));
  for (j = 0; j < 3; ++j) for (l = 0; l < 8; ++l) { q = fabs(xrtm_fd_get_coef_p(&f, 1, j, 0, l) - p[j][0][l]); if (!(q <= e)) e = q; }
  return verdict("perturbations of coefficients read back", e, 0.); }
""")

S("static_scratch", "C26", [("src/xrtm_brdf.c", """     double c_p;
     double f_p[2];

     cos_ksi     = aux2->cox_munk.a""", """     double c_p;
     static double f_p[2];

     cos_ksi     = aux2->cox_munk.a""")],
  "derivatives over a Cox-Munk surface in several threads at once",
  "A scratch array of the kernel is shared between all instances.",
r"""
#include <pthread.h>
#include <gutil.h>
static sc S[4]; static double ref[4]; static int bad;
static double one(sc *s) { xrtm_data d; double a, v = .3, *ph[1] = {&v}, ****ip = alloc_array4_d(1, 1, 1, 1), ****im = alloc_array4_d(1, 1, 1, 1), *****kp = alloc_array5_d(1, 1, 1, 1, 1), *****km = alloc_array5_d(1, 1, 1, 1, 1);
  create(&d, s); inputs(&d, s);
  CK(xrtm_solution(&d, s->solv, XRTM_OUTPUT_RADIANCE, 1, ph, ip, im, kp, km, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)); a = kp[0][0][0][0][0]; xrtm_destroy(&d);
  free_array4_d(ip); free_array4_d(im); free_array5_d(kp); free_array5_d(km); return a; }
static void *go(void *v) { int i, n = (sc *) v - S; for (i = 0; i < 60; ++i) if (!(fabs(one(v) - ref[n]) <= 1e-9 * fabs(ref[n]))) bad = 1; return NULL; }
int main(void) { pthread_t t[4]; int i;
  for (i = 0; i < 4; ++i) { S[i] = base(XRTM_SOLVER_EIG_BVP); S[i].opt |= XRTM_OPTION_CALC_DERIVS; S[i].nd = 1; S[i].nout = 1; S[i].lev[0] = 0; S[i].nt = 1; S[i].k[0] = XRTM_KERNEL_COX_MUNK; S[i].amp[0] = 1.; S[i].nkq = 100; S[i].par[0][0] = .01 + .04 * i; S[i].par[0][1] = 1.34 * 1.34; S[i].par_l[0][0][0] = 1.; ref[i] = one(&S[i]); }
  for (i = 0; i < 4; ++i) pthread_create(&t[i], NULL, go, &S[i]); for (i = 0; i < 4; ++i) pthread_join(t[i], NULL);
  printf("derivatives in four threads are %s those of one after the other\n", bad ? "NOT" : "as"); return bad; }
""")

S("six_stream_tau", "C03", [("src/xrtm_six_stream.c", "lambda_m[j] = exp(-nu[ii][j] * (ltau[ii] - utaus[i]));", "lambda_m[j] = exp(-nu[ii][j] * (ltau[0] - utaus[i]));")],
  "SIX_STREAM with output at an optical depth inside a layer other than the first, whose thickness is not that of the first",
  "The upward homogeneous solution is taken at the wrong depth of the layer.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_SIX_STREAM), t; double e;
  s.nq = 3; s.max_coef = 6; for (int i = 0; i < ML; ++i) s.ncoef[i] = 6; s.nt = 0; s.opt = (s.opt & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS;
  s.nout = 1; s.tau_out[0] = .3 + .2; run(&s); save();
  t = s; t.solv = XRTM_SOLVER_EIG_BVP; run(&t); e = worst(&s); return verdict("SIX_STREAM and EIG_BVP inside the second layer", e, 1e-7); }
""")

S("four_stream_user_phase", "C03", [("src/xrtm_four_stream.c", '''          for (l = i_four + 1; l < 4; l += 2) {
               for (j = 0; j < n_umus; ++j) {
                    a1 = coef[i][0][l] * Y_u[j][l];
                    for (k = 0; k < 2; ++k) {
                         P_uq_mp''', '''          for (l = i_four + 1; l < 3; l += 2) {
               for (j = 0; j < n_umus; ++j) {
                    a1 = coef[i][0][l] * Y_u[j][l];
                    for (k = 0; k < 2; ++k) {
                         P_uq_mp''')],
  "FOUR_STREAM at user angles with a phase function that has a fourth coefficient",
  "The fourth phase function coefficient is left out of multiple scattering towards user angles.",
r"""
int main(void) { sc s = base(XRTM_SOLVER_FOUR_STREAM), t; double e;
  s.nq = 2; s.max_coef = 4; for (int i = 0; i < ML; ++i) s.ncoef[i] = 4; s.opt |= XRTM_OPTION_SFI; run(&s); save();
  t = s; t.solv = XRTM_SOLVER_EIG_BVP; run(&t); e = worst(&s); return verdict("FOUR_STREAM and EIG_BVP at user angles", e, 1e-7); }
""")

S("pow_high_bits", "C32", [("misc/gmatrix.h", "          if (b[i]  != 0) {", "          if (b[i]  != 0 && i < 6) {")],
  "a matrix power above 64 that is not a power of two",
  "mat_pow leaves out the factors from a to the 64 on when a lower power has gone into the product.",
SH + LINK + r""" -Wl,--allow-multiple-definition -o "$W/demo" "$D/demo.c" $T/src/libxrtm.a $T/misc/libxrtm_misc.a $T/src/libxrtm.a -lopenblas -lgfortran -lm -fopenmp || exit 3
"$W/demo"
""", kind="sh", files={"demo.c": r"""
#include <stdio.h>
#include <math.h>
#include "gutil.h"
#include "gmath.h"
#include "gmath_matrix.h"
int main(void) {
  double a0[2][2] = {{1., .01}, {0., 1.}}, c0[2][2], u0[2][2], v0[2][2];
  double *a[2] = {a0[0], a0[1]}, *c[2] = {c0[0], c0[1]}, *u[2] = {u0[0], u0[1]}, *v[2] = {v0[0], v0[1]};
  int s, bad = 0;
  for (s = 1; s < 127; ++s) {
    dmat_pow(a, s, c, 2, 2, u, v);
    if (!(fabs(c[0][1] - .01 * s) < 1e-9)) { printf("power %d: %g\n", s, c[0][1]); bad = 1; }
  }
  return bad;
}
"""})
S("ragged_list", "C33", [("misc/rtutil_support.c", "          if (j != -1 && n != j) {", "          if (j != -1 && n > j) {")],
  "a list of two dimensions whose later row is shorter than the first",
  "get_value_list2_* accept it and leave the missing elements unset.",
SH + LINK + r""" -Wl,--allow-multiple-definition -o "$W/demo" "$D/demo.c" $T/src/libxrtm.a $T/misc/libxrtm_misc.a $T/src/libxrtm.a -lopenblas -lgfortran -lm -fopenmp || exit 3
"$W/demo"
""", kind="sh", files={"demo.c": r"""
#include <stdio.h>
int get_value_list2_d(const char *, char *, double ***, int *, int *);
int main(void) {
  char a[] = "1.,2.;3.,4.", b[] = "1.,2.;3.", c[] = "1.;2.,3."; double **x; int m, n;
  if (get_value_list2_d("values", a, &x, &m, &n) != 0 || m != 2 || n != 2 || x[1][0] != 3.) { puts("good list"); return 2; }
  if (get_value_list2_d("values", c, &x, &m, &n) == 0) { puts("longer row taken"); return 1; }
  if (get_value_list2_d("values", b, &x, &m, &n) == 0) { puts("shorter row taken"); return 1; }
  return 0;
}
"""})
S("dist_interval_ends", "C31", [("misc/rtutil_size_dist.c", "               c_l[j] = b_l[j] + a_l[j];", "               c_l[j] = b_l[j] + a_l[j] * (i + 1) / n_int;")],
  "a size distribution over more than one interval with derivatives with respect to its ends",
  "The derivatives of the nodes and weights of the inner intervals are not those of their ends.",
SH + LINK + r""" -Wl,--allow-multiple-definition -o "$W/demo" "$D/demo.c" $T/misc/rtutil_size_dist.c $T/src/libxrtm.a $T/misc/libxrtm_misc.a $T/src/libxrtm.a -lopenblas -lgfortran -lm -fopenmp || exit 3
"$W/demo"
""", kind="sh", files={"demo.c": r"""
#include <stdio.h>
#include <math.h>
#include "rtutil_size_dist.h"
#define N 15
static double X[N], W[N], R[N], NR;
static double dx[N][1], dw[N][1], dn[N][1], nl[1], l1[1], l2[1], *px[N], *pw[N], *pn[N], a1, b1;
static double z[1] = {0.}, one[1] = {1.};
static void run(double r2) {
  int i; for (i = 0; i < N; ++i) { px[i] = dx[i]; pw[i] = dw[i]; pn[i] = dn[i]; }
  get_particle_dist(SIZE_DIST_LOG_NORMAL, 1, 3, 5, 1, .5, .3, 0., 0., 0., .1, r2, z, z, z, z, z, z, one, X, W, R, &a1, &b1, px, pw, pn, l1, l2, &NR, nl);
}
int main(void) {
  double h = 1e-5, q[N], e = 0.; int i;
  run(3. + h); for (i = 0; i < N; ++i) q[i] = X[i];
  run(3. - h); for (i = 0; i < N; ++i) q[i] = (q[i] - X[i]) / (2 * h);
  run(3.); for (i = 0; i < N; ++i) if (!(fabs(q[i] - dx[i][0]) <= e)) e = fabs(q[i] - dx[i][0]);
  printf("nodes: derivative against difference quotient: %g\n", e);
  return e <= 1e-6 ? 0 : 1;
}
"""})
