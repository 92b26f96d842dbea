/* Small helpers for the demonstrations: one scene per struct, solved through the public API. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <xrtm_interface.h>
#define ML 8
#define MT 8
#define MC 64
#define MD 4
static const int npar[] = {0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 0};
typedef struct {
  int opt, solv, max_coef, nq, ns, nd, nl, nk, nkq, nout, nt, np;
  enum xrtm_kernel_type k[4];
  double amp[4], par[4][4];
  int lev[ML + 1]; double tau_out[ML];
  double theta[MT], phi[4];
  double F0, th0, phi0, iso_top, iso_bot, lb[ML + 1], sb, pr, z[ML + 1], four_tol, d_tau;
  int ncoef[ML]; double coef[ML][6][MC], om[ML], tau[ML];
  double om_l[MD][ML], tau_l[MD][ML], coef_l[MD][ML][6][MC], amp_l[MD][4], par_l[MD][4][4], iso_top_l[MD], iso_bot_l[MD], lb_l[MD][ML + 1], sb_l[MD];
} sc;
static double Ip[ML + 1][MT][4][4], Im[ML + 1][MT][4][4], Kp[ML + 1][MD][MT][4][4], Km[ML + 1][MD][MT][4][4];
static double mp[ML + 1], mm[ML + 1], fp[ML + 1], fm[ML + 1];
#define CK(x) do { if (x) { fprintf(stderr, "failed: %s\n", #x); exit(9); } } while (0)
static void hg(double *c, int n, double g) { int l; for (l = 0; l < n; ++l) c[l] = (2 * l + 1) * pow(g, l); }
static sc base(int solver) {
  sc s; int i; memset(&s, 0, sizeof s);
  s.opt = XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR; s.solv = solver; s.nq = 4; s.max_coef = 8; s.ns = 1; s.nl = 2; s.nkq = 16;
  s.nout = 2; s.lev[0] = 0; s.lev[1] = 2; s.nt = 2; s.theta[0] = 20.; s.theta[1] = 55.; s.np = 1; s.phi[0] = 40.;
  s.nk = 1; s.k[0] = XRTM_KERNEL_LAMBERTIAN; s.amp[0] = .3; s.F0 = 1.; s.th0 = 40.; s.d_tau = 1e-6; s.pr = 6371.;
  for (i = 0; i < ML; ++i) { s.ncoef[i] = 8; hg(s.coef[i][0], 8, .5 + .05 * i); s.om[i] = .9 - .1 * i; s.tau[i] = .3 + .2 * i; }
  for (i = 0; i <= ML; ++i) { s.lb[i] = 1. + .2 * i; s.z[i] = 10. * (ML - i); }
  s.sb = 1.5; return s;
}
static void put_coef(xrtm_data *d, sc *s, int i, double (*c)[MC], int lin, int j) {
  double *p[6]; int e; for (e = 0; e < 6; ++e) p[e] = c[e];
  if (lin) CK(xrtm_set_coef_l_11(d, i, j, p)); else CK(xrtm_set_coef_1(d, i, s->ncoef[i], p));
}
static void create(xrtm_data *d, sc *s) {
  CK(xrtm_create(d, s->opt, s->solv, s->max_coef, s->nq, s->ns, s->nd, s->nl, 1, s->nk, s->nkq, s->k, s->nout, s->nt));
}
static void inputs(xrtm_data *d, sc *s) {
  int i, j, so = s->opt & XRTM_OPTION_SOURCE_SOLAR, th = s->opt & XRTM_OPTION_SOURCE_THERMAL;
  CK(xrtm_set_fourier_tol(d, s->four_tol));
  if (s->solv & XRTM_SOLVER_DOUB_ADD) CK(xrtm_set_doub_d_tau(d, s->d_tau));
  if (s->solv & XRTM_SOLVER_PADE_ADD) CK(xrtm_set_pade_params(d, 8, 6));
  if (s->solv & XRTM_SOLVER_SOS) CK(xrtm_set_sos_params(d, 200, .005, 1e-10));
  if (s->opt & XRTM_OPTION_OUTPUT_AT_LEVELS) CK(xrtm_set_out_levels(d, s->lev));
  if (s->nt) CK(xrtm_set_out_thetas(d, s->theta));
  CK(xrtm_set_F_iso_top(d, s->iso_top)); CK(xrtm_set_F_iso_bot(d, s->iso_bot));
  if (so) { CK(xrtm_set_F_0(d, s->F0)); CK(xrtm_set_theta_0(d, s->th0)); CK(xrtm_set_phi_0(d, s->phi0)); }
  if (s->opt & XRTM_OPTION_PSA) { CK(xrtm_set_planet_r(d, s->pr)); CK(xrtm_set_levels_z(d, s->z)); }
  if (th) { CK(xrtm_set_levels_b(d, s->lb)); CK(xrtm_set_surface_b(d, s->sb)); }
  for (i = 0; i < s->nl; ++i) { put_coef(d, s, i, s->coef[i], 0, 0); CK(xrtm_set_omega_1(d, i, s->om[i])); CK(xrtm_set_ltau_1(d, i, s->tau[i])); }
  for (i = 0; i < s->nk; ++i) { CK(xrtm_set_kernel_ampfac(d, i, s->amp[i])); if (npar[s->k[i]]) CK(xrtm_set_kernel_params_n(d, i, s->par[i])); }
  if (s->opt & XRTM_OPTION_OUTPUT_AT_TAUS) CK(xrtm_set_out_taus(d, s->tau_out));
  if (s->opt & XRTM_OPTION_CALC_DERIVS) {
    for (j = 0; j < s->nd; ++j) {
      for (i = 0; i < s->nl; ++i) { put_coef(d, s, i, s->coef_l[j][i], 1, j); CK(xrtm_set_omega_l_11(d, i, j, s->om_l[j][i])); CK(xrtm_set_ltau_l_11(d, i, j, s->tau_l[j][i])); }
      for (i = 0; i < s->nk; ++i) { CK(xrtm_set_kernel_ampfac_l_1(d, i, j, s->amp_l[j][i])); if (npar[s->k[i]]) CK(xrtm_set_kernel_params_l_1n(d, i, j, s->par_l[j][i])); }
      CK(xrtm_set_F_iso_top_l_1(d, j, s->iso_top_l[j])); CK(xrtm_set_F_iso_bot_l_1(d, j, s->iso_bot_l[j]));
      if (th) { CK(xrtm_set_levels_b_l_1(d, j, s->lb_l[j])); CK(xrtm_set_surface_b_l_1(d, j, s->sb_l[j])); }
    }
    CK(xrtm_update_varied_layers(d));
  }
}
static void solve(xrtm_data *d, sc *s, int solver, int outputs) {
  int n = s->nt ? s->nt : s->nq, i, j, k, l; double *ph[MT];
  double ***p4[ML + 1], ***m4[ML + 1], ****p5[ML + 1], ****m5[ML + 1];
  memset(Ip, 0, sizeof Ip); memset(Im, 0, sizeof Im); memset(Kp, 0, sizeof Kp); memset(Km, 0, sizeof Km);
  for (i = 0; i < n; ++i) ph[i] = s->phi;
  for (i = 0; i < s->nout; ++i) {
    p4[i] = malloc(n * sizeof **p4); m4[i] = malloc(n * sizeof **m4);
    for (j = 0; j < n; ++j) { p4[i][j] = malloc(s->np * sizeof(double *)); m4[i][j] = malloc(s->np * sizeof(double *)); for (k = 0; k < s->np; ++k) { p4[i][j][k] = Ip[i][j][k]; m4[i][j][k] = Im[i][j][k]; } }
    p5[i] = malloc((s->nd + 1) * sizeof **p5); m5[i] = malloc((s->nd + 1) * sizeof **m5);
    for (l = 0; l < s->nd; ++l) { p5[i][l] = malloc(n * sizeof ***p5); m5[i][l] = malloc(n * sizeof ***m5);
      for (j = 0; j < n; ++j) { p5[i][l][j] = malloc(s->np * sizeof(double *)); m5[i][l][j] = malloc(s->np * sizeof(double *)); for (k = 0; k < s->np; ++k) { p5[i][l][j][k] = Kp[i][l][j][k]; m5[i][l][j][k] = Km[i][l][j][k]; } } }
  }
  CK(xrtm_solution(d, solver, outputs, s->np, ph, p4, m4, p5, m5, mp, mm, NULL, NULL, fp, fm, NULL, NULL, NULL, NULL));
}
static void run(sc *s) { xrtm_data d; create(&d, s); inputs(&d, s); solve(&d, s, s->solv, XRTM_OUTPUT_RADIANCE); xrtm_destroy(&d); }
static double keep[2][ML + 1][MT][4][4];
static void save(void) { memcpy(keep[0], Ip, sizeof Ip); memcpy(keep[1], Im, sizeof Im); }
static double worst(sc *s) { int i, j, k, l, n = s->nt ? s->nt : s->nq; double w = 0., m = 1e-300, a;
  for (i = 0; i < s->nout; ++i) for (j = 0; j < n; ++j) for (k = 0; k < s->np; ++k) for (l = 0; l < s->ns; ++l) {
    a = fabs(Ip[i][j][k][l] - keep[0][i][j][k][l]); if (!(a <= w)) w = a; a = fabs(Im[i][j][k][l] - keep[1][i][j][k][l]); if (!(a <= w)) w = a;
    if (fabs(Ip[i][j][k][l]) > m) m = fabs(Ip[i][j][k][l]); if (fabs(Im[i][j][k][l]) > m) m = fabs(Im[i][j][k][l]); }
  return w / m; }
static int verdict(const char *what, double e, double tol) { printf("%s: differ by %.3e of the largest value, allowed %.0e: %s\n", what, e, tol, e <= tol ? "ok" : "BROKEN"); return e <= tol ? 0 : 1; }
