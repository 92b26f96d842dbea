/* Flat-array access to the XRTM public C API, for ctypes.  Uses only the public
 * interface; every pointer-of-pointer array is built here from flat buffers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <malloc.h>
#include "xrtm_interface.h"
#include "xrtm_fd_interface.h"

size_t vx_sizeof(void) { return sizeof(xrtm_data); }
int vx_int_error(void) { return XRTM_INT_ERROR; }
double vx_dbl_error(void) { return XRTM_DBL_ERROR; }

void *vx_new(void) { return malloc(sizeof(xrtm_data)); }
void vx_free(void *d) { free(d); }

size_t vx_uordblks(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }

static void **ptrs(char *base, int n, size_t stride) {
    int i; void **p = malloc((n > 0 ? n : 1) * sizeof(void *));
    for (i = 0; i < n; ++i) p[i] = base + i * stride;
    return p;
}
static double ***p3(double *b, int n1, int n2, int n3) {
    int i; double ***p = malloc((n1 > 0 ? n1 : 1) * sizeof(void *));
    for (i = 0; i < n1; ++i) p[i] = (double **) ptrs((char *)(b + (size_t)i*n2*n3), n2, n3*sizeof(double));
    return p;
}
static void f3(double ***p, int n1) { int i; for (i=0;i<n1;++i) free(p[i]); free(p); }
static double ****p4(double *b, int n1, int n2, int n3, int n4) {
    int i; double ****p = malloc((n1 > 0 ? n1 : 1) * sizeof(void *));
    for (i = 0; i < n1; ++i) p[i] = p3(b + (size_t)i*n2*n3*n4, n2, n3, n4);
    return p;
}
static void f4(double ****p, int n1, int n2) { int i; for (i=0;i<n1;++i) f3(p[i], n2); free(p); }
static double *****p5(double *b, int n1, int n2, int n3, int n4, int n5) {
    int i; double *****p = malloc((n1 > 0 ? n1 : 1) * sizeof(void *));
    for (i = 0; i < n1; ++i) p[i] = p4(b + (size_t)i*n2*n3*n4*n5, n2, n3, n4, n5);
    return p;
}
static void f5(double *****p, int n1, int n2, int n3) { int i; for (i=0;i<n1;++i) f4(p[i], n2, n3); free(p); }

/* coef: flat [n_elem][n_coef] with row stride n_coef */
int vx_set_coef_1(xrtm_data *d, int i_layer, int n_coef, double *c, int n_elem) {
    double **p = (double **) ptrs((char *) c, n_elem, (size_t) n_coef*sizeof(double));
    int r = xrtm_set_coef_1(d, i_layer, n_coef, p); free(p); return r;
}
/* the same with the row stride apart from the count, which may be an invalid one */
int vx_set_coef_1s(xrtm_data *d, int i_layer, int n_coef, double *c, int n_elem, int stride) {
    double **p = (double **) ptrs((char *) c, n_elem, (size_t) stride*sizeof(double));
    int r = xrtm_set_coef_1(d, i_layer, n_coef, p); free(p); return r;
}
/* flat [n_layers][n_elem][stride] */
int vx_set_coef_n(xrtm_data *d, int *n_coef, double *c, int n_layers, int n_elem, int stride) {
    double ***p = p3(c, n_layers, n_elem, stride);
    int r = xrtm_set_coef_n(d, n_coef, p); f3(p, n_layers); return r;
}
int vx_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double *c, int n_elem, int stride) {
    double **p = (double **) ptrs((char *) c, n_elem, (size_t) stride*sizeof(double));
    int r = xrtm_set_coef_l_11(d, i_layer, i_deriv, p); free(p); return r;
}
int vx_set_coef_l_n1(xrtm_data *d, int i_deriv, double *c, int n_layers, int n_elem, int stride) {
    double ***p = p3(c, n_layers, n_elem, stride);
    int r = xrtm_set_coef_l_n1(d, i_deriv, p); f3(p, n_layers); return r;
}
int vx_set_coef_l_1n(xrtm_data *d, int i_layer, double *c, int n_derivs, int n_elem, int stride) {
    double ***p = p3(c, n_derivs, n_elem, stride);
    int r = xrtm_set_coef_l_1n(d, i_layer, p); f3(p, n_derivs); return r;
}
int vx_set_coef_l_nn(xrtm_data *d, double *c, int n_layers, int n_derivs, int n_elem, int stride) {
    double ****p = p4(c, n_layers, n_derivs, n_elem, stride);
    int r = xrtm_set_coef_l_nn(d, p); f4(p, n_layers, n_derivs); return r;
}
#define NN2(NAME) int vx_set_##NAME(xrtm_data *d, double *v, int n1, int n2) { \
    double **p = (double **) ptrs((char *) v, n1, (size_t) n2*sizeof(double)); \
    int r = xrtm_set_##NAME(d, p); free(p); return r; }
NN2(omega_l_nn)
NN2(ltau_l_nn)
NN2(levels_b_l_n)
NN2(g_l_nn)
int vx_set_kernel_params_l_nn(xrtm_data *d, int i_kernel, double *v, int n1, int n2) {
    double **p = (double **) ptrs((char *) v, n1, (size_t) n2*sizeof(double));
    int r = xrtm_set_kernel_params_l_nn(d, i_kernel, p); free(p); return r;
}

/* A surface kernel of the user: p0 + p1 ci cr + p2 si sr cos(phi) + p3 sin(phi)^2 si sr, with its derivatives. */
static void user_aux(brdf_aux_data *a, void *b, int i, int j, int nd, uchar *f, double *p, double **pl) { }
static double user_kernel(brdf_aux_data *a, void *b, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int nd, uchar *f, double *p, double **pl, double *fl) {
    double q[4]; int m, n; double r = 0.;
    q[0] = 1.; q[1] = a->cos_theta[i]*a->cos_theta[j]; q[2] = a->sin_theta[i]*a->sin_theta[j]*cos(phi);
    q[3] = a->sin_phi[k]*a->sin_phi[k]*a->sin_theta[i]*a->sin_theta[j];
    for (m = 0; m < 4; ++m) r += p[m]*q[m];
    for (n = 0; n < nd; ++n) if (f[n]) { fl[n] = 0.; for (m = 0; m < 4; ++m) fl[n] += pl[n][m]*q[m]; }
    return r;
}
int vx_set_user_kernel(xrtm_data *d, int i) { return xrtm_set_kernel_func(d, i, user_aux, user_kernel); }

/* another one, linear in the same parameters */
static double user_kernel_2(brdf_aux_data *a, void *b, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int nd, uchar *f, double *p, double **pl, double *fl) {
    int n; double r = .5*user_kernel(a, b, g, i, j, k, phi, nd, f, p, pl, fl) + .1*p[0];
    for (n = 0; n < nd; ++n) if (f[n]) fl[n] = .5*fl[n] + .1*pl[n][0];
    return r;
}
int vx_set_user_kernel_2(xrtm_data *d, int i) { return xrtm_set_kernel_func(d, i, user_aux, user_kernel_2); }

/* which: 1 = xrtm_solution, 2 = xrtm_radiance, 3 = mean, 4 = flux, 5 = flux_div,
 *        11 = xrtm_solution_2, 12 = xrtm_radiance_2 */
int vx_solve(xrtm_data *d, int which, int solver, int solutions,
             int nl, int nt, int np, int ns, int nd, double *phis,
             double *Ip, double *Im, double *Ipl, double *Iml,
             double *mp, double *mm, double *mpl, double *mml,
             double *fp, double *fm, double *fpl, double *fml,
             double *dv, double *dvl) {
    int r = -12345;
    double **ph   = phis ? (double **) ptrs((char *) phis, nt, (size_t) np*sizeof(double)) : NULL;
    double ****ip = Ip ? p4(Ip, nl, nt, np, ns) : NULL;
    double ****im = Im ? p4(Im, nl, nt, np, ns) : NULL;
    double *****ipl = Ipl && nd ? p5(Ipl, nl, nd, nt, np, ns) : NULL;
    double *****iml = Iml && nd ? p5(Iml, nl, nd, nt, np, ns) : NULL;
    double **MPL = mpl && nd ? (double **) ptrs((char *) mpl, nl, (size_t) nd*sizeof(double)) : NULL;
    double **MML = mml && nd ? (double **) ptrs((char *) mml, nl, (size_t) nd*sizeof(double)) : NULL;
    double **FPL = fpl && nd ? (double **) ptrs((char *) fpl, nl, (size_t) nd*sizeof(double)) : NULL;
    double **FML = fml && nd ? (double **) ptrs((char *) fml, nl, (size_t) nd*sizeof(double)) : NULL;
    double **DVL = dvl && nd ? (double **) ptrs((char *) dvl, nl, (size_t) nd*sizeof(double)) : NULL;
    switch (which) {
    case 1:  r = xrtm_solution(d, solver, solutions, np, ph, ip, im, ipl, iml, mp, mm, MPL, MML, fp, fm, FPL, FML, dv, DVL); break;
    case 2:  r = xrtm_radiance(d, solver, np, ph, ip, im, ipl, iml); break;
    case 3:  r = xrtm_mean_radiance(d, solver, mp, mm, MPL, MML); break;
    case 4:  r = xrtm_flux(d, solver, fp, fm, FPL, FML); break;
    case 5:  r = xrtm_flux_divergence(d, solver, dv, DVL); break;
    case 11: r = xrtm_solution_2(d, solver, solutions, np, ph, ip, im, ipl, iml, mp, mm, MPL, MML, fp, fm, FPL, FML, dv, DVL); break;
    case 12: r = xrtm_radiance_2(d, solver, np, ph, ip, im, ipl, iml); break;
    }
    free(ph);
    if (ip) f4(ip, nl, nt);
    if (im) f4(im, nl, nt);
    if (ipl) f5(ipl, nl, nd, nt);
    if (iml) f5(iml, nl, nd, nt);
    free(MPL); free(MML); free(FPL); free(FML); free(DVL);
    return r;
}

int vx_local_r_t_u_w(xrtm_data *d, int i_four, int i_layer, int n, int nd,
                     double *rp, double *tp, double *rm, double *tm,
                     double *rpl, double *tpl, double *rml, double *tml) {
    int r;
    double **a = (double **) ptrs((char *) rp, n, n*sizeof(double)), **b = (double **) ptrs((char *) tp, n, n*sizeof(double));
    double **c = (double **) ptrs((char *) rm, n, n*sizeof(double)), **e = (double **) ptrs((char *) tm, n, n*sizeof(double));
    double ***al = nd ? p3(rpl, nd, n, n) : NULL, ***bl = nd ? p3(tpl, nd, n, n) : NULL;
    double ***cl = nd ? p3(rml, nd, n, n) : NULL, ***el = nd ? p3(tml, nd, n, n) : NULL;
    r = xrtm_local_r_t_u_w(d, i_four, i_layer, a, b, c, e, al, bl, cl, el);
    free(a); free(b); free(c); free(e);
    if (nd) { f3(al, nd); f3(bl, nd); f3(cl, nd); f3(el, nd); }
    return r;
}
