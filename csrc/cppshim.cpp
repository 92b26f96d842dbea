/* Written from the interface table: plain functions around the C++ class, which report a throw. */
#include "xrtm_int_cpp.h"
#include <string.h>
typedef xrtm_int_cpp O;
extern "C" {
O *vc_create(int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, int *kernels, int n_out_levels, int n_out_thetas) { try { return new O(options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, (O::kernel_type *) kernels, n_out_levels, n_out_thetas); } catch (...) { return NULL; } }
void vc_destroy(O *o) { delete o; }
int vc_get_options(O *o, double *res) { try { *res = (double) o->get_options(); } catch (...) { return 1; } return 0; }
int vc_get_solvers(O *o, double *res) { try { *res = (double) o->get_solvers(); } catch (...) { return 1; } return 0; }
int vc_get_max_coef(O *o, double *res) { try { *res = (double) o->get_max_coef(); } catch (...) { return 1; } return 0; }
int vc_get_n_quad(O *o, double *res) { try { *res = (double) o->get_n_quad(); } catch (...) { return 1; } return 0; }
int vc_get_n_stokes(O *o, double *res) { try { *res = (double) o->get_n_stokes(); } catch (...) { return 1; } return 0; }
int vc_get_n_derivs(O *o, double *res) { try { *res = (double) o->get_n_derivs(); } catch (...) { return 1; } return 0; }
int vc_get_n_layers(O *o, double *res) { try { *res = (double) o->get_n_layers(); } catch (...) { return 1; } return 0; }
int vc_get_n_kernels(O *o, double *res) { try { *res = (double) o->get_n_kernels(); } catch (...) { return 1; } return 0; }
int vc_get_n_kernel_quad(O *o, double *res) { try { *res = (double) o->get_n_kernel_quad(); } catch (...) { return 1; } return 0; }
int vc_get_kernel(O *o, double *res, int i_kernel) { try { *res = (double) o->get_kernel(i_kernel); } catch (...) { return 1; } return 0; }
int vc_get_n_out_levels(O *o, double *res) { try { *res = (double) o->get_n_out_levels(); } catch (...) { return 1; } return 0; }
int vc_get_n_out_thetas(O *o, double *res) { try { *res = (double) o->get_n_out_thetas(); } catch (...) { return 1; } return 0; }
int vc_get_n_out_thetas_2(O *o, double *res) { try { *res = (double) o->get_n_out_thetas_2(); } catch (...) { return 1; } return 0; }
int vc_set_doub_d_tau(O *o, double d_tau) { try { o->set_doub_d_tau(d_tau); } catch (...) { return 1; } return 0; }
int vc_get_doub_d_tau(O *o, double *res) { try { *res = (double) o->get_doub_d_tau(); } catch (...) { return 1; } return 0; }
int vc_set_pade_params(O *o, int pade_s, int pade_r) { try { o->set_pade_params(pade_s, pade_r); } catch (...) { return 1; } return 0; }
int vc_get_pade_params(O *o, int *pade_s, int *pade_r) { try { o->get_pade_params(pade_s, pade_r); } catch (...) { return 1; } return 0; }
int vc_set_sos_params(O *o, int max_os, double max_tau, double sos_tol) { try { o->set_sos_params(max_os, max_tau, sos_tol); } catch (...) { return 1; } return 0; }
int vc_get_sos_params(O *o, int *max_os, double *max_tau, double *sos_tol) { try { o->get_sos_params(max_os, max_tau, sos_tol); } catch (...) { return 1; } return 0; }
int vc_set_fourier_tol(O *o, double fourier_tol) { try { o->set_fourier_tol(fourier_tol); } catch (...) { return 1; } return 0; }
int vc_get_fourier_tol(O *o, double *res) { try { *res = (double) o->get_fourier_tol(); } catch (...) { return 1; } return 0; }
int vc_set_lambda(O *o, double lambda) { try { o->set_lambda(lambda); } catch (...) { return 1; } return 0; }
int vc_get_lambda(O *o, double *res) { try { *res = (double) o->get_lambda(); } catch (...) { return 1; } return 0; }
int vc_set_planet_r(O *o, double planet_r) { try { o->set_planet_r(planet_r); } catch (...) { return 1; } return 0; }
int vc_get_planet_r(O *o, double *res) { try { *res = (double) o->get_planet_r(); } catch (...) { return 1; } return 0; }
int vc_set_levels_z(O *o, double *levels_z) { try { o->set_levels_z(levels_z); } catch (...) { return 1; } return 0; }
int vc_get_levels_z(O *o, double *levels_z) { try { o->get_levels_z(levels_z); } catch (...) { return 1; } return 0; }
int vc_set_out_levels(O *o, int *out_levels) { try { o->set_out_levels(out_levels); } catch (...) { return 1; } return 0; }
int vc_get_out_levels(O *o, int *out_levels) { try { o->get_out_levels(out_levels); } catch (...) { return 1; } return 0; }
int vc_set_out_taus(O *o, double *out_taus) { try { o->set_out_taus(out_taus); } catch (...) { return 1; } return 0; }
int vc_get_out_taus(O *o, double *out_taus) { try { o->get_out_taus(out_taus); } catch (...) { return 1; } return 0; }
int vc_set_out_thetas(O *o, double *out_thetas) { try { o->set_out_thetas(out_thetas); } catch (...) { return 1; } return 0; }
int vc_get_out_thetas(O *o, double *out_thetas) { try { o->get_out_thetas(out_thetas); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_top(O *o, double F_iso_top) { try { o->set_F_iso_top(F_iso_top); } catch (...) { return 1; } return 0; }
int vc_get_F_iso_top(O *o, double *res) { try { *res = (double) o->get_F_iso_top(); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_top_l_1(O *o, int i_deriv, double F_iso_top_l) { try { o->set_F_iso_top_l_1(i_deriv, F_iso_top_l); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_top_l_n(O *o, double *F_iso_top_l) { try { o->set_F_iso_top_l_n(F_iso_top_l); } catch (...) { return 1; } return 0; }
int vc_get_F_iso_top_l(O *o, double *res, int i_deriv) { try { *res = (double) o->get_F_iso_top_l(i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_bot(O *o, double F_iso_bot) { try { o->set_F_iso_bot(F_iso_bot); } catch (...) { return 1; } return 0; }
int vc_get_F_iso_bot(O *o, double *res) { try { *res = (double) o->get_F_iso_bot(); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_bot_l_1(O *o, int i_deriv, double F_iso_bot_l) { try { o->set_F_iso_bot_l_1(i_deriv, F_iso_bot_l); } catch (...) { return 1; } return 0; }
int vc_set_F_iso_bot_l_n(O *o, double *F_iso_bot_l) { try { o->set_F_iso_bot_l_n(F_iso_bot_l); } catch (...) { return 1; } return 0; }
int vc_get_F_iso_bot_l(O *o, double *res, int i_deriv) { try { *res = (double) o->get_F_iso_bot_l(i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_F_0(O *o, double F_0) { try { o->set_F_0(F_0); } catch (...) { return 1; } return 0; }
int vc_get_F_0(O *o, double *res) { try { *res = (double) o->get_F_0(); } catch (...) { return 1; } return 0; }
int vc_set_theta_0(O *o, double theta_0) { try { o->set_theta_0(theta_0); } catch (...) { return 1; } return 0; }
int vc_get_theta_0(O *o, double *res) { try { *res = (double) o->get_theta_0(); } catch (...) { return 1; } return 0; }
int vc_set_phi_0(O *o, double phi_0) { try { o->set_phi_0(phi_0); } catch (...) { return 1; } return 0; }
int vc_get_phi_0(O *o, double *res) { try { *res = (double) o->get_phi_0(); } catch (...) { return 1; } return 0; }
int vc_set_levels_b(O *o, double *levels_b) { try { o->set_levels_b(levels_b); } catch (...) { return 1; } return 0; }
int vc_get_levels_b(O *o, double *levels_b) { try { o->get_levels_b(levels_b); } catch (...) { return 1; } return 0; }
int vc_set_levels_b_l_1(O *o, int i_deriv, double *levels_b_l) { try { o->set_levels_b_l_1(i_deriv, levels_b_l); } catch (...) { return 1; } return 0; }
int vc_set_levels_b_l_n(O *o, double **levels_b_l) { try { o->set_levels_b_l_n(levels_b_l); } catch (...) { return 1; } return 0; }
int vc_get_levels_b_l(O *o, int i_deriv, double *levels_b_l) { try { o->get_levels_b_l(i_deriv, levels_b_l); } catch (...) { return 1; } return 0; }
int vc_set_surface_b(O *o, double surface_b) { try { o->set_surface_b(surface_b); } catch (...) { return 1; } return 0; }
int vc_get_surface_b(O *o, double *res) { try { *res = (double) o->get_surface_b(); } catch (...) { return 1; } return 0; }
int vc_set_surface_b_l_1(O *o, int i_deriv, double surface_b_l) { try { o->set_surface_b_l_1(i_deriv, surface_b_l); } catch (...) { return 1; } return 0; }
int vc_set_surface_b_l_n(O *o, double *surface_b_l) { try { o->set_surface_b_l_n(surface_b_l); } catch (...) { return 1; } return 0; }
int vc_get_surface_b_l(O *o, double *res, int i_deriv) { try { *res = (double) o->get_surface_b_l(i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_g_1(O *o, int i_layer, double g) { try { o->set_g_1(i_layer, g); } catch (...) { return 1; } return 0; }
int vc_set_g_n(O *o, double *g) { try { o->set_g_n(g); } catch (...) { return 1; } return 0; }
int vc_get_g(O *o, double *res, int i_layer) { try { *res = (double) o->get_g(i_layer); } catch (...) { return 1; } return 0; }
int vc_set_g_l_11(O *o, int i_layer, int i_deriv, double g_l) { try { o->set_g_l_11(i_layer, i_deriv, g_l); } catch (...) { return 1; } return 0; }
int vc_set_g_l_n1(O *o, int i_deriv, double *g_l) { try { o->set_g_l_n1(i_deriv, g_l); } catch (...) { return 1; } return 0; }
int vc_set_g_l_1n(O *o, int i_layer, double *g_l) { try { o->set_g_l_1n(i_layer, g_l); } catch (...) { return 1; } return 0; }
int vc_set_g_l_nn(O *o, double **g_l) { try { o->set_g_l_nn(g_l); } catch (...) { return 1; } return 0; }
int vc_get_g_l(O *o, double *res, int i_layer, int i_deriv) { try { *res = (double) o->get_g_l(i_layer, i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_coef_1(O *o, int i_layer, int n_coef_layer, double **coef) { try { o->set_coef_1(i_layer, n_coef_layer, coef); } catch (...) { return 1; } return 0; }
int vc_set_coef_n(O *o, int *n_coef_layer, double ***coef) { try { o->set_coef_n(n_coef_layer, coef); } catch (...) { return 1; } return 0; }
int vc_get_n_coef(O *o, double *res, int i_layer) { try { *res = (double) o->get_n_coef(i_layer); } catch (...) { return 1; } return 0; }
int vc_get_coef(O *o, double *res, int i_layer, int i_elem, int i_coef) { try { *res = (double) o->get_coef(i_layer, i_elem, i_coef); } catch (...) { return 1; } return 0; }
int vc_set_coef_l_11(O *o, int i_layer, int i_deriv, double **coef_l) { try { o->set_coef_l_11(i_layer, i_deriv, coef_l); } catch (...) { return 1; } return 0; }
int vc_set_coef_l_n1(O *o, int i_deriv, double ***coef_l) { try { o->set_coef_l_n1(i_deriv, coef_l); } catch (...) { return 1; } return 0; }
int vc_set_coef_l_1n(O *o, int i_layer, double ***coef_l) { try { o->set_coef_l_1n(i_layer, coef_l); } catch (...) { return 1; } return 0; }
int vc_set_coef_l_nn(O *o, double ****coef_l) { try { o->set_coef_l_nn(coef_l); } catch (...) { return 1; } return 0; }
int vc_get_coef_l(O *o, double *res, int i_layer, int i_deriv, int i_elem, int i_coef) { try { *res = (double) o->get_coef_l(i_layer, i_deriv, i_elem, i_coef); } catch (...) { return 1; } return 0; }
int vc_set_omega_1(O *o, int i_layer, double omega) { try { o->set_omega_1(i_layer, omega); } catch (...) { return 1; } return 0; }
int vc_set_omega_n(O *o, double *omega) { try { o->set_omega_n(omega); } catch (...) { return 1; } return 0; }
int vc_get_omega(O *o, double *res, int i_layer) { try { *res = (double) o->get_omega(i_layer); } catch (...) { return 1; } return 0; }
int vc_set_omega_l_11(O *o, int i_layer, int i_deriv, double omega_l) { try { o->set_omega_l_11(i_layer, i_deriv, omega_l); } catch (...) { return 1; } return 0; }
int vc_set_omega_l_n1(O *o, int i_deriv, double *omega_l) { try { o->set_omega_l_n1(i_deriv, omega_l); } catch (...) { return 1; } return 0; }
int vc_set_omega_l_1n(O *o, int i_layer, double *omega_l) { try { o->set_omega_l_1n(i_layer, omega_l); } catch (...) { return 1; } return 0; }
int vc_set_omega_l_nn(O *o, double **omega_l) { try { o->set_omega_l_nn(omega_l); } catch (...) { return 1; } return 0; }
int vc_get_omega_l(O *o, double *res, int i_layer, int i_deriv) { try { *res = (double) o->get_omega_l(i_layer, i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_ltau_1(O *o, int i_layer, double ltau) { try { o->set_ltau_1(i_layer, ltau); } catch (...) { return 1; } return 0; }
int vc_set_ltau_n(O *o, double *ltau) { try { o->set_ltau_n(ltau); } catch (...) { return 1; } return 0; }
int vc_get_ltau(O *o, double *res, int i_layer) { try { *res = (double) o->get_ltau(i_layer); } catch (...) { return 1; } return 0; }
int vc_set_ltau_l_11(O *o, int i_layer, int i_deriv, double ltau_l) { try { o->set_ltau_l_11(i_layer, i_deriv, ltau_l); } catch (...) { return 1; } return 0; }
int vc_set_ltau_l_n1(O *o, int i_deriv, double *ltau_l) { try { o->set_ltau_l_n1(i_deriv, ltau_l); } catch (...) { return 1; } return 0; }
int vc_set_ltau_l_1n(O *o, int i_layer, double *ltau_l) { try { o->set_ltau_l_1n(i_layer, ltau_l); } catch (...) { return 1; } return 0; }
int vc_set_ltau_l_nn(O *o, double **ltau_l) { try { o->set_ltau_l_nn(ltau_l); } catch (...) { return 1; } return 0; }
int vc_get_ltau_l(O *o, double *res, int i_layer, int i_deriv) { try { *res = (double) o->get_ltau_l(i_layer, i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_kernel_ampfac(O *o, int i_kernel, double ampfac) { try { o->set_kernel_ampfac(i_kernel, ampfac); } catch (...) { return 1; } return 0; }
int vc_get_kernel_ampfac(O *o, double *res, int i_kernel) { try { *res = (double) o->get_kernel_ampfac(i_kernel); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_1(O *o, int i_kernel, int i_param, double param) { try { o->set_kernel_params_1(i_kernel, i_param, param); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_n(O *o, int i_kernel, double *params) { try { o->set_kernel_params_n(i_kernel, params); } catch (...) { return 1; } return 0; }
int vc_get_kernel_params(O *o, double *res, int i_kernel, int i_param) { try { *res = (double) o->get_kernel_params(i_kernel, i_param); } catch (...) { return 1; } return 0; }
int vc_set_kernel_ampfac_l_1(O *o, int i_kernel, int i_deriv, double ampfac_l) { try { o->set_kernel_ampfac_l_1(i_kernel, i_deriv, ampfac_l); } catch (...) { return 1; } return 0; }
int vc_set_kernel_ampfac_l_n(O *o, int i_kernel, double *ampfac_l) { try { o->set_kernel_ampfac_l_n(i_kernel, ampfac_l); } catch (...) { return 1; } return 0; }
int vc_get_kernel_ampfac_l(O *o, double *res, int i_kernel, int i_deriv) { try { *res = (double) o->get_kernel_ampfac_l(i_kernel, i_deriv); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_l_11(O *o, int i_kernel, int i_deriv, int i_param, double param_l) { try { o->set_kernel_params_l_11(i_kernel, i_deriv, i_param, param_l); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_l_1n(O *o, int i_kernel, int i_deriv, double *params_l) { try { o->set_kernel_params_l_1n(i_kernel, i_deriv, params_l); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_l_n1(O *o, int i_kernel, int i_param, double *params_l) { try { o->set_kernel_params_l_n1(i_kernel, i_param, params_l); } catch (...) { return 1; } return 0; }
int vc_set_kernel_params_l_nn(O *o, int i_kernel, double **params_l) { try { o->set_kernel_params_l_nn(i_kernel, params_l); } catch (...) { return 1; } return 0; }
int vc_get_kernel_params_l(O *o, double *res, int i_kernel, int i_deriv, int i_param) { try { *res = (double) o->get_kernel_params_l(i_kernel, i_deriv, i_param); } catch (...) { return 1; } return 0; }
int vc_update_varied_layers(O *o) { try { o->update_varied_layers(); } catch (...) { return 1; } return 0; }
int vc_qx(O *o, double *qx) { try { o->qx(qx); } catch (...) { return 1; } return 0; }
int vc_qw(O *o, double *qw) { try { o->qw(qw); } catch (...) { return 1; } return 0; }
int vc_kernel_qx(O *o, double *kernel_qx) { try { o->kernel_qx(kernel_qx); } catch (...) { return 1; } return 0; }
int vc_kernel_qw(O *o, double *kernel_qw) { try { o->kernel_qw(kernel_qw); } catch (...) { return 1; } return 0; }
int vc_solution(O *o, int solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { try { o->solution((O::solver_mask) solver, solutions, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l); } catch (...) { return 1; } return 0; }
int vc_radiance(O *o, int solver, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { try { o->radiance((O::solver_mask) solver, n_out_phis, out_phis, I_p, I_m, K_p, K_m); } catch (...) { return 1; } return 0; }
int vc_mean_radiance(O *o, int solver, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l) { try { o->mean_radiance((O::solver_mask) solver, mean_p, mean_m, mean_p_l, mean_m_l); } catch (...) { return 1; } return 0; }
int vc_flux(O *o, int solver, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) { try { o->flux((O::solver_mask) solver, flux_p, flux_m, flux_p_l, flux_m_l); } catch (...) { return 1; } return 0; }
int vc_flux_divergence(O *o, int solver, double *flux_div, double **flux_div_l) { try { o->flux_divergence((O::solver_mask) solver, flux_div, flux_div_l); } catch (...) { return 1; } return 0; }
}
