"""ctypes binding of the public XRTM C API (through csrc/shim.c)."""
import ctypes as C, os, json
import numpy as np

OPT = dict((n, 1 << i) for i, n in enumerate(
    ["CALC_DERIVS", "REVERSE_DERIVS", "DELTA_M", "N_T_TMS", "FOUR_CONV_OLD", "FOUR_CONV_NEW",
     "NO_AZIMUTHAL", "OUTPUT_AT_LEVELS", "OUTPUT_AT_TAUS", "PART_SOL_CLASSICAL", "PART_SOL_GREENS",
     "PHASE_SCALAR", "PHASE_MATRIX_GC", "PHASE_MATRIX_LC", "PSA", "QUAD_NORM_GAUS_LEG",
     "QUAD_DOUB_GAUS_LEG", "QUAD_LOBATTO", "SAVE_LEG_POLYS", "SAVE_PHASE_MATS", "SAVE_LOCAL_R_T",
     "SAVE_LAYER_R_T_S", "SAVE_TOTAL_R_T_S", "SFI", "SOURCE_SOLAR", "SOURCE_THERMAL",
     "STACK_REUSE_ADDING", "TOP_DOWN_ADDING", "BOTTOM_UP_ADDING", "UPWELLING_OUTPUT",
     "DOWNWELLING_OUTPUT", "VECTOR"]))
SOLV = dict((n, 1 << i) for i, n in enumerate(
    ["DOUB_ADD", "EIG_ADD", "EIG_BVP", "FOUR_STREAM", "MEM_BVP", "PADE_ADD", "SINGLE",
     "SIX_STREAM", "SOS", "TWO_OS", "TWO_STREAM"]))
OUT = dict(RADIANCE=1, MEAN=2, FLUX=4, DIV=8)
KERN = ["lambertian", "direct_and_diffuse", "roujean", "li_sparse", "li_dense", "ross_thin",
        "ross_thick", "hapke", "rahman", "cox_munk", "user_defined"]
KNPAR = [0, 4, 0, 2, 2, 0, 0, 3, 3, 2]
IERR = -2147483647
DERR = -1.7976931348623157e308

i32, f64, vp = C.c_int, C.c_double, C.c_void_p
PD = C.POINTER(f64)
PI = C.POINTER(i32)

def mask(names, table):
    m = 0
    for n in names:
        m |= table[n]
    return m - (1 << 32) if m >= (1 << 31) else m

def dp(a):
    return None if a is None else a.ctypes.data_as(PD)

def darr(v):
    return np.ascontiguousarray(np.array(v, dtype=np.float64))

class Lib:
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        def sig(n, res, *args):
            f = getattr(L, n); f.restype = res; f.argtypes = list(args); return f
        sig("vx_sizeof", C.c_size_t); sig("vx_new", vp); sig("vx_free", None, vp); sig("vx_uordblks", C.c_size_t)
        sig("xrtm_create", i32, vp, *([i32] * 10), PI, i32, i32)
        sig("xrtm_destroy", i32, vp)
        I1 = "options solvers max_coef n_quad n_stokes n_elem n_derivs n_layers n_kernels n_kernel_quad n_out_levels n_out_thetas n_out_thetas_2".split()
        for n in I1: sig("xrtm_get_" + n, i32, vp)
        sig("xrtm_get_kernel", i32, vp, i32)
        for n in "doub_d_tau fourier_tol lambda planet_r F_iso_top F_iso_bot F_0 theta_0 phi_0 surface_b".split():
            sig("xrtm_set_" + n, i32, vp, f64); sig("xrtm_get_" + n, f64, vp)
        sig("xrtm_set_pade_params", i32, vp, i32, i32); sig("xrtm_get_pade_params", i32, vp, PI, PI)
        sig("xrtm_set_sos_params", i32, vp, i32, f64, f64); sig("xrtm_get_sos_params", i32, vp, PI, PD, PD)
        for n in "levels_z out_taus out_thetas levels_b".split():
            sig("xrtm_set_" + n, i32, vp, PD); sig("xrtm_get_" + n, i32, vp, PD)
        sig("xrtm_set_out_levels", i32, vp, PI); sig("xrtm_get_out_levels", i32, vp, PI)
        for n in "F_iso_top F_iso_bot surface_b".split():
            sig("xrtm_set_%s_l_1" % n, i32, vp, i32, f64); sig("xrtm_set_%s_l_n" % n, i32, vp, PD)
            sig("xrtm_get_%s_l" % n, f64, vp, i32)
        sig("xrtm_set_levels_b_l_1", i32, vp, i32, PD); sig("vx_set_levels_b_l_n", i32, vp, PD, i32, i32)
        sig("xrtm_get_levels_b_l", i32, vp, i32, PD)
        sig("vx_set_coef_1", i32, vp, i32, i32, PD, i32); sig("vx_set_coef_n", i32, vp, PI, PD, i32, i32, i32)
        sig("xrtm_get_n_coef", i32, vp, i32); sig("xrtm_get_coef", f64, vp, i32, i32, i32)
        sig("vx_set_coef_l_11", i32, vp, i32, i32, PD, i32, i32); sig("vx_set_coef_l_n1", i32, vp, i32, PD, i32, i32, i32)
        sig("vx_set_coef_l_1n", i32, vp, i32, PD, i32, i32, i32); sig("vx_set_coef_l_nn", i32, vp, PD, i32, i32, i32, i32)
        sig("xrtm_get_coef_l", f64, vp, i32, i32, i32, i32)
        sig("vx_set_coef_1s", i32, vp, i32, i32, PD, i32, i32)
        for n in "omega ltau g".split():
            sig("xrtm_set_%s_1" % n, i32, vp, i32, f64); sig("xrtm_set_%s_n" % n, i32, vp, PD)
            sig("xrtm_get_%s" % n, f64, vp, i32)
            sig("xrtm_set_%s_l_11" % n, i32, vp, i32, i32, f64)
            sig("xrtm_set_%s_l_n1" % n, i32, vp, i32, PD); sig("xrtm_set_%s_l_1n" % n, i32, vp, i32, PD)
            sig("vx_set_%s_l_nn" % n, i32, vp, PD, i32, i32)
            sig("xrtm_get_%s_l" % n, f64, vp, i32, i32)
        sig("xrtm_set_kernel_ampfac", i32, vp, i32, f64); sig("xrtm_get_kernel_ampfac", f64, vp, i32)
        sig("xrtm_set_kernel_params_1", i32, vp, i32, i32, f64); sig("xrtm_set_kernel_params_n", i32, vp, i32, PD)
        sig("xrtm_get_kernel_params", f64, vp, i32, i32)
        sig("xrtm_set_kernel_ampfac_l_1", i32, vp, i32, i32, f64); sig("xrtm_set_kernel_ampfac_l_n", i32, vp, i32, PD)
        sig("xrtm_get_kernel_ampfac_l", f64, vp, i32, i32)
        sig("xrtm_set_kernel_params_l_11", i32, vp, i32, i32, i32, f64); sig("xrtm_set_kernel_params_l_1n", i32, vp, i32, i32, PD)
        sig("xrtm_set_kernel_params_l_n1", i32, vp, i32, i32, PD); sig("vx_set_kernel_params_l_nn", i32, vp, i32, PD, i32, i32)
        sig("xrtm_get_kernel_params_l", f64, vp, i32, i32, i32)
        sig("xrtm_set_kernel_func", i32, vp, i32, vp, vp); sig("vx_set_user_kernel", i32, vp, i32); sig("vx_set_user_kernel_2", i32, vp, i32)
        sig("xrtm_clear_saved", None, vp); sig("xrtm_update_varied_layers", i32, vp)
        for n in "qx qw kernel_qx kernel_qw".split(): sig("xrtm_" + n, i32, vp, PD)
        sig("xrtm_pade_params", i32, vp, i32, i32, PI, PI)
        sig("vx_local_r_t_u_w", i32, vp, i32, i32, i32, i32, *([PD] * 8))
        sig("vx_solve", i32, vp, *([i32] * 8), *([PD] * 15))

_lib = {}
def load(path):
    if path not in _lib:
        _lib[path] = Lib(path)
    return _lib[path]

class XErr(Exception):
    """The library returned an error for a call that should be accepted."""
    def __init__(self, where, rc=None):
        Exception.__init__(self, "%s -> %r" % (where, rc)); self.where = where; self.rc = rc

class X:
    """One model instance, made from the creation part of a scene dict."""
    def __init__(self, lib, s):
        self.lib = lib; L = self.L = lib.L; self.s = s
        self.h = L.vx_new()
        k = (i32 * max(1, len(s["kernels"])))(*[KERN.index(n) for n in s["kernels"]]) if s["kernels"] else (i32 * 1)()
        r = L.xrtm_create(self.h, mask(s["options"], OPT), mask(s["solvers"], SOLV), s["max_coef"], s["n_quad"],
                          s["n_stokes"], s["n_derivs"], s["n_layers"], 1, len(s["kernels"]), s.get("n_kernel_quad", 8), k,
                          s["n_out_levels"], s["n_out_thetas"])
        if r:
            L.vx_free(self.h); self.h = None
            raise XErr("xrtm_create", r)
        self.nl = s["n_out_levels"]
        self.nt = s["n_out_thetas"] if s["n_out_thetas"] else s["n_quad"]
        self.ns = s["n_stokes"]
        self.nd = s["n_derivs"] if "CALC_DERIVS" in s["options"] else 0
        self.nelem = 1 if s["n_stokes"] == 1 else 6
        self.nlay = s["n_layers"]
    def close(self):
        if self.h:
            self.L.xrtm_destroy(self.h); self.L.vx_free(self.h); self.h = None
    __enter__ = lambda self: self
    def __exit__(self, *a): self.close()
    def call(self, name, *args):
        r = getattr(self.L, name)(self.h, *args)
        if r:
            raise XErr(name, r)
    def setd(self, name, v):
        a = darr(v); self.call("xrtm_set_" + name, dp(a))
    def seti(self, name, v):
        a = (i32 * len(v))(*v); self.call("xrtm_set_" + name, a)

    # ---- apply whole scenes -------------------------------------------------
    def coef_arr(self, coef):
        a = darr(coef)
        return a.reshape(self.nelem, -1)
    def set_coef(self, i, coef):
        a = self.coef_arr(coef)
        self.call("vx_set_coef_1", i, a.shape[1], dp(a), self.nelem)
    def set_scalar(self, k, v):
        if k == "pade": self.call("xrtm_set_pade_params", *v)
        elif k == "sos": self.call("xrtm_set_sos_params", v[0], v[1], v[2])
        elif k in ("levels_z", "out_taus", "out_thetas", "levels_b"): self.setd(k, v)
        elif k == "out_levels": self.seti(k, v)
        else: self.call("xrtm_set_" + k, v)
    SC = ["doub_d_tau", "pade", "sos", "fourier_tol", "planet_r", "levels_z", "out_levels", "out_thetas",
          "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0", "levels_b", "surface_b"]
    def setup(self, s=None, derivs=True):
        s = s or self.s
        for k in self.SC:
            if k in s and s[k] is not None:
                if k in ("F_0", "theta_0", "phi_0") and "SOURCE_SOLAR" not in s["options"]: continue
                if k in ("levels_b", "surface_b") and "SOURCE_THERMAL" not in s["options"]: continue
                if k in ("planet_r", "levels_z") and "PSA" not in s["options"]: continue
                if k == "out_levels" and "OUTPUT_AT_LEVELS" not in s["options"]: continue
                if k == "out_thetas" and not s["n_out_thetas"]: continue
                if k == "doub_d_tau" and "DOUB_ADD" not in s["solvers"]: continue
                if k == "pade" and "PADE_ADD" not in s["solvers"]: continue
                if k == "sos" and "SOS" not in s["solvers"]: continue
                self.set_scalar(k, s[k])
        for i, l in enumerate(s["layers"]):
            self.set_coef(i, l["coef"])
            self.call("xrtm_set_omega_1", i, l["omega"])
            self.call("xrtm_set_ltau_1", i, l["ltau"])
        for i, k in enumerate(s["kernel"]):
            self.call("xrtm_set_kernel_ampfac", i, k["ampfac"])
            if k["params"]:
                a = darr(k["params"]); self.call("xrtm_set_kernel_params_n", i, dp(a))
            if s["kernels"][i] == "user_defined": self.call("vx_set_user_kernel_2" if s.get("func", {}).get(str(i)) else "vx_set_user_kernel", i)
        if "OUTPUT_AT_TAUS" in s["options"]:
            self.setd("out_taus", s["out_taus"])
        if self.nd:
            if derivs:
                for j, d in enumerate(s["derivs"]):
                    self.set_deriv(j, d)
            self.call("xrtm_update_varied_layers")
        return self
    def set_deriv(self, j, d):
        """d: {"ltau": [nlay], "omega": [nlay], "coef": [nlay] of None|coef table, "ampfac": [nk], "params": [nk][np],
               "F_iso_top","F_iso_bot","levels_b","surface_b"} all optional"""
        for i in range(self.nlay):
            if d.get("ltau"): self.call("xrtm_set_ltau_l_11", i, j, d["ltau"][i])
            if d.get("omega"): self.call("xrtm_set_omega_l_11", i, j, d["omega"][i])
            if d.get("coef") and d["coef"][i] is not None:
                a = self.coef_arr(d["coef"][i])
                self.call("vx_set_coef_l_11", i, j, dp(a), self.nelem, a.shape[1])
        for k in range(len(self.s["kernels"])):
            if d.get("ampfac"): self.call("xrtm_set_kernel_ampfac_l_1", k, j, d["ampfac"][k])
            if d.get("params") and d["params"][k]:
                a = darr(d["params"][k]); self.call("xrtm_set_kernel_params_l_1n", k, j, dp(a))
        for n in ("F_iso_top", "F_iso_bot"):
            if n in d: self.call("xrtm_set_%s_l_1" % n, j, d[n])
        if "SOURCE_THERMAL" in self.s["options"]:
            if "surface_b" in d: self.call("xrtm_set_surface_b_l_1", j, d["surface_b"])
            if "levels_b" in d:
                a = darr(d["levels_b"]); self.call("xrtm_set_levels_b_l_1", j, dp(a))

    # ---- solve --------------------------------------------------------------
    def phis(self, phis):
        a = darr(phis)
        if a.ndim == 1: a = np.ascontiguousarray(np.tile(a, (self.nt, 1)))
        return a
    def solve(self, solver, outputs=("RADIANCE",), phis=None, which=1, fill=np.nan):
        phis = self.phis(phis if phis is not None else self.s["phis"])
        np_ = phis.shape[1]
        nl, nt, ns, nd = self.nl, self.nt, self.ns, self.nd
        o = {}
        if "RADIANCE" in outputs or which in (2,):
            o["I_p"] = np.full((nl, nt, np_, ns), fill); o["I_m"] = np.full((nl, nt, np_, ns), fill)
            if nd:
                o["I_p_l"] = np.full((nl, nd, nt, np_, ns), fill); o["I_m_l"] = np.full((nl, nd, nt, np_, ns), fill)
        if "MEAN" in outputs:
            o["mean_p"] = np.full(nl, fill); o["mean_m"] = np.full(nl, fill)
            if nd: o["mean_p_l"] = np.full((nl, nd), fill); o["mean_m_l"] = np.full((nl, nd), fill)
        if "FLUX" in outputs:
            o["flux_p"] = np.full(nl, fill); o["flux_m"] = np.full(nl, fill)
            if nd: o["flux_p_l"] = np.full((nl, nd), fill); o["flux_m_l"] = np.full((nl, nd), fill)
        g = lambda k: dp(o.get(k))
        r = self.L.vx_solve(self.h, which, SOLV[solver], mask(outputs, OUT), nl, nt, np_, ns, nd, dp(phis),
                            g("I_p"), g("I_m"), g("I_p_l"), g("I_m_l"), g("mean_p"), g("mean_m"), g("mean_p_l"), g("mean_m_l"),
                            g("flux_p"), g("flux_m"), g("flux_p_l"), g("flux_m_l"), None, None)
        if r:
            raise XErr("solve:%s" % solver, r)
        return o

def run(lib, s, solver=None, outputs=("RADIANCE",), **kw):
    with X(lib, s) as x:
        x.setup()
        return x.solve(solver or s["solvers"][0], outputs, **kw)
