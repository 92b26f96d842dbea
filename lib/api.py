"""A model of the setters and getters of one XRTM instance, and a generator of call histories.

An operation is a JSON list.  Model.expect(op) gives the documented outcome of a
call from the rules in the user guide: an error leaves the held values as they
were, an accepted call replaces exactly what it names."""
import math, ctypes as C, copy
import gen
from gen import rf
from xr import KERN, KNPAR, IERR, DERR, darr, dp, i32, f64, OPT, SOLV, mask

NPAR = dict(zip(KERN, KNPAR + [4]))
END_ONLY = {"DOUB_ADD", "EIG_ADD", "PADE_ADD", "SOS", "TWO_OS"}        # output at the top and the bottom only
SCAL = ["doub_d_tau", "fourier_tol", "lambda", "planet_r", "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0", "surface_b"]
NEEDS = dict(planet_r="PSA", levels_z="PSA", F_0="SOURCE_SOLAR", theta_0="SOURCE_SOLAR", levels_b="SOURCE_THERMAL",
             surface_b="SOURCE_THERMAL", out_levels="OUTPUT_AT_LEVELS", out_taus="OUTPUT_AT_TAUS")
NEEDS["lambda"] = "SOURCE_THERMAL"
LS = ["F_iso_top", "F_iso_bot", "surface_b"]
GUARD = -7.125e77

class Model:
    def __init__(self, s):
        self.s = s; self.o = set(s["options"]); self.sv = set(s["solvers"])
        self.nl, self.nk = s["n_layers"], len(s["kernels"])
        self.nd = s["n_derivs"] if "CALC_DERIVS" in self.o else 0
        self.ne = 1 if s["n_stokes"] == 1 else 6
        self.mc = s["max_coef"]
        self.v = {}                                   # scalars and level arrays
        self.coef = [None] * self.nl; self.lay = dict(omega=[None] * self.nl, ltau=[None] * self.nl)
        nd, nl = self.nd, self.nl
        self.lay_l = dict((k, [[0.] * nd for _ in range(nl)]) for k in ("omega", "ltau"))
        self.coef_l = [[[[0.] * self.mc for _ in range(self.ne)] for _ in range(nd)] for _ in range(nl)]
        self.sl = dict((k, [0.] * nd) for k in LS)
        self.lbl = [[0.] * nd for _ in range(nl + 1)]
        self.amp = [None] * self.nk; self.par = [[None] * NPAR[k] for k in s["kernels"]]; self.func = [False] * self.nk
        self.amp_l = [[0.] * nd for _ in range(self.nk)]
        self.par_l = [[[0.] * NPAR[k] for _ in range(nd)] for k in s["kernels"]]
        self.locked = False                           # all inputs seen once: getters no longer depend on "set"
        self.updated = not ("CALC_DERIVS" in self.o)

    def n_coef(self, i): return self.coef[i][0] if self.coef[i] else self.mc
    # ---- which call is valid
    def valid_scalar(self, k, v):
        if k in NEEDS and NEEDS[k] not in self.o: return False
        if k in ("doub_d_tau", "planet_r", "lambda"): return v > 0
        if k in ("fourier_tol", "F_iso_top", "F_iso_bot", "F_0", "surface_b"): return v >= 0
        if k == "theta_0": return 0 <= v < 90
        return True
    def valid_array(self, k, a):
        s = self.s
        if k == "out_thetas": return s["n_out_thetas"] > 0 and all(0 <= t < 90 for t in a)
        if NEEDS[k] not in self.o: return False
        if k == "levels_z": return all(b <= a_ for a_, b in zip(a, a[1:]))
        if k in ("levels_b", "out_taus"): return all(t >= 0 for t in a)
        if k == "out_levels":
            if a[0] < 0 or any(t > self.nl for t in a) or any(y <= x for x, y in zip(a, a[1:])): return False
            if self.sv & END_ONLY and any(t not in (0, self.nl) for t in a): return False
            if "TOP_DOWN_ADDING" in self.o and a[0] != self.nl: return False
            if "BOTTOM_UP_ADDING" in self.o and a[0] != 0: return False
            return True
    def _i(self, i, n): return 0 <= i < n
    def ok(self, op):
        k = op[0]; D = "CALC_DERIVS" in self.o; nl, nd, nk = self.nl, self.nd, self.nk
        if k == "sc": return self.valid_scalar(op[1], op[2])
        if k == "ar": return self.valid_array(op[1], op[2])
        if k == "pade": return True
        if k == "sos": return op[1] > 0 and op[2] > 0 and op[3] >= 0
        if k in ("sl1", "sln"): return D and (op[1] != "surface_b" or "SOURCE_THERMAL" in self.o) and (k == "sln" or self._i(op[2], nd))
        if k == "lbl1": return D and "SOURCE_THERMAL" in self.o and self._i(op[1], nd)
        if k == "lbln": return D and "SOURCE_THERMAL" in self.o
        good = dict(omega=lambda x: 0 <= x <= 1, ltau=lambda x: x > 0)
        if k == "lay1": return op[1] != "g" and self._i(op[2], nl) and good[op[1]](op[3])
        if k == "layn": return op[1] != "g" and all(good[op[1]](x) for x in op[2])
        if k == "lay_l":
            f = op[2]
            return D and op[1] != "g" and (f not in ("11", "1n") or self._i(op[3], nl)) and (f not in ("11", "n1") or self._i(op[4], nd))
        def c_ok(n, t): return (n <= 1 or abs(1 - t[0][0]) <= 2.3e-16) and n <= self.mc
        if k == "coef1":
            n = self.mc if op[2] < 0 else op[2]
            return self._i(op[1], nl) and c_ok(n, op[3])
        if k == "coefn": return all((n >= 0 and c_ok(n, t)) for n, t in zip(op[1] or [self.mc] * nl, op[2]))
        if k == "coef_l":
            f = op[1]
            return D and (f not in ("11", "1n") or self._i(op[2], nl)) and (f not in ("11", "n1") or self._i(op[3], nd))
        if k == "amp": return self._i(op[1], nk) and 0 <= op[2] <= 1
        if k == "par1": return self._i(op[1], nk) and self._i(op[2], len(self.par[op[1]]))
        if k == "parn": return self._i(op[1], nk)
        if k == "amp_l1": return D and self._i(op[1], nk) and self._i(op[2], nd)
        if k == "amp_ln": return D and self._i(op[1], nk)
        if k == "par_l":
            f = op[1]
            return D and self._i(op[2], nk) and (f not in ("11", "1n") or self._i(op[3], nd)) and (f not in ("11", "n1") or self._i(op[4], len(self.par[op[2]])))
        if k == "func": return self._i(op[1], nk) and self.s["kernels"][op[1]] == "user_defined"
        if k == "update": return D and (self.locked or self.complete())
        if k == "clear": return True
        if k == "solve": return self.solve_ok(op)
        raise KeyError(k)
    def complete(self):
        o, v, s = self.o, self.v, self.s
        req = ["fourier_tol", "F_iso_top", "F_iso_bot"]
        if "DOUB_ADD" in self.sv: req.append("doub_d_tau")
        if "PADE_ADD" in self.sv: req.append("pade")
        if "SOS" in self.sv: req.append("sos")
        if "PSA" in o: req += ["planet_r", "levels_z"]
        req.append("out_levels" if "OUTPUT_AT_LEVELS" in o else "out_taus")
        if s["n_out_thetas"]: req.append("out_thetas")
        if "SOURCE_SOLAR" in o: req += ["F_0", "theta_0", "phi_0"]
        if "SOURCE_THERMAL" in o: req += ["levels_b", "surface_b"]
        return (all(k in v for k in req) and all(c is not None for c in self.coef) and
                all(x is not None for k in self.lay for x in self.lay[k]) and all(x is not None for x in self.amp) and
                all(x is not None for p in self.par for x in p) and
                all(f for f, k in zip(self.func, s["kernels"]) if k == "user_defined"))
    def solve_ok(self, op):
        _, sv, outs, nphi = op
        if sv not in self.sv: return False
        if not outs: return False
        if "RADIANCE" in outs and nphi <= 0: return False
        if sv == "SINGLE" and set(outs) & {"MEAN", "FLUX"}: return False
        if not (self.locked or self.complete()): return False
        self.locked = True                      # inputs are checked before the rest
        if "OUTPUT_AT_TAUS" in self.o:
            t = self.v["out_taus"]; tot = 0.
            for x in self.lay["ltau"]: tot += x
            if any(y <= x for x, y in zip(t, t[1:])) or any(x > tot for x in t): return False
        return self.updated
    # ---- an accepted call
    def apply(self, op):
        k = op[0]; nl, nd = self.nl, self.nd
        if k == "sc": self.v[op[1]] = op[2]
        elif k == "ar": self.v[op[1]] = list(op[2])
        elif k in ("pade", "sos"): self.v[k] = list(op[1:])
        elif k == "sl1": self.sl[op[1]][op[2]] = op[3]
        elif k == "sln": self.sl[op[1]] = list(op[2])
        elif k == "lbl1":
            for i in range(nl + 1): self.lbl[i][op[1]] = op[2][i]
        elif k == "lbln": self.lbl = [list(x) for x in op[1]]
        elif k == "lay1": self.lay[op[1]][op[2]] = op[3]
        elif k == "layn": self.lay[op[1]] = list(op[2])
        elif k == "lay_l":
            _, q, f, i, j, w = op; t = self.lay_l[q]
            if f == "11": t[i][j] = w
            elif f == "n1":
                for a in range(nl): t[a][j] = w[a]
            elif f == "1n": t[i] = list(w)
            else: self.lay_l[q] = [list(x) for x in w]
        elif k == "coef1":
            n = self.mc if op[2] < 0 else op[2]
            self.coef[op[1]] = (n, [list(e[:n]) for e in op[3]])
        elif k == "coefn":
            for i in range(nl):
                n = op[1][i] if op[1] else self.mc
                self.coef[i] = (n, [list(e[:n]) for e in op[2][i]])
        elif k == "coef_l":
            _, f, i, j, w = op
            idx = {"11": [(i, j, w)], "n1": [(a, j, w[a]) for a in range(nl)] if f == "n1" else [],
                   "1n": [(i, b, w[b]) for b in range(nd)] if f == "1n" else [],
                   "nn": [(a, b, w[a][b]) for a in range(nl) for b in range(nd)] if f == "nn" else []}[f]
            for a, b, t in idx:
                n = self.n_coef(a)
                for e in range(self.ne):
                    for l in range(self.mc): self.coef_l[a][b][e][l] = t[e][l] if l < n else None
        elif k == "amp": self.amp[op[1]] = op[2]
        elif k == "par1": self.par[op[1]][op[2]] = op[3]
        elif k == "parn": self.par[op[1]] = list(op[2][:len(self.par[op[1]])])
        elif k == "amp_l1": self.amp_l[op[1]][op[2]] = op[3]
        elif k == "amp_ln": self.amp_l[op[1]] = list(op[2][:nd])
        elif k == "par_l":
            _, f, q, j, m, w = op; t = self.par_l[q]; np_ = len(self.par[q])
            if f == "11": t[j][m] = w
            elif f == "1n": t[j] = list(w[:np_])
            elif f == "n1":
                for b in range(nd): t[b][m] = w[b]
            else: self.par_l[q] = [list(x[:np_]) for x in w]
        elif k == "func": self.func[op[1]] = True
        elif k == "update": self.updated = True; self.locked = True
    # ---- getters: value, or None for an error, or "?" when not stated
    def get(self, g):
        k = g[0]; o = self.o; nl, nd, nk = self.nl, self.nd, self.nk
        def held(v): return v if v is not None else (None if not self.locked else "?")
        if k in ("sc", "ar"):
            n = g[1]
            if n in NEEDS and NEEDS[n] not in o: return None
            if n == "doub_d_tau" and "DOUB_ADD" not in self.sv: return None
            if n == "out_thetas" and not self.s["n_out_thetas"]: return None
            return held(self.v.get(n))
        if k == "pade": return held(self.v.get(k)) if "PADE_ADD" in self.sv else None
        if k == "sos": return held(self.v.get(k)) if "SOS" in self.sv else None
        if k == "sl": return self.sl[g[1]][g[2]] if (g[1] != "surface_b" or "SOURCE_THERMAL" in o) and self._i(g[2], nd) else None
        if k == "lbl": return [x[g[1]] for x in self.lbl] if "SOURCE_THERMAL" in o and self._i(g[1], nd) else None
        if k == "lay":
            if g[1] == "g" or not self._i(g[2], nl): return None
            v = self.lay[g[1]][g[2]]
            return held(v)
        if k == "lay_l":
            if g[1] == "g" or not self._i(g[2], nl) or not self._i(g[3], nd): return None
            return self.lay_l[g[1]][g[2]][g[3]]
        if k == "n_coef":
            if not self._i(g[1], nl): return None
            return held(self.coef[g[1]][0] if self.coef[g[1]] else None)
        if k == "coef":
            _, i, e, l = g
            if not self._i(i, nl): return None
            if not self.coef[i]: return None if not self.locked else "?"
            if not self._i(e, self.ne) or not self._i(l, self.n_coef(i)): return None
            return self.coef[i][1][e][l]
        if k == "coef_l":
            _, i, j, e, l = g
            if not (self._i(i, nl) and self._i(j, nd) and self._i(e, self.ne)): return None
            if not self._i(l, self.n_coef(i)): return None
            v = self.coef_l[i][j][e][l]
            return v if v is not None else "?"
        if k == "amp": return held(self.amp[g[1]]) if self._i(g[1], nk) else None
        if k == "par":
            if not self._i(g[1], nk) or not self._i(g[2], len(self.par[g[1]])): return None
            return held(self.par[g[1]][g[2]])
        if k == "amp_l": return self.amp_l[g[1]][g[2]] if self._i(g[1], nk) and self._i(g[2], nd) else None
        if k == "par_l":
            if not self._i(g[1], nk) or not self._i(g[2], nd) or not self._i(g[3], len(self.par[g[1]])): return None
            return self.par_l[g[1]][g[2]][g[3]]
        if k == "kernel": return KERN.index(self.s["kernels"][g[1]]) if self._i(g[1], nk) else None
        raise KeyError(k)

# ---------------------------------------------------------------- calling the library
def call(x, m, op):
    """makes the call; returns its result code"""
    L, h = x.L, x.h; k = op[0]; nl, nd = m.nl, m.nd; ne, mc = m.ne, m.mc
    pad = lambda a, n: darr(list(a) + [0.] * max(0, n - len(a)))
    flat = lambda t, n2: darr([w for r_ in t for w in (list(r_) + [0.] * max(0, n2 - len(r_)))] or [0.])
    if k == "sc": return getattr(L, "xrtm_set_" + op[1])(h, op[2])
    if k == "ar":
        if op[1] == "out_levels": return L.xrtm_set_out_levels(h, (i32 * max(1, len(op[2])))(*op[2]))
        return getattr(L, "xrtm_set_" + op[1])(h, dp(pad(op[2], 1)))
    if k == "pade": return L.xrtm_set_pade_params(h, *op[1:])
    if k == "sos": return L.xrtm_set_sos_params(h, *op[1:])
    if k == "sl1": return getattr(L, "xrtm_set_%s_l_1" % op[1])(h, op[2], op[3])
    if k == "sln": return getattr(L, "xrtm_set_%s_l_n" % op[1])(h, dp(pad(op[2], 1)))
    if k == "lbl1": return L.xrtm_set_levels_b_l_1(h, op[1], dp(darr(op[2])))
    if k == "lbln": return L.vx_set_levels_b_l_n(h, dp(flat(op[1], max(1, nd))), nl + 1, max(1, nd))
    if k == "lay1": return getattr(L, "xrtm_set_%s_1" % op[1])(h, op[2], op[3])
    if k == "layn": return getattr(L, "xrtm_set_%s_n" % op[1])(h, dp(darr(op[2])))
    if k == "lay_l":
        _, q, f, i, j, w = op
        if f == "11": return getattr(L, "xrtm_set_%s_l_11" % q)(h, i, j, w)
        if f == "n1": return getattr(L, "xrtm_set_%s_l_n1" % q)(h, j, dp(darr(w)))
        if f == "1n": return getattr(L, "xrtm_set_%s_l_1n" % q)(h, i, dp(pad(w, 1)))
        return getattr(L, "vx_set_%s_l_nn" % q)(h, dp(flat(w, max(1, nd))), nl, max(1, nd))
    tab = lambda t: [list(e) + [0.] * max(0, mc - len(e)) for e in t]
    cf = lambda ts: darr([w for t in ts for e in tab(t) for w in e] or [0.])
    if k == "coef1": return L.vx_set_coef_1s(h, op[1], op[2], dp(cf([op[3]])), ne, mc)
    if k == "coefn": return L.vx_set_coef_n(h, (i32 * nl)(*op[1]) if op[1] else None, dp(cf(op[2])), nl, ne, mc)
    if k == "coef_l":
        _, f, i, j, w = op
        if f == "11": return L.vx_set_coef_l_11(h, i, j, dp(cf([w])), ne, mc)
        if f == "n1": return L.vx_set_coef_l_n1(h, j, dp(cf(w)), nl, ne, mc)
        if f == "1n": return L.vx_set_coef_l_1n(h, i, dp(cf(w)), len(w), ne, mc)
        return L.vx_set_coef_l_nn(h, dp(cf([t for r_ in w for t in r_])), nl, max(1, nd), ne, mc)
    if k == "amp": return L.xrtm_set_kernel_ampfac(h, op[1], op[2])
    if k == "par1": return L.xrtm_set_kernel_params_1(h, op[1], op[2], op[3])
    if k == "parn": return L.xrtm_set_kernel_params_n(h, op[1], dp(pad(op[2], 4)))
    if k == "amp_l1": return L.xrtm_set_kernel_ampfac_l_1(h, op[1], op[2], op[3])
    if k == "amp_ln": return L.xrtm_set_kernel_ampfac_l_n(h, op[1], dp(pad(op[2], 1)))
    if k == "par_l":
        _, f, q, j, p, w = op
        if f == "11": return L.xrtm_set_kernel_params_l_11(h, q, j, p, w)
        if f == "1n": return L.xrtm_set_kernel_params_l_1n(h, q, j, dp(pad(w, 4)))
        if f == "n1": return L.xrtm_set_kernel_params_l_n1(h, q, p, dp(pad(w, 1)))
        return L.vx_set_kernel_params_l_nn(h, q, dp(flat(w, 4)), max(1, nd), 4)
    if k == "func": return L.vx_set_user_kernel(h, op[1])
    if k == "update": return L.xrtm_update_varied_layers(h)
    if k == "clear": L.xrtm_clear_saved(h); return 0
    if k == "solve":
        return solve(x, m, op)[0]
    raise KeyError(k)

def solve(x, m, op):
    import numpy as np
    _, sv, outs, nphi = op; s = m.s
    L, h = x.L, x.h
    nt = s["n_out_thetas"] or s["n_quad"]; nl, nd, ns = s["n_out_levels"], m.nd, s["n_stokes"]
    np_ = max(0, nphi)
    z = lambda *sh: np.zeros(sh)
    a = [z(nl, nt, max(1, np_), ns), z(nl, nt, max(1, np_), ns), z(nl, max(1, nd), nt, max(1, np_), ns), z(nl, max(1, nd), nt, max(1, np_), ns),
         z(nl), z(nl), z(nl, max(1, nd)), z(nl, max(1, nd)), z(nl), z(nl), z(nl, max(1, nd)), z(nl, max(1, nd))]
    phi = np.ascontiguousarray(np.tile(np.arange(max(1, np_)) * 37.5 % 360, (nt, 1)))
    from xr import OUT
    msk = mask(outs, OUT) if outs else 0
    r = L.vx_solve(h, 1, SOLV[sv], msk, nl, nt, max(1, np_) if nphi > 0 else nphi, ns, nd, dp(phi), *[dp(q) for q in a], None, None)
    return r, a

def getv(x, m, g):
    """the getter's result: value, or None for its error result"""
    L, h = x.L, x.h; k = g[0]; nl = m.nl
    D = lambda v: None if v == DERR else v
    if k == "sc": return D(getattr(L, "xrtm_get_" + g[1])(h))
    def arr(f, n, *a):
        b = darr([GUARD] * (n + 1))
        r = f(h, *a, dp(b))
        if r:
            if any(v != GUARD for v in b): raise AssertionError("a refused getter wrote to its output")
            if r not in (IERR, DERR): raise AssertionError("error result %r" % r)
            return None
        if b[n] != GUARD: raise AssertionError("getter wrote past its array")
        return [float(v) for v in b[:n]]
    if k == "ar":
        n = dict(levels_z=nl + 1, levels_b=nl + 1, out_taus=m.s["n_out_levels"], out_thetas=m.s["n_out_thetas"]).get(g[1])
        if g[1] == "out_levels":
            n = m.s["n_out_levels"]; b = (i32 * (n + 1))(*([-99] * (n + 1)))
            if L.xrtm_get_out_levels(h, b): return None
            if b[n] != -99: raise AssertionError("getter wrote past its array")
            return list(b[:n])
        return arr(getattr(L, "xrtm_get_" + g[1]), n)
    if k == "pade":
        a, b = i32(-77), i32(-77)
        return None if L.xrtm_get_pade_params(h, C.byref(a), C.byref(b)) else [a.value, b.value]
    if k == "sos":
        a, b, c = i32(-77), f64(), f64()
        return None if L.xrtm_get_sos_params(h, C.byref(a), C.byref(b), C.byref(c)) else [a.value, b.value, c.value]
    if k == "sl": return D(getattr(L, "xrtm_get_%s_l" % g[1])(h, g[2]))
    if k == "lbl": return arr(L.xrtm_get_levels_b_l, nl + 1, g[1])
    if k == "lay": return D(getattr(L, "xrtm_get_" + g[1])(h, g[2]))
    if k == "lay_l": return D(getattr(L, "xrtm_get_%s_l" % g[1])(h, g[2], g[3]))
    if k == "n_coef":
        v = L.xrtm_get_n_coef(h, g[1]); return None if v == IERR else v
    if k == "coef": return D(L.xrtm_get_coef(h, *g[1:]))
    if k == "coef_l": return D(L.xrtm_get_coef_l(h, *g[1:]))
    if k == "amp": return D(L.xrtm_get_kernel_ampfac(h, g[1]))
    if k == "par": return D(L.xrtm_get_kernel_params(h, g[1], g[2]))
    if k == "amp_l": return D(L.xrtm_get_kernel_ampfac_l(h, g[1], g[2]))
    if k == "par_l": return D(L.xrtm_get_kernel_params_l(h, *g[1:]))
    if k == "kernel":
        v = L.xrtm_get_kernel(h, g[1]); return None if v == IERR else v
    raise KeyError(k)

def all_gets(m):
    nl, nd, nk = m.nl, m.nd, m.nk
    for k in SCAL: yield ["sc", k]
    for k in ("levels_z", "levels_b", "out_taus", "out_thetas", "out_levels"): yield ["ar", k]
    yield ["pade"]; yield ["sos"]
    for k in LS:
        for j in range(nd): yield ["sl", k, j]
    for j in range(nd): yield ["lbl", j]
    for i in range(nl):
        for k in ("omega", "ltau"):
            yield ["lay", k, i]
            for j in range(nd): yield ["lay_l", k, i, j]
        yield ["n_coef", i]
        for e in range(m.ne):
            for l in range(m.n_coef(i)):
                yield ["coef", i, e, l]
                for j in range(nd): yield ["coef_l", i, j, e, l]
    for q in range(nk):
        yield ["amp", q]; yield ["kernel", q]
        for p in range(len(m.par[q])):
            yield ["par", q, p]
            for j in range(nd): yield ["par_l", q, j, p]
        for j in range(nd): yield ["amp_l", q, j]

# ---------------------------------------------------------------- generator
def history(r, s, n, bad=.2):
    """n operations; setters in all their forms, getters, updates and solutions; a share of them invalid"""
    m = Model(s); nl, nd, nk, mc, ne = m.nl, m.nd, m.nk, m.mc, m.ne
    D = max(1, nd)
    v1 = lambda: rf(r.uniform(-1, 1), 4)
    def ix(k): return r.choice([-1, k, k + 1, k + 5, -2147483648, 2147483647, k * 7 + 3]) if r.random() < bad * .6 or k <= 0 else r.randrange(k)
    def maybe(good, wrong): return wrong() if r.random() < bad else good()
    def table(n):
        if ne > 1:
            t = gen.phase_vector(r, max(3, mc)); t = [e[:mc] for e in t]
        else: t = [gen.phase_scalar(r, mc)]
        t = [list(e) + [0.] * (mc - len(e)) for e in t]
        if n > 1 and r.random() < bad * .5: t[0][0] = r.choice([1.0000001, .99, 0., -1., 2.])
        return t
    def ctab():
        t = [[v1() for _ in range(mc)] for _ in range(ne)]; t[0][0] = 0.       # the normalization does not vary
        return t
    def nco(): return r.choice([mc, mc, r.randint(1, mc), r.randint(1, mc), maybe(lambda: mc, lambda: r.choice([mc + 1, mc + 7, -1, 1 << 30]))])
    sv = lambda k: {"doub_d_tau": lambda: maybe(lambda: gen.logu(r, 1e-7, 1e-3), lambda: r.choice([0., -1e-6, -1.])),
          "fourier_tol": lambda: maybe(lambda: r.choice([0., 1e-4]), lambda: r.choice([-1e-9, -1.])),
          "lambda": lambda: maybe(lambda: rf(r.uniform(.1, 20), 4), lambda: r.choice([0., -1.])),
          "planet_r": lambda: maybe(lambda: rf(r.uniform(1000, 70000), 5), lambda: r.choice([0., -6371.])),
          "F_iso_top": lambda: maybe(lambda: r.choice([0., rf(r.uniform(0, 2), 4)]), lambda: -rf(r.uniform(1e-6, 1), 3)),
          "F_iso_bot": lambda: maybe(lambda: r.choice([0., rf(r.uniform(0, 2), 4)]), lambda: -rf(r.uniform(1e-6, 1), 3)),
          "F_0": lambda: maybe(lambda: rf(r.uniform(0, 3), 4), lambda: -rf(r.uniform(1e-6, 1), 3)),
          "theta_0": lambda: maybe(lambda: r.choice([0., rf(r.uniform(0, 89.9), 5)]), lambda: r.choice([90., -1e-3, 90.0001, 180.])),
          "phi_0": lambda: rf(r.uniform(-360, 720), 5),
          "surface_b": lambda: maybe(lambda: rf(r.uniform(0, 2), 4), lambda: -rf(r.uniform(1e-6, 1), 3))}[k]()
    def av(k):
        no, nt = s["n_out_levels"], s["n_out_thetas"]
        if k == "levels_z":
            z = [0.]
            for _ in range(nl): z.append(rf(z[-1] + r.uniform(.1, 20), 6))
            z = z[::-1]
            if r.random() < bad:
                i = r.randrange(nl); z[i], z[i + 1] = z[i + 1], z[i]
            return z
        if k == "levels_b":
            b = [rf(r.uniform(0, 2), 4) for _ in range(nl + 1)]
            if r.random() < bad: b[r.randrange(nl + 1)] = -rf(r.uniform(1e-6, 1), 3)
            return b
        if k == "out_thetas":
            t = gen.thetas(r, max(1, nt))
            if r.random() < bad: t[r.randrange(len(t))] = r.choice([90., -.01, 120.])
            return t
        if k == "out_taus":
            tt = sum(x or 0. for x in m.lay["ltau"]) or 1.
            t = set()
            while len(t) < no: t.add(r.choice([0., rf(r.uniform(0, tt * .999), 8)]))
            t = sorted(t)
            q = r.random()
            if q < bad * .5: t[r.randrange(no)] = -rf(r.uniform(1e-6, 1), 3)
            elif q < bad * .8: t[-1] = rf(tt * r.uniform(1.01, 3), 6)
            elif q < bad: r.shuffle(t)
            return t
        if set(s["solvers"]) & END_ONLY:
            ends = [0, nl]; l = ends[:no] if no < 3 and r.random() < .5 else ends[-no:]
        else: l = sorted(r.sample(range(nl + 1), min(no, nl + 1)))
        if r.random() < bad: l[r.randrange(len(l))] = r.choice([-1, nl + 1, r.randint(0, nl), 1 << 30])
        if "TOP_DOWN_ADDING" in m.o and r.random() > bad: l = [nl]
        if "BOTTOM_UP_ADDING" in m.o and r.random() > bad: l = [0]
        return l
    def one(k):
        if k == "sc": q = r.choice(SCAL); return ["sc", q, sv(q)]
        if k == "ar":
            q = r.choice(["levels_z", "levels_b", "out_taus", "out_thetas", "out_levels"])
            return ["ar", q, av(q)]
        if k == "pade": return ["pade", r.randint(0, 12), r.randint(2, 7)]
        if k == "sos": return ["sos", maybe(lambda: r.randint(1, 300), lambda: r.choice([0, -1])), maybe(lambda: gen.logu(r, .005, .1), lambda: r.choice([0., -1.])), maybe(lambda: r.choice([0., 1e-8]), lambda: -1e-8)]
        if k == "sl1": return ["sl1", r.choice(LS), ix(nd), v1()]
        if k == "sln": return ["sln", r.choice(LS), [v1() for _ in range(D)]]
        if k == "lbl1": return ["lbl1", ix(nd), [v1() for _ in range(nl + 1)]]
        if k == "lbln": return ["lbln", [[v1() for _ in range(D)] for _ in range(nl + 1)]]
        zero = .01 if "SOURCE_THERMAL" in m.o else 0.        # a thermal source needs scattering ("not yet" in the library)
        lv = dict(omega=lambda: maybe(lambda: r.choice([zero, 1., .999995, rf(r.random(), 5), rf(r.random(), 5)]), lambda: r.choice([-1e-9, 1.0000001, 2.])),
                  ltau=lambda: maybe(lambda: gen.logu(r, 1e-3, 5), lambda: r.choice([0., -.1])), g=lambda: rf(r.uniform(-1, 1), 3))
        q = r.choice(["omega", "ltau", "omega", "ltau", "omega", "ltau", "g"])
        if k == "lay1": return ["lay1", q, ix(nl), lv[q]()]
        if k == "layn":
            w = [lv[q]() for _ in range(nl)]
            return ["layn", q, w]
        if k == "lay_l":
            f = r.choice(["11", "n1", "1n", "nn"])
            w = {"11": v1, "n1": lambda: [v1() for _ in range(nl)], "1n": lambda: [v1() for _ in range(D)], "nn": lambda: [[v1() for _ in range(D)] for _ in range(nl)]}[f]()
            return ["lay_l", q, f, ix(nl), ix(nd), w]
        if k == "coef1": n = nco(); return ["coef1", ix(nl), n, table(n if n >= 0 else mc)]
        if k == "coefn":
            ns = None if r.random() < .15 else [nco() for _ in range(nl)]
            return ["coefn", ns, [table(mc if not ns else ns[i]) for i in range(nl)]]
        if k == "coef_l":
            f = r.choice(["11", "n1", "1n", "nn"])
            w = {"11": ctab, "n1": lambda: [ctab() for _ in range(nl)], "1n": lambda: [ctab() for _ in range(D)], "nn": lambda: [[ctab() for _ in range(D)] for _ in range(nl)]}[f]()
            return ["coef_l", f, ix(nl), ix(nd), w]
        if k == "amp": return ["amp", ix(nk), maybe(lambda: r.choice([0., 1. if nk == 1 else .5, rf(r.random() / max(1, nk), 4), rf(r.random() / max(1, nk), 4)]), lambda: r.choice([-1e-9, 1.0000001]))]
        i = ix(nk); np_ = len(m.par[i]) if 0 <= i < nk else 2
        if k == "par1":
            a = ix(np_); p = gen.brdf_kernel(r, s["kernels"][i])["params"] if 0 <= i < nk else []
            return ["par1", i, a, p[a] if 0 <= a < len(p) else rf(r.uniform(.1, .9), 4)]
        if k == "parn":
            p = gen.brdf_kernel(r, s["kernels"][i])["params"] if 0 <= i < nk else [.5] * 4
            return ["parn", i, p]
        if k == "amp_l1": return ["amp_l1", i, ix(nd), v1()]
        if k == "amp_ln": return ["amp_ln", i, [v1() for _ in range(D)]]
        if k == "par_l":
            f = r.choice(["11", "n1", "1n", "nn"])
            w = {"11": v1, "1n": lambda: [v1() for _ in range(np_)], "n1": lambda: [v1() for _ in range(D)], "nn": lambda: [[v1() for _ in range(np_)] for _ in range(D)]}[f]()
            return ["par_l", f, i, ix(nd), ix(np_), w]
        if k == "func": return ["func", i]
        if k == "update" or k == "clear": return [k]
        if k == "solve":
            q = r.choice(s["solvers"]) if r.random() > bad * .3 else r.choice(["EIG_ADD", "EIG_BVP", "SOS", "PADE_ADD", "SINGLE"])
            o = r.choice([["RADIANCE"], ["RADIANCE"], ["RADIANCE", "MEAN", "FLUX"], ["FLUX"], ["MEAN"]]) if r.random() > bad * .2 else []
            if q == "SINGLE" and r.random() > bad: o = ["RADIANCE"]
            return ["solve", q, o, r.choice([1, 1, 2, 3]) if r.random() > bad * .3 else r.choice([0, -1])]
        if k == "get":
            g = r.choice(["sc", "ar", "pade", "sos", "sl", "lbl", "lay", "lay_l", "n_coef", "coef", "coef", "coef_l", "coef_l", "amp", "par", "amp_l", "par_l", "kernel"])
            i = ix(nk); np_ = len(m.par[i]) if 0 <= i < nk else 2
            return ["get", {"sc": lambda: [g, r.choice(SCAL)], "ar": lambda: [g, r.choice(["levels_z", "levels_b", "out_taus", "out_thetas", "out_levels"])],
                    "pade": lambda: [g], "sos": lambda: [g], "sl": lambda: [g, r.choice(LS), ix(nd)], "lbl": lambda: [g, ix(nd)],
                    "lay": lambda: [g, q2(), ix(nl)], "lay_l": lambda: [g, q2(), ix(nl), ix(nd)], "n_coef": lambda: [g, ix(nl)],
                    "coef": lambda: [g, ix(nl), ix(ne), ix(mc)], "coef_l": lambda: [g, ix(nl), ix(nd), ix(ne), ix(mc)],
                    "amp": lambda: [g, i], "par": lambda: [g, i, ix(np_)], "amp_l": lambda: [g, i, ix(nd)], "par_l": lambda: [g, i, ix(nd), ix(np_)],
                    "kernel": lambda: [g, i]}[g]()]
    q2 = lambda: r.choice(["omega", "ltau", "omega", "ltau", "g"])
    kinds = ["sc"] * 8 + ["ar"] * 6 + ["pade", "sos", "lay1", "lay1", "lay1", "layn", "layn", "coef1", "coef1", "coefn", "get", "get", "get", "get", "get", "clear"]
    if nd: kinds += ["sl1", "sln", "lbl1", "lbln", "lay_l", "lay_l", "lay_l", "coef_l", "coef_l", "update"]
    else: kinds += [r.choice(["sl1", "sln", "lbl1", "lbln", "lay_l", "coef_l", "update"])]
    if nk: kinds += ["amp", "amp", "par1", "parn", "func"]
    else: kinds += [r.choice(["amp", "par1", "parn", "func"])]
    if nk and nd: kinds += ["amp_l1", "amp_ln", "par_l", "par_l"]
    else: kinds += [r.choice(["amp_l1", "amp_ln", "par_l"])]
    kinds += ["solve"]
    ops = []
    def put(o):
        ops.append(o)
        if o[0] != "get" and m.ok(o): m.apply(o)
    for _ in range(n): put(one(r.choice(kinds)))
    if r.random() < .75:
        # give what is missing, so that solutions happen too
        sc = dict(s)
        need = []
        for k in SCAL: need.append(["sc", k, s.get(k, 1.)])
        for k in ("levels_z", "levels_b", "out_thetas", "out_levels"):
            if k in s and s[k] is not None: need.append(["ar", k, s[k]])
        need += [["pade"] + list(s["pade"]), ["sos"] + list(s["sos"])]
        for i in range(nl):
            l = s["layers"][i]; c = [list(e) + [0.] * (mc - len(e)) for e in l["coef"]]
            need += [["lay1", "omega", i, l["omega"]], ["lay1", "ltau", i, l["ltau"]], ["coef1", i, len(l["coef"][0]), c]]
        if "out_taus" in s: need.append(["ar", "out_taus", s["out_taus"]])
        for i, k in enumerate(s["kernel"]):
            need += [["amp", i, k["ampfac"]], ["parn", i, k["params"]], ["func", i]]
        skip = r.randrange(len(need)) if r.random() < .25 else -1
        tail = [need[i] for i in range(len(need)) if i != skip]
        cut = tail.index(["ar", "out_taus", s["out_taus"]]) if "out_taus" in s and ["ar", "out_taus", s["out_taus"]] in tail else None
        if cut is None: r.shuffle(tail)
        for o in tail: put(o)
        if nd and r.random() < .9: put(["update"])
        put(one("solve"))
        for _ in range(r.randint(0, n)): put(one(r.choice(kinds)))
        if nd and r.random() < .5: put(["update"])
        put(one("solve"))
    return ops
