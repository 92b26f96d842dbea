"""C23: the finite difference interface differences the model's own results, in the stated direction, and leaves the model as it was."""
from scn import *
import gen, api, xif, math, copy, os, subprocess, ctypes as C
from xr import X, IERR, DERR, vp, i32, f64, OUT, SOLV, mask
import build, c18, c21
from gen import rf

DER = ("sl1", "sln", "lbl1", "lbln", "lay_l", "coef_l", "amp_l1", "amp_ln", "par_l")
METHODS = ["FORWARD", "BACKWARD", "CENTRAL"]

def nested(v, keep):
    """(possibly nested) list as C array of pointers"""
    if v and isinstance(v[0], list):
        a = (vp * len(v))(*[C.cast(nested(x, keep), vp) for x in v])
    else: a = (f64 * max(1, len(v)))(*v)
    keep.append(a); return a
def over(a, keep):
    """numpy array as C array of pointers into it"""
    if a.ndim == 1: return C.c_void_p(a.ctypes.data)
    b = (vp * a.shape[0])(*[C.cast(over(x, keep), vp) for x in a]); keep.append(b); return b

def scaled(op, m, k, wild):
    """the values of a derivative operation made small enough to be perturbations"""
    def f(w, u):
        return [f(x, u) for x in w] if isinstance(w, list) else rf(w * u, 10)
    op = list(op); name = op[0]; s = m.s
    u = .02 * k
    if name == "lay_l" and op[1] == "ltau": u = .2 * k * min(l["ltau"] for l in s["layers"])
    if name == "lay_l" and op[1] == "omega": u = .2 * k * min(min(l["omega"], max(0., 1 - 1.1e-5 - l["omega"])) for l in s["layers"])
    if name.startswith("amp"): u = .2 * k * min([min(q["ampfac"], 1 - q["ampfac"]) for q in s["kernel"]] or [0.])
    if name in ("sl1", "sln") and op[1].startswith("F_iso"): u = .2 * k * s.get(op[1], 0.)
    if name in ("sl1", "sln") and op[1] == "surface_b": u = .2 * k * (s.get("surface_b") or 0.)
    if name.startswith("lbl"): u = .2 * k * min(s.get("levels_b") or [0.])
    if name == "par_l": u = .2 * k * min([abs(p) for q in s["kernel"] for p in q["params"] if p] + [.1])
    if wild and name not in ("coef_l", "par_l"): u = .3
    op[-1] = f(op[-1], u)
    return op

class P(Prop):
    id = "C23"
    quick, thorough = 8000, 200000
    cpu_per_case = 120
    builds = [("opt", ("src", "misc", "utils"))]
    rule = "at least one derivative has a perturbation other than zero and its differences were compared"
    def worker_setup(self):
        self.lib = the_lib(); L = self.lib.L; self.L = L
        for n in "F_iso_top F_iso_bot surface_b".split():
            self.sig("set_%s_p_1" % n, i32, vp, i32, f64); self.sig("set_%s_p_n" % n, i32, vp, vp); self.sig("get_%s_p" % n, f64, vp, i32)
        self.sig("create", i32, vp, vp, i32); self.sig("destroy", i32, vp); self.sig("get_n_derivs", i32, vp)
        self.sig("set_delta", i32, vp, vp); self.sig("get_delta", i32, vp, vp)
        self.sig("set_levels_b_p_1", i32, vp, i32, vp); self.sig("set_levels_b_p_n", i32, vp, vp); self.sig("get_levels_b_p", f64, vp, i32, vp)
        for n in "g omega ltau coef".split():
            self.sig("set_%s_p_11" % n, i32, vp, i32, i32, vp if n == "coef" else f64); self.sig("set_%s_p_n1" % n, i32, vp, i32, vp)
            self.sig("set_%s_p_1n" % n, i32, vp, i32, vp); self.sig("set_%s_p_nn" % n, i32, vp, vp)
            self.sig("get_%s_p" % n, f64, vp, i32, i32, *([i32, i32] if n == "coef" else []))
        self.sig("set_kernel_ampfac_p_1", i32, vp, i32, i32, f64); self.sig("set_kernel_ampfac_p_n", i32, vp, i32, vp); self.sig("get_kernel_ampfac_p", f64, vp, i32, i32)
        self.sig("set_kernel_params_p_11", i32, vp, i32, i32, i32, f64); self.sig("set_kernel_params_p_1n", i32, vp, i32, i32, vp)
        self.sig("set_kernel_params_p_n1", i32, vp, i32, i32, vp); self.sig("set_kernel_params_p_nn", i32, vp, i32, vp); self.sig("get_kernel_params_p", f64, vp, i32, i32, i32)
        self.sig("solution", i32, vp, i32, i32, i32, i32, *([vp] * 15)); self.sig("radiance", i32, vp, i32, i32, i32, *([vp] * 5))
        for n in ("name_to_value", "value_to_name"): pass
        d = os.path.join(build.BUILD, "tmp"); os.makedirs(d, exist_ok=True)
        self.f = os.path.join(d, "c23.%d" % os.getpid())
        self.exe = os.path.join(build.BUILD, "opt", "tree", "utils", "callxrtm")
    def sig(self, n, res, *a):
        f = getattr(self.L, "xrtm_fd_" + n); f.restype = res; f.argtypes = list(a)
    def gen(self, r, i, tier):
        s = gen.scene(r, r.choice(c18.GROUPS), max_quad=4, max_layers=4, tau_max=3.)
        if i % 5 == 0 and s["kernels"]: s["kernels"] = [k if k != "user_defined" else "rahman" for k in s["kernels"]]; s["kernel"] = [gen.brdf_kernel(r, k) for k in s["kernels"]]
        nd = r.randint(1, 3)
        sd = dict(s, options=s["options"] + ["CALC_DERIVS"], n_derivs=nd); m = api.Model(sd)
        for l in range(s["n_layers"]):
            c = s["layers"][l]["coef"]; m.coef[l] = (len(c[0]), [list(e) for e in c])
        ops = []; k = r.choice([1., 1., .1]); wild = r.random() < .1
        for op in api.history(r, sd, 60, bad=r.choice([0., .15])):
            if op[0] in DER and len(ops) < r.choice([3, 6, 12]):
                if op[0] == "lay_l" and op[1] == "g": continue
                ops.append(scaled(op, m, k, wild and r.random() < .3))
        sv = r.choice(s["solvers"])
        o = ["RADIANCE"] if sv == "SINGLE" else r.choice([["RADIANCE"], ["RADIANCE", "MEAN", "FLUX"], ["MEAN", "FLUX"], ["FLUX"], ["RADIANCE", "MEAN"]])
        return dict(scene=s, n_derivs=nd, ops=ops, solver=sv, outs=o, method=r.randrange(3), delta=[r.choice([1., -1.]) * gen.logu(r, 1e-4, 1.) for _ in range(nd)], again=r.random() < .3,
                    program=r.randrange(10 ** 9) if i % 5 == 0 and "user_defined" not in s["kernels"] else None)
    # ---- calls
    def put(self, h, m, op, keep):
        k = op[0]; F = lambda n: getattr(self.L, "xrtm_fd_set_" + n)
        tab = lambda t: [list(e) + [0.] * (m.mc - len(e)) for e in t]
        N = lambda v: nested(v, keep)
        if k == "sl1": return F(op[1] + "_p_1")(h, op[2], op[3])
        if k == "sln": return F(op[1] + "_p_n")(h, N(op[2]))
        if k == "lbl1": return F("levels_b_p_1")(h, op[1], N(op[2]))
        if k == "lbln": return F("levels_b_p_n")(h, N(op[1]))
        if k in ("lay_l", "coef_l"):
            if k == "coef_l":
                _, f, i, j, w = op; q = "coef"
                w = tab(w) if f == "11" else [tab(t) for t in w] if f in ("n1", "1n") else [[tab(t) for t in x] for x in w]
            else: _, q, f, i, j, w = op
            v = w if f == "11" and q != "coef" else N(w)
            return F("%s_p_%s" % (q, f))(h, *{"11": [i, j], "n1": [j], "1n": [i], "nn": []}[f], v)
        if k == "amp_l1": return F("kernel_ampfac_p_1")(h, op[1], op[2], op[3])
        if k == "amp_ln": return F("kernel_ampfac_p_n")(h, op[1], N(op[2]))
        _, f, q, j, a, w = op
        return F("kernel_params_p_" + f)(h, *{"11": [q, j, a], "1n": [q, j], "n1": [q, a], "nn": [q]}[f], w if f == "11" else N(w))
    def look(self, h, m, g):
        k = g[0]; F = lambda n: getattr(self.L, "xrtm_fd_get_" + n); D = lambda v: None if v == DERR else v
        if k == "sl": return D(F(g[1] + "_p")(h, g[2]))
        if k == "lbl":
            b = darr_([api.GUARD] * (m.nl + 2))
            if F("levels_b_p")(h, g[1], b): return None
            if b[m.nl + 1] != api.GUARD: raise Fail("xrtm_fd_get_levels_b_p wrote past its array")
            return list(b)[:m.nl + 1]
        if k == "lay_l": return D(F(g[1] + "_p")(h, g[2], g[3]))
        if k == "coef_l": return D(F("coef_p")(h, *g[1:]))
        if k == "amp_l": return D(F("kernel_ampfac_p")(h, g[1], g[2]))
        if k == "par_l": return D(F("kernel_params_p")(h, *g[1:]))
    def perturbed(self, s, m, j, f, base):
        """the scene with the perturbation; None if a value is then not valid"""
        c = copy.deepcopy(s); ok = True
        for k in ("F_iso_top", "F_iso_bot"):
            c[k] = (s.get(k) or 0.) + f * m.sl[k][j]; ok = ok and c[k] >= 0
        if "SOURCE_THERMAL" in s["options"]:
            c["surface_b"] = s["surface_b"] + f * m.sl["surface_b"][j]; ok = ok and c["surface_b"] >= 0
            c["levels_b"] = [v + f * m.lbl[i][j] for i, v in enumerate(s["levels_b"])]; ok = ok and all(v >= 0 for v in c["levels_b"])
        for i, l in enumerate(c["layers"]):
            n = len(l["coef"][0])
            l["coef"] = [[v + f * m.coef_l[i][j][e][q] for q, v in enumerate(row)] for e, row in enumerate(l["coef"])]
            l["omega"] = base["omega"][i] + f * m.lay_l["omega"][i][j]; l["ltau"] = l["ltau"] + f * m.lay_l["ltau"][i][j]
            ok = ok and 0 <= l["omega"] <= 1 and l["ltau"] > 0 and abs(l["coef"][0][0] - 1) <= 2.3e-16
        for q, k in enumerate(c["kernel"]):
            k["ampfac"] += f * m.amp_l[q][j]; ok = ok and 0 <= k["ampfac"] <= 1
            k["params"] = [v + f * m.par_l[q][j][p] for p, v in enumerate(k["params"])]
        if ok and "OUTPUT_AT_TAUS" in s["options"]:
            t = 0.
            for l in c["layers"]: t += l["ltau"]
            if any(x > t for x in s["out_taus"]): ok = False
        return c if ok else None
    def check(self, case):
        s = case["scene"]; nd = case["n_derivs"]; L = self.L; keep = []; st = dict(refused=0, set=0, compared=0, invalid=0)
        sd = dict(s, options=s["options"] + ["CALC_DERIVS"], n_derivs=nd); m = api.Model(sd); mp = api.Model(s)
        for l in range(s["n_layers"]):
            c = s["layers"][l]["coef"]; m.coef[l] = (len(c[0]), [list(e) for e in c]); mp.coef[l] = m.coef[l]
        with X(self.lib, s) as x:
            x.setup()
            h = C.create_string_buffer(b"\xa5" * 512, 512)
            if self.L.xrtm_fd_create(h, x.h, 0) == 0 or self.L.xrtm_fd_create(h, x.h, -1) == 0: raise Fail("a finite difference model of no derivatives was created")
            if self.L.xrtm_fd_create(h, x.h, nd): raise Fail("xrtm_fd_create failed")
            try:
                if L.xrtm_fd_get_n_derivs(h) != nd: raise Fail("n_derivs is not that of the creation")
                def all_p():
                    for g in api.all_gets(m):
                        if g[0] not in ("sl", "lbl", "lay_l", "coef_l", "amp_l", "par_l"): continue
                        a, b = self.look(h, m, g), m.get(g)
                        if b == "?": continue
                        if a != b: raise Fail("getter %r of the finite difference model returns %r, expected %r" % (g, a, b))
                all_p()
                for op in case["ops"]:
                    ok = m.ok(op); rc = self.put(h, m, op, keep)
                    if ok and rc: raise Fail("valid %r was refused" % op[:-1])
                    if not ok and not rc: raise Fail("invalid %r was accepted" % op)
                    st["set" if ok else "refused"] += 1
                    if ok: m.apply(op)
                all_p()
                for g in (["sl", "F_iso_top", nd], ["sl", "F_iso_bot", -1], ["lay_l", "omega", s["n_layers"], 0], ["lay_l", "ltau", 0, nd], ["coef_l", 0, 0, 0, m.n_coef(0)], ["coef_l", 0, 0, m.ne, 0], ["coef_l", s["n_layers"], 0, 0, 0],
                          ["amp_l", m.nk, 0], ["amp_l", 0, nd] if m.nk else ["amp_l", -1, 0], ["sl", "surface_b", nd]):
                    a = self.look(h, m, g)
                    if a is not None: raise Fail("getter %r out of range returns %r" % (g, a))
                st["compared"] = self.differences(case, x, h, m, mp, keep, st)
            finally: L.xrtm_fd_destroy(h)
        if case["program"] is not None and not st["invalid"]: self.program(case, m)
        return st
    def solve(self, case, x, h, keep, outs, fill=np.nan):
        s = case["scene"]; nd = case["n_derivs"]; nl, nt, ns = x.nl, x.nt, x.ns
        phis = x.phis(s["phis"]); np_ = phis.shape[1]; o = {}
        if "RADIANCE" in outs:
            for q in "pm": o["I_" + q] = np.full((nl, nt, np_, ns), fill); o["I_%s_l" % q] = np.full((nl, nd, nt, np_, ns), fill)
        for k, n in (("MEAN", "mean"), ("FLUX", "flux")):
            if k in outs:
                for q in "pm": o["%s_%s" % (n, q)] = np.full(nl, fill); o["%s_%s_l" % (n, q)] = np.full((nl, nd), fill)
        g = lambda k: over(o[k], keep) if k in o else None
        p = over(np.ascontiguousarray(phis), keep); keep.append(phis)
        if outs == ["RADIANCE"] and len(case["ops"]) % 2:
            rc = self.L.xrtm_fd_radiance(h, SOLV[case["solver"]], case["method"], np_, p, g("I_p"), g("I_m"), g("I_p_l"), g("I_m_l"))
        else:
            rc = self.L.xrtm_fd_solution(h, SOLV[case["solver"]], mask(outs, OUT), case["method"], np_, p, *[g(k) for k in
                 ("I_p", "I_m", "I_p_l", "I_m_l", "mean_p", "mean_m", "mean_p_l", "mean_m_l", "flux_p", "flux_m", "flux_p_l", "flux_m_l")], None, None)
        return rc, o
    def differences(self, case, x, h, m, mp, keep, st):
        s = case["scene"]; nd = case["n_derivs"]; L = self.L; outs = case["outs"]
        values = lambda: [(g, api.getv(x, mp, g)) for g in api.all_gets(mp) if g != ["sc", "lambda"]]
        rc, _ = self.solve(case, x, h, keep, outs)
        if rc == 0: raise Fail("differences without a delta were calculated")
        d = darr_(case["delta"])
        if L.xrtm_fd_set_delta(h, d): raise Fail("xrtm_fd_set_delta failed")
        e = darr_([0.] * nd); L.xrtm_fd_get_delta(h, e)
        if list(e) != list(d): raise Fail("delta is %r, expected %r" % (list(e), list(d)))
        before = values()
        base = dict(omega=[L.xrtm_get_omega(x.h, i) for i in range(s["n_layers"])])
        fs = {0: [1.], 1: [-1.], 2: [1., -1.]}[case["method"]]
        sc = {}
        for j in range(nd):
            for f in fs: sc[j, f] = self.perturbed(s, m, j, f, base)
        valid = all(v is not None for v in sc.values())
        for rep in range(2 if case["again"] else 1):
            rc, o = self.solve(case, x, h, keep, outs)
            for (g, v), (_, w) in zip(before, values()):
                if v is not None and v != w: raise Fail("after %s differences getter %r of the model returns %r, before %r" % (METHODS[case["method"]], g, w, v))
            if not valid:
                st["invalid"] = 1
                if rc == 0: raise Fail("differences with a perturbed value out of range were calculated")
                return 0
            if rc: raise Fail("differences were refused")
            R0 = xr.run(self.lib, s, case["solver"], outs)
            for k, v in R0.items(): self.near(k, o[k], v, 1e-9 * scale_of(v))
            n = 0
            for j in range(nd):
                R = [xr.run(self.lib, sc[j, f], case["solver"], outs) for f in fs]
                a = case["delta"][j]
                for k in R0:
                    q = {0: lambda: (R[0][k] - R0[k]) / a, 1: lambda: (R0[k] - R[0][k]) / a, 2: lambda: (R[0][k] - R[1][k]) / (2 * a)}[case["method"]]()
                    self.near("derivative %d of %s (%s)" % (j, k, METHODS[case["method"]]), o[k + "_l"][:, j], q, 1e-9 * scale_of(R0[k]) / abs(a) + 1e-9 * scale_of(q))
                    if scale_of(q) > 1e-6 * scale_of(R0[k]) / abs(a): n = 1
        return n
    def near(self, what, a, b, tol):
        if not np.all(np.isfinite(a)) and np.all(np.isfinite(b)): raise Fail("%s: not finite" % what)
        if not np.all(np.isfinite(b)): return
        e = np.abs(a - b); i = np.unravel_index(np.nanargmax(e), e.shape) if e.size else None
        if i is not None and e[i] > tol: raise Fail("%s: at %s %.12g, expected %.12g" % (what, i, a[i], b[i]))
    def program(self, case, m):
        """the same by callxrtm"""
        s = case["scene"]; nd = case["n_derivs"]; keep = []; outs = case["outs"]
        st = xif.Style(case["program"], False); r = st.r
        S = dict(s, n_derivs=nd)
        body = []; mm = api.Model(s)
        for op in self.sets(s): body.append(st.stmt(xif.statement(op, mm))); xif.apply(mm, op)
        pd = api.Model(dict(s, options=s["options"] + ["CALC_DERIVS"], n_derivs=nd)); pd.coef = mm.coef
        ops = []
        for op in case["ops"]:
            if xif.usable(pd, op): ops.append(op)
            elif pd.ok(op): return                            # has no statement
        for op in ops:
            n, dm, k, v = xif.statement(op, pd); body.append(st.stmt((n[:-2] + "_p", dm, k, v)))
        body.append(st.stmt(("delta", [], "arr", case["delta"])))
        C_ = xif.creation(S, st) + [st.lhs("fd") + str(case["method"])]; r.shuffle(C_)
        with open(self.f, "w") as f: f.write("\n".join(C_ + body) + "\n")
        arg = [self.exe, "-input_file", self.f, "-solver", case["solver"].lower(), "-out_phis", ",".join(repr(float(p)) for p in s["phis"])]
        if "RADIANCE" not in outs: arg.append("-no_radiance")
        if "MEAN" in outs: arg.append("-radiance_mean")
        if "FLUX" in outs: arg.append("-flux")
        p = subprocess.run(arg, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        if p.returncode: raise Fail("callxrtm refused a finite difference input: " + p.stderr.decode("utf8", "replace")[-300:])
        with X(self.lib, s) as x:
            x.setup(); h = C.create_string_buffer(512); L = self.L
            L.xrtm_fd_create(h, x.h, nd)
            try:
                q = api.Model(pd.s); q.coef = pd.coef
                for op in ops: self.put(h, q, op, keep)
                L.xrtm_fd_set_delta(h, darr_(case["delta"]))
                rc, o = self.solve(case, x, h, keep, outs)
            finally: L.xrtm_fd_destroy(h)
        got = [[float(w) for w in l.split()] for l in p.stdout.decode().split("\n") if l.strip() and l.split()[0][0] in "-0123456789"]
        up = not {"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"} & set(s["options"]) or "UPWELLING_OUTPUT" in s["options"]
        dn = not {"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"} & set(s["options"]) or "DOWNWELLING_OUTPUT" in s["options"]
        dirs = ("p" if up else "") + ("m" if dn else "")
        exp = []; nt = x.nt; nl = x.nl
        if "RADIANCE" in outs:
            for i in range(nl):
                for k in range(nt):
                    for l in range(len(s["phis"])):
                        for q in range(x.ns): exp.append((4, [o["I_" + d][i, k, l, q] for d in dirs], [[o["I_%s_l" % d][i, j, k, l, q] for j in range(nd)] for d in dirs], "I_"))
        for n, k in (("mean", "MEAN"), ("flux", "FLUX")):
            if k in outs:
                for i in range(nl): exp.append((1, [o["%s_%s" % (n, d)][i] for d in dirs], [[o["%s_%s_l" % (n, d)][i, j] for j in range(nd)] for d in dirs], n + "_"))
        if len(got) != len(exp): raise Fail("callxrtm printed %d rows, expected %d" % (len(got), len(exp)))
        for g, (skip, v, w, k) in zip(got, exp):
            e = list(v) + [b for a in w for b in a]
            e2 = list(v) + [w[d][j] for j in range(nd) for d in range(len(dirs))]
            g = g[skip:]
            if len(g) != len(e): raise Fail("callxrtm printed %d columns, expected %d" % (len(g), len(e)))
            nv = len(v); sc = [scale_of(o[k + "p"]), scale_of(o[k + "m"])]
            tol = lambda b, q: 1.1e-6 * abs(b) + 1e-8 * max(sc) / (1. if q < nv else min(abs(t) for t in case["delta"]))
            if any(abs(a - b) > tol(b, q) for q, (a, b) in enumerate(zip(g, e))) and any(abs(a - b) > tol(b, q) for q, (a, b) in enumerate(zip(g, e2))):
                raise Fail("callxrtm printed %r, the interface gives %r" % (g, e))
    def sets(self, s):
        o = set(s["options"]); mc = s["max_coef"]
        for k in ("F_iso_top", "F_iso_bot", "fourier_tol"): yield ["sc", k, s.get(k) or 0.]
        if "DOUB_ADD" in s["solvers"]: yield ["sc", "doub_d_tau", s["doub_d_tau"]]
        if "PADE_ADD" in s["solvers"]: yield ["pade"] + list(s["pade"])
        if "SOS" in s["solvers"]: yield ["sos"] + list(s["sos"])
        if "PSA" in o: yield ["sc", "planet_r", s["planet_r"]]; yield ["ar", "levels_z", s["levels_z"]]
        if "SOURCE_SOLAR" in o:
            for k in ("F_0", "theta_0", "phi_0"): yield ["sc", k, s[k]]
        if "SOURCE_THERMAL" in o: yield ["ar", "levels_b", s["levels_b"]]; yield ["sc", "surface_b", s["surface_b"]]
        if s["n_out_thetas"]: yield ["ar", "out_thetas", s["out_thetas"]]
        for i, l in enumerate(s["layers"]):
            yield ["coef1", i, len(l["coef"][0]), [list(e) + [0.] * (mc - len(e)) for e in l["coef"]]]
            yield ["lay1", "omega", i, l["omega"]]; yield ["lay1", "ltau", i, l["ltau"]]
        if "OUTPUT_AT_LEVELS" in o: yield ["ar", "out_levels", s["out_levels"]]
        else: yield ["ar", "out_taus", s["out_taus"]]
        for i, k in enumerate(s["kernel"]):
            yield ["amp", i, k["ampfac"]]
            if k["params"]: yield ["parn", i, k["params"]]
    def nontrivial(self, case, st): return st["compared"] > 0
    def classify(self, case, st):
        yield METHODS[case["method"]]
        yield "solver " + case["solver"]
        yield "outputs " + "+".join(case["outs"])
        if st["invalid"]: yield "perturbed out of range"
        if st["refused"]: yield "refused setters"
        if case["program"] is not None: yield "callxrtm"
    def shrinks(self, case):
        for k in range(len(case["ops"])): yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1:])
        if case["program"] is not None: yield dict(case, program=None)
        if case["again"]: yield dict(case, again=False)

def darr_(v): return (f64 * len(v))(*v)
def scale_of(a): return float(np.max(np.abs(a))) if a.size else 0.
