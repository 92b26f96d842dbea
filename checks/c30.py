"""C30: delta-M solves the scene with its forward peaks taken out, derivatives included."""
from scn import *
import gen, lin, ref, copy

SOLV = ["EIG_BVP", "EIG_ADD", "MEM_BVP", "PADE_ADD", "DOUB_ADD", "SOS", "TWO_OS", "EIG_BVP"]

def scaled(s):
    """the scaled scene as one without delta-M; its derivatives by complex steps through the scaling"""
    c = copy.deepcopy(s); M = 2 * s["n_quad"]
    c["options"] = [o for o in c["options"] if o != "DELTA_M"]; c["max_coef"] = M
    for i, l in enumerate(c["layers"]): l.update({k: v for k, v in ref.delta_m(s["layers"][i], M, s["n_stokes"]).items() if k != "f"})
    h = 1e-30
    for d in c.get("derivs", []):
        new = dict(ltau=[], omega=[], coef=[])
        for i, l in enumerate(s["layers"]):
            a, b = (d.get("ltau") or [0.] * 99)[i], (d.get("omega") or [0.] * 99)[i]; e = (d.get("coef") or [None] * 99)[i]
            q = dict(ltau=l["ltau"] + 1j * h * a, omega=l["omega"] + 1j * h * b, coef=[[v + 1j * h * w for v, w in zip(x, y)] for x, y in zip(l["coef"], e)] if e is not None else [[v + 0j for v in x] for x in l["coef"]])
            z = ref.delta_m(q, M, s["n_stokes"]); im = lambda v: (v.imag / h if isinstance(v, complex) else 0.)
            new["ltau"].append(im(z["ltau"])); new["omega"].append(im(z["omega"])); cc = [[im(v) for v in x] for x in z["coef"]]
            new["coef"].append(cc if any(v for x in cc for v in x) else None)
        d.update(new)
    if "OUTPUT_AT_TAUS" in s["options"]:
        t0 = np.concatenate([[0.], np.cumsum([l["ltau"] for l in s["layers"]])]); t1 = np.concatenate([[0.], np.cumsum([l["ltau"] for l in c["layers"]])])
        c["out_taus"] = [float(np.interp(q, t0, t1)) for q in s["out_taus"]]
    return c

def worst(a, b, sc, floor_):
    """worst difference of each Stokes parameter in units of its own size"""
    w, at = 0., None
    for k in a:
        if a[k] is None: continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if not x.size: continue
        if k.startswith("I_"): x, y = x.reshape(-1, x.shape[-1]), y.reshape(-1, y.shape[-1])
        else: x, y = x.reshape(-1, 1), y.reshape(-1, 1)
        for j in range(x.shape[1]):
            d = np.abs(x[:, j] - y[:, j])
            if not np.isfinite(d).all(): return float("inf"), k
            m = max(np.abs(y[:, j]).max(), floor_ * sc, floor_ * np.abs(y).max())
            if d.max() / m > w: w = float(d.max() / m); at = "%s, Stokes parameter %d: %.15g vs %.15g" % (k, j + 1, x[d.argmax(), j], y[d.argmax(), j])
    return w, at

class P(SceneProp):
    id = "C30"
    quick, thorough = 4000, 120000
    rule = ("A random scene with delta-M (forward peaks of any size in some of its layers, up to four Stokes parameters, any sources, surfaces and outputs, with and without derivatives) against the scene "
            "scaled by the formulas and solved without delta-M. Non-trivial: some layer has a truncated part.")
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], delta_m=True, tms=False, vector=r.random() < .55, max_quad=6, max_layers=4, tau_max=.3 if sv == "SOS" else 5., omega_min=1e-3)
        for l in s["layers"]: l["omega"] = min(l["omega"], .9999)
        if s["n_stokes"] > 1 and r.random() < .5: s["n_stokes"] = 4 if s["n_quad"] <= 4 else s["n_stokes"]
        if s["n_stokes"] > 1:
            for l in s["layers"]:                   # strong circular polarization
                n = len(l["coef"][0])
                if r.random() < .6:
                    for k, q in ((3, r.uniform(-.3, .3)), (4, r.uniform(-.3, .3)), (5, r.uniform(-.5, .5))):
                        l["coef"][k] = [gen.rf(v + q * l["coef"][0][j] * .5, 10) if j >= 2 else v for j, v in enumerate(l["coef"][k])]
        if r.random() < .55: lin.add_derivs(r, s, nd=r.choice([1, 1, 2, 3]))
        return dict(scene=s)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if "DELTA_M" not in s["options"] or near_node(s, 1e-4): return {}
        w = ("RADIANCE", "MEAN", "FLUX")
        a = xr.run(self.lib, s, sv, w); b = xr.run(self.lib, scaled(s), sv, w)
        sc = max(scale_of(b), floor(s))
        v = {k: q for k, q in a.items() if not k.endswith("_l")}; dv = {k: q for k, q in a.items() if k.endswith("_l")}
        e = worst(v, b, sc, 1e-4); need(e, self.tol(sv), "%s with delta-M against the scaled scene" % sv)
        e2 = worst(dv, b, sc, 1e-3)
        need(e2, self.tol(sv) * 100, "%s with delta-M against the scaled scene: derivatives" % sv)
        return dict(err=e[0], errd=e2[0])
    def tol(self, sv): return 5e-6 if sv == "DOUB_ADD" else 2e-7         # doubling amplifies rounding
    def nontrivial(self, case, st): return "err" in st and any(len(l["coef"][0]) > 2 * case["scene"]["n_quad"] and l["coef"][0][2 * case["scene"]["n_quad"]] for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "%d Stokes parameters" % case["scene"]["n_stokes"]
        yield from SceneProp.classify(self, case, st)
