"""Operations on scene dicts: copy, perturb, shrink, compare."""
import copy, json, os
import numpy as np
import xr, build
from pbt import Fail, Prop

def the_lib(variant="opt", name="libvx.so"):
    return xr.load(build.lib(variant, name))

# --------------------------------------------------------------- perturbation
def perturb_scene(s, r, eps=2e-3):
    """Moves continuous inputs a little; special values (0, 1) stay."""
    f = lambda v: v if v in (0., 1.) else v * (1 + eps * r.uniform(-1, 1))
    for l in s["layers"]:
        l["ltau"] = f(l["ltau"])
        if l["omega"] not in (0., 1.): l["omega"] = min(1 - 1e-6, max(1e-6, f(l["omega"])))
    for k in ("theta_0",):
        if s.get(k): s[k] = min(89., f(s[k]))
    if s.get("out_thetas"): s["out_thetas"] = [min(88., f(t)) for t in s["out_thetas"]]
    if s.get("out_taus"):
        tt = sum(l["ltau"] for l in s["layers"])
        s["out_taus"] = [min(tt * .9999999, t) for t in s["out_taus"]]
        o = []
        for t in s["out_taus"]:
            if o and t <= o[-1]: t = o[-1] * (1 + 1e-7) + 1e-9
            o.append(t)
        if o[-1] >= tt: return None
        s["out_taus"] = o
    return s

# ------------------------------------------------------------------ shrinking
def drop_layer(s, i):
    c = copy.deepcopy(s)
    n = c["n_layers"]
    if n < 2: return None
    c["n_layers"] = n - 1
    del c["layers"][i]
    if c.get("levels_z"): del c["levels_z"][0]
    if c.get("levels_b"): del c["levels_b"][i]
    if c.get("out_levels"):
        lv = sorted(set(min(l, n - 1) for l in c["out_levels"]))
        c["out_levels"] = lv; c["n_out_levels"] = len(lv)
    if c.get("out_taus"):
        tt = sum(l["ltau"] for l in c["layers"])
        o = [t for t in c["out_taus"] if t < tt] or [0.]
        c["out_taus"] = o; c["n_out_levels"] = len(o)
    for d in c.get("derivs", ()):
        for k in ("ltau", "omega", "coef"):
            if d.get(k): del d[k][i]
        if d.get("levels_b"): del d["levels_b"][i]
    return c

def shrink_scene(s):
    n = s["n_layers"]
    for i in range(n):
        c = drop_layer(s, i)
        if c: yield c
    for k in range(len(s["kernels"])):
        c = copy.deepcopy(s); del c["kernels"][k]; del c["kernel"][k]
        for d in c.get("derivs", ()):
            for q in ("ampfac", "params"):
                if d.get(q): del d[q][k]
        yield c
    if s.get("n_derivs", 0) > 1:
        for k in range(s["n_derivs"]):
            c = copy.deepcopy(s); c["n_derivs"] -= 1; del c["derivs"][k]; yield c
    for o in s["options"]:
        if o in ("CALC_DERIVS", "OUTPUT_AT_LEVELS", "SOURCE_SOLAR", "SOURCE_THERMAL", "VECTOR", "OUTPUT_AT_TAUS"): continue
        c = copy.deepcopy(s); c["options"].remove(o)
        if o == "DELTA_M" and "N_T_TMS" in c["options"]: continue
        if o == "SFI" and c["n_out_thetas"]: continue
        yield c
    if "SOURCE_SOLAR" in s["options"] and "SOURCE_THERMAL" in s["options"]:
        for o in ("SOURCE_SOLAR", "SOURCE_THERMAL"):
            c = copy.deepcopy(s); c["options"].remove(o); yield c
    if s["n_out_levels"] > 1:
        key = "out_taus" if "OUTPUT_AT_TAUS" in s["options"] else "out_levels"
        for k in range(s["n_out_levels"]):
            c = copy.deepcopy(s); del c[key][k]; c["n_out_levels"] -= 1; yield c
    if s["n_out_thetas"] > 1:
        for k in range(s["n_out_thetas"]):
            c = copy.deepcopy(s); del c["out_thetas"][k]; c["n_out_thetas"] -= 1; yield c
    if len(s.get("phis", [])) > 1:
        for k in range(len(s["phis"])):
            c = copy.deepcopy(s); del c["phis"][k]; yield c
    for k in ("F_iso_top", "F_iso_bot", "phi_0"):
        if s.get(k):
            c = copy.deepcopy(s); c[k] = 0.
            for d in c.get("derivs", ()): d.pop(k, None)
            yield c
    if s.get("F_0", 1.) != 1.:
        c = copy.deepcopy(s); c["F_0"] = 1.; yield c
    if s.get("theta_0", 30.) not in (0., 30.):
        c = copy.deepcopy(s); c["theta_0"] = 30.; yield c
    for i, l in enumerate(s["layers"]):
        m = len(l["coef"][0])
        if m > 1 and len(l["coef"]) == 1:
            c = copy.deepcopy(s); c["layers"][i]["coef"] = [[1.]]
            for d in c.get("derivs", ()):
                if d.get("coef") and d["coef"][i]: d["coef"][i] = [[0.]]
            yield c
            if m > 3:
                c = copy.deepcopy(s); c["layers"][i]["coef"] = [[1., 0., .5]]
                for d in c.get("derivs", ()):
                    if d.get("coef") and d["coef"][i]: d["coef"][i] = [d["coef"][i][0][:3]]
                yield c
        if l["omega"] not in (0., .5, 1.):
            c = copy.deepcopy(s); c["layers"][i]["omega"] = .5; yield c
        if l["ltau"] not in (.5,):
            c = copy.deepcopy(s); c["layers"][i]["ltau"] = .5
            if c.get("out_taus"): continue
            yield c
    for j, d in enumerate(s.get("derivs", ())):
        for k in list(d):
            c = copy.deepcopy(s); del c["derivs"][j][k]; yield c
        for k in ("ltau", "omega"):
            if d.get(k):
                for i in range(n):
                    if d[k][i]:
                        c = copy.deepcopy(s); c["derivs"][j][k][i] = 0.; yield c
    if s["n_quad"] > 1 and "DELTA_M" not in s["options"]:
        c = copy.deepcopy(s); c["n_quad"] -= 1; yield c
    if s["n_stokes"] > 2:
        c = copy.deepcopy(s); c["n_stokes"] -= 1; yield c

# ------------------------------------------------------------------- compare
def scale_of(*os_):
    m = 0.
    for o in os_:
        for k, a in o.items():
            if a.size and not k.endswith("_l"):
                f = a[np.isfinite(a)]
                if f.size: m = max(m, float(np.max(np.abs(f))))
    return m or 1.

def floor(s):
    """a physical lower bound for the radiance scale: sources times a small number"""
    m = 0.
    if "SOURCE_SOLAR" in s["options"]: m = max(m, s["F_0"] / np.pi)
    if "SOURCE_THERMAL" in s["options"]: m = max(m, s["surface_b"], *s["levels_b"])
    return 1e-3 * max(m, s.get("F_iso_top", 0.), s.get("F_iso_bot", 0.))

def near_node(s, eps=1.2e-5):
    """the beam within the distance of a stream at which the library moves it"""
    if "SOURCE_SOLAR" not in s["options"]: return False
    import ref, math
    qx, _ = ref.gauss("norm" if "QUAD_NORM_GAUS_LEG" in s["options"] else "doub", s["n_quad"])
    m0 = math.cos(math.radians(s["theta_0"]))
    return any(abs(m0 - v) < eps for v in list(qx) + [math.cos(math.radians(t)) for t in s.get("out_thetas", [])])

def diff(a, b, keys=None, scale=None):
    """worst |a-b| over a scale; (value, where)"""
    worst, where = 0., None
    sc = scale or scale_of(a, b)
    for k in (keys or a):
        if k not in a or k not in b: continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape: return float("inf"), "%s: shape %s vs %s" % (k, x.shape, y.shape)
        if not x.size: continue
        s_ = sc
        if k.endswith("_l"): s_ = max(1e-300, float(np.nanmax(np.abs(np.concatenate([x.ravel(), y.ravel()])))), sc * 1e-3)
        d = np.abs(x - y) / s_
        if not np.isfinite(d).all():
            j = np.argwhere(~np.isfinite(d))[0]
            return float("inf"), "%s%s: %r vs %r" % (k, tuple(j.tolist()), x[tuple(j)], y[tuple(j)])
        m = float(d.max())
        if m > worst:
            j = np.unravel_index(int(d.argmax()), d.shape)
            worst, where = m, "%s%s: %.15g vs %.15g" % (k, tuple(int(q) for q in j), x[j], y[j])
    return worst, where

def need(err, tol, what):
    if not err[0] <= tol:
        raise Fail("%s: differ by %.3g of scale (allowed %.3g) at %s" % (what, err[0], tol, err[1]))

class SceneProp(Prop):
    """A property of one scene under case["scene"]."""
    numeric = True
    def worker_setup(self):
        self.lib = the_lib()
    def perturb(self, case, r):
        s = perturb_scene(case["scene"], r)
        return None if s is None else case
    def shrinks(self, case):
        for c in shrink_scene(case["scene"]):
            yield dict(case, scene=c)
    def classify(self, case, st):
        s = case["scene"]
        yield "layers>1" if s["n_layers"] > 1 else "layers=1"
        yield "stokes=%d" % s["n_stokes"]
        for o in s["options"]:
            yield o
        yield "surface" if s["kernels"] else "no surface"
        if any(k != "lambertian" for k in s["kernels"]): yield "brdf"
        yield "user angles" if s["n_out_thetas"] else "quadrature angles"
        if s.get("F_iso_top") or s.get("F_iso_bot"): yield "isotropic boundary source"
        if any(l["omega"] == 1. for l in s["layers"]): yield "conservative layer"
        if any(l["omega"] == 0. for l in s["layers"]): yield "absorbing layer"
