"""C10: radiances are linear in the sources."""
from scn import *
import gen, lin, copy, contextlib
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "EIG_ADD", "SINGLE", "TWO_OS", "SOS"]

def sources(s):
    o = []
    if "SOURCE_SOLAR" in s["options"]: o.append("F_0")
    if "SOURCE_THERMAL" in s["options"]: o += ["levels_b", "surface_b"]
    return o + ["F_iso_top", "F_iso_bot"]

def scaled(s, f):
    """every source multiplied by its factor; sources that are not in f are off"""
    c = copy.deepcopy(s)
    for k in sources(s):
        q = f.get(k, 0.)
        if k == "levels_b": c[k] = [v * w for v, w in zip(s[k], q or [0.] * len(s[k]))]
        else: c[k] = s[k] * q
    return c

def bare(s, p, sv):
    """the options without those of the sources that are off"""
    o = list(s["options"])
    if "F_0" not in p and sv not in ("MEM_BVP", "SINGLE", "SOS", "TWO_OS"): o = [k for k in o if k not in ("SOURCE_SOLAR", "PSA", "N_T_TMS")]
    if "levels_b" not in p and "surface_b" not in p: o = [k for k in o if k != "SOURCE_THERMAL"]
    return o

class P(SceneProp):
    id = "C10"
    quick, thorough = 20000, 150000
    rule = ("A random scene with all the sources its solver accepts is solved with every source scaled by its own factor (each level's emission separately) and for each source alone; the sum has to agree; in half of the cases a source that is off has its option (and those that need it) switched off as well. "
            "Non-trivial: at least two sources are on.")
    TOL = 1e-9
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        low = "STREAM" in sv
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., tms=False if sv == "TWO_OS" else None, **(dict(sfi=True, psa=False, tau_min=.01) if low else {}))
        if low:
            s["F_iso_top"] = s["F_iso_bot"] = 0.
            for l in s["layers"]: l["omega"] = max(l["omega"], .05)
        else:
            s["F_iso_top"] = rf(r.uniform(.1, 2), 4); s["F_iso_bot"] = rf(r.uniform(.1, 2), 4)
        f = {}
        for k in sources(s):
            g = lambda: r.choice([1., 2., rf(r.uniform(.01, 9), 5)])
            f[k] = [g() if r.random() < .7 else 0. for _ in s[k]] if k == "levels_b" else g()
        return dict(scene=s, f=f, bare=i // len(SOLV) % 2)
    def check(self, case):
        s, f = case["scene"], case["f"]; sv = s["solvers"][0]
        outs = ("RADIANCE",) if sv == "SINGLE" or "STREAM" in sv else ("RADIANCE", "MEAN", "FLUX")
        parts = []
        for k in sources(s):
            if k == "levels_b":
                for i, v in enumerate(s[k]):
                    e = [0.] * len(s[k]); e[i] = 1.
                    if v: parts.append(({k: e}, f[k][i]))
            elif s[k]: parts.append(({k: 1.}, f[k]))
        t = None; n = 0
        with contextlib.ExitStack() as st:
            models = {}
            for p, w in parts + [(f, None)]:
                c = scaled(s, p)
                if case.get("bare") and w is not None: c["options"] = bare(s, p, sv)
                o = tuple(c["options"])
                if o not in models: models[o] = st.enter_context(xr.X(self.lib, dict(s, options=c["options"])))
                x = models[o]; x.setup(c)
                b = x.solve(sv, outs)
                if w is None: break
                n += w != 0.
                b = {k: w * v for k, v in b.items()}
                t = b if t is None else {k: t[k] + b[k] for k in b}
        if t is None: return {}
        e = diff(b, t, scale=max(scale_of(t), 1e-300))
        need(e, self.TOL, "%s: all sources together against the sum of each" % sv)
        return dict(err=e[0], parts=n)
    def nontrivial(self, case, st):
        return st.get("parts", 0) > (1 if "STREAM" not in case["scene"]["solvers"][0] and case["scene"]["solvers"][0] != "SINGLE" else 0)
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        if case.get("bare"): yield "options of absent sources off"
        yield from SceneProp.classify(self, case, st)
    def shrinks(self, case):
        for c in shrink_scene(case["scene"]):
            f = dict(case["f"])
            if "levels_b" in f: f["levels_b"] = (f["levels_b"] + [1.] * 9)[:c["n_layers"] + 1]
            for k in sources(c): f.setdefault(k, 0.)
            yield dict(case, scene=c, f=f)
