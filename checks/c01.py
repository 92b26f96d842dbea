"""C01: the full multiple-scattering solvers agree."""
from scn import *
import gen, ref, math

class P(SceneProp):
    id = "C01"
    quick, thorough = 6000, 200000
    rule = ("A random scene valid for two different full multiple-scattering solvers, each run on its own instance. "
            "Non-trivial: at least one layer scatters (omega > 0.01) and a source is on.")
    PAIRS = [("EIG_ADD", "EIG_BVP"), ("DOUB_ADD", "EIG_BVP"), ("DOUB_ADD", "EIG_ADD"), ("MEM_BVP", "EIG_BVP"), ("PADE_ADD", "EIG_BVP"),
             ("MEM_BVP", "EIG_ADD"), ("PADE_ADD", "DOUB_ADD"), ("SOS", "EIG_BVP")]
    TOL = dict(DOUB_ADD=3e-4, PADE_ADD=1e-7, EIG_ADD=1e-7, EIG_BVP=1e-7, MEM_BVP=1e-7, SOS=1e-3)
    def gen(self, r, i, tier):
        p = self.PAIRS[i % len(self.PAIRS)]
        kw = {}
        if "SOS" in p: kw = dict(tau_max=.5, max_layers=3, psa=r.random() < .4, max_quad=6)
        s = gen.scene(r, list(p), **kw)
        if "SOS" in p:
            m = min(list(ref.gauss("norm" if "QUAD_NORM_GAUS_LEG" in s["options"] else "doub", s["n_quad"])[0])
                    + [math.cos(math.radians(t)) for t in s.get("out_thetas", [])])
            s["sos"] = [200, gen.rf(max(2e-4, min(.005, .1 * m)), 3), 1e-11]
        return dict(scene=s)
    def check(self, case):
        s = case["scene"]
        a, b = s["solvers"]
        outs = ("RADIANCE", "MEAN", "FLUX") if not s.get("nomf") else ("RADIANCE",)
        x = xr.run(self.lib, s, a, outs); y = xr.run(self.lib, s, b, outs)
        tol = max(self.TOL[a], self.TOL[b])
        e = diff(x, y, keys=["I_p", "I_m"])
        f = diff(x, y, keys=["mean_p", "mean_m", "flux_p", "flux_m"])
        need(e, tol, "%s vs %s radiance" % (a, b)); need(f, tol, "%s vs %s mean/flux" % (a, b))
        return {"err %s %s" % (a, b): e[0], "mf %s %s" % (a, b): f[0]}
    def nontrivial(self, case, st):
        return any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield "+".join(case["scene"]["solvers"])
        yield from SceneProp.classify(self, case, st)
