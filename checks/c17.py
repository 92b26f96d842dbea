"""C17: surfaces reflect and emit according to the published kernel formulas."""
from scn import *
import gen, ref, brdf
from gen import rf

SOLV = ["EIG_BVP", "EIG_ADD", "EIG_BVP", "MEM_BVP", "PADE_ADD", "SOS", "DOUB_ADD"]
KER = ["roujean", "li_sparse", "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user_defined", "direct_and_diffuse", "lambertian"]

class P(SceneProp):
    id = "C17"
    quick, thorough = 6000, 150000
    rule = ("A random scene over one to three reflection kernels (parameters over their physical ranges, extreme angles included) solved by the library and by the reference model with kernels written from the "
            "published formulas. Half of the atmospheres are almost transparent, so that the kernel itself is what is seen. Non-trivial: the surface reflects.")
    TOL = dict(DOUB_ADD=3e-4, SOS=1e-3, PADE_ADD=1e-4, EIG_BVP=1e-7, EIG_ADD=1e-7, MEM_BVP=1e-7)
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        ks = [r.choice(KER) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        bare = r.random() < .5
        s = gen.scene(r, [sv], kernels=ks, max_layers=2 if bare else 3, max_quad=5, tau_max=.3 if sv == "SOS" else 6.)
        if r.random() < .3 and s["n_out_thetas"]: s["out_thetas"] = sorted(set(rf(r.choice([0., 89.5, 85., r.uniform(0, 89)]), 5) for _ in range(s["n_out_thetas"]))); s["n_out_thetas"] = len(s["out_thetas"])
        if r.random() < .15 and "SOURCE_SOLAR" in s["options"] and "PSA" not in s["options"]: s["theta_0"] = rf(r.uniform(80, 89.), 5)
        if bare:
            f = 1e-4 / sum(l["ltau"] for l in s["layers"])
            for l in s["layers"]: l["ltau"] = rf(l["ltau"] * f, 8)
            if "out_taus" in s: s["out_taus"] = [v * f * .999999 for v in s["out_taus"]]
        s["pade"] = gen.pade_params(s)
        if sv == "SOS": s["sos"] = [200, .001, 1e-11]
        for n, k in zip(s["kernels"], s["kernel"]):
            if n == "cox_munk" and r.random() < .4: k["params"][0] = rf(r.uniform(.003, .03), 4)
            if n.startswith("li_") and r.random() < .4: k["params"] = [rf(r.uniform(.3, 4.), 4), rf(r.uniform(.2, 3.), 4)]
            if r.random() < .05: k["ampfac"] = 0.
        return dict(scene=s, bare=bare)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        x = xr.run(self.lib, s, sv, ("RADIANCE", "MEAN", "FLUX"))
        y = ref.solve(s, kernel=brdf.modes(s, s["n_quad"]) if s["kernels"] else None)
        sc = max(scale_of(x, y), floor(s))
        e = diff(x, y, [k for k in x if k in y], sc)
        need(e, self.TOL[sv], "%s against the reference over %s" % (sv, "+".join(s["kernels"])))
        return {"err " + sv: e[0]}
    def nontrivial(self, case, st):
        return bool(st) and any(k["ampfac"] for k in case["scene"]["kernel"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "bare" if case["bare"] else "atmosphere"
        for k in case["scene"]["kernels"]: yield k
        yield from SceneProp.classify(self, case, st)
