"""C15: reciprocity of reflection and transmission."""
from scn import *
import gen, copy, math
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "SINGLE", "SOS", "EIG_ADD"]
KER = ["lambertian", "roujean", "ross_thin", "ross_thick", "hapke", "rahman"]

class P(SceneProp):
    id = "C15"
    quick, thorough = 20000, 150000
    rule = ("A random atmosphere lit from two directions in turn and viewed from the other: reflected radiance over the cosine of incidence has to be the same, and so has the transmitted radiance with the layers in "
            "reverse order over a black surface. Non-trivial: the directions differ and the scene scatters.")
    TOL = dict(DOUB_ADD=3e-4, SOS=1e-3)
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        trans = r.random() < .4
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., psa=False, solar=True, thermal=False, taus=False, umus=True,
                      kernels=[] if trans else [r.choice(KER)] if r.random() < .5 else None)
        if any(k in ("cox_munk", "li_dense", "li_sparse", "direct_and_diffuse") for k in s["kernels"]): s["kernels"] = ["lambertian"]; s["kernel"] = [dict(ampfac=.3, params=[])]
        t = gen.thetas(r, 2, zero=.03)
        if not s["n_out_thetas"]: s["n_out_thetas"] = 1
        s["n_out_thetas"] = 1; s["out_thetas"] = [t[0]]; s["theta_0"] = t[1]
        s["F_iso_top"] = s["F_iso_bot"] = 0.
        s["out_levels"] = [s["n_layers"] if trans else 0]; s["n_out_levels"] = 1
        if sv == "SOS": s["sos"] = [200, .001, 1e-11]
        return dict(scene=s, trans=trans)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if case["trans"] and s["kernels"]: return {}
        c = copy.deepcopy(s); c["theta_0"], c["out_thetas"] = s["out_thetas"][0], [s["theta_0"]]
        if near_node(s, 1e-4) or near_node(c, 1e-4) or c["theta_0"] == s["theta_0"]: return {}
        if case["trans"]: c["layers"] = c["layers"][::-1]
        p0 = s.get("phi_0", 0.)
        k = "I_m" if case["trans"] else "I_p"
        a = xr.run(self.lib, s, sv)[k][0, 0, :, 0] / math.cos(math.radians(s["theta_0"]))
        b = xr.run(self.lib, c, sv)[k][0, 0, :, 0] / math.cos(math.radians(c["theta_0"]))
        e = diff({k: a}, {k: b}, scale=max(float(np.max(np.abs(a))), float(np.max(np.abs(b))), floor(s)))
        need(e, self.TOL.get(sv, 1e-7), "%s: %s with beam and view exchanged" % (sv, "transmission" if case["trans"] else "reflection"))
        return {"err " + sv: e[0]}
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "transmission" if case["trans"] else "reflection"
        for k in case["scene"]["kernels"]: yield k
        yield from SceneProp.classify(self, case, st)
