"""C13: mean radiances and fluxes are the angular integrals of the radiances plus the beam."""
from scn import *
import gen, copy, lin, ref, math
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "TWO_OS", "SOS"]

class P(SceneProp):
    id = "C13"
    quick, thorough = 20000, 100000
    rule = ("A random scene at quadrature angles and enough equally spaced azimuths for an exact azimuthal mean; mean radiances and fluxes against the quadrature sums of the radiances and the attenuated beam "
            "(plane-parallel or Chapman path computed here); the same for their derivatives in a third of the scenes. Non-trivial: a source is on and the scene scatters.")
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., umus=False, tms=False)
        s.pop("phis")
        if sv not in ("TWO_OS",) and r.random() < .35:
            for l in s["layers"]: l["omega"] = min(max(l["omega"], 1e-3), .999)
            lin.add_derivs(r, s, nd=r.choice([1, 1, 2]))
        return dict(scene=s, a0=rf(r.uniform(0, 60), 4))
    def check(self, case):
        s = dict(case["scene"]); sv = s["solvers"][0]; o = s["options"]
        if near_node(s, 1e-4): return {}
        nf = s["max_coef"] if s["max_coef"] <= 2 * s["n_quad"] else 2 * s["n_quad"]
        n = 1 if "NO_AZIMUTHAL" in o else max(nf, 2)
        s["phis"] = [case["a0"] + 360. * k / n for k in range(n)]
        a = xr.run(self.lib, s, sv, ("RADIANCE", "MEAN", "FLUX"))
        qx, qw = ref.gauss("norm" if "QUAD_NORM_GAUS_LEG" in o else "doub", s["n_quad"])
        I = {k: a["I_" + k][..., 0].mean(axis=2) for k in "pm"}
        w = dict(mean_p=(qw * I["p"]).sum(1) / 2, mean_m=(qw * I["m"]).sum(1) / 2, flux_p=2 * np.pi * (qw * qx * I["p"]).sum(1), flux_m=2 * np.pi * (qw * qx * I["m"]).sum(1))
        if "SOURCE_SOLAR" in o:
            mu0 = math.cos(math.radians(s["theta_0"])); b = self.beam(s)
            w["mean_m"] = w["mean_m"] + s["F_0"] * b / (4 * np.pi); w["flux_m"] = w["flux_m"] + s["F_0"] * mu0 * b
        e = diff(a, w, list(w), scale=max(scale_of(w), floor(s)))
        need(e, 1e-9, "%s: angular integrals of the radiances" % sv)
        if "CALC_DERIVS" not in o: return {"err": e[0]}
        L = {k: a["I_%s_l" % k][..., 0].mean(axis=3) for k in "pm"}
        v = dict(mean_p_l=(qw * L["p"]).sum(2) / 2, mean_m_l=(qw * L["m"]).sum(2) / 2, flux_p_l=2 * np.pi * (qw * qx * L["p"]).sum(2), flux_m_l=2 * np.pi * (qw * qx * L["m"]).sum(2))
        if "SOURCE_SOLAR" in o:
            h = 1e-4; b = np.array([(8 * (self.beam(lin.shift(s, d, h)) - self.beam(lin.shift(s, d, -h))) - (self.beam(lin.shift(s, d, 2 * h)) - self.beam(lin.shift(s, d, -2 * h)))) / (12 * h) for d in s["derivs"]]).T
            v["mean_m_l"] = v["mean_m_l"] + s["F_0"] * b / (4 * np.pi); v["flux_m_l"] = v["flux_m_l"] + s["F_0"] * mu0 * b
        e2 = diff(a, v, list(v), scale=max(scale_of(w), floor(s)))
        need(e2, 1e-6, "%s: angular integrals of the derivatives" % sv)
        return {"err": e[0], "errd": e2[0]}
    def beam(self, s):
        o = s["options"]
        beam = np.zeros(s["n_out_levels"])
        if "SOURCE_SOLAR" in o:
            raw = [l["ltau"] for l in s["layers"]]; t = []
            for l in s["layers"]:
                f = 0.
                if "DELTA_M" in o and len(l["coef"][0]) > 2 * s["n_quad"]: f = l["coef"][0][2 * s["n_quad"]] / (4 * s["n_quad"] + 1)
                t.append(l["ltau"] * (1 - min(l["omega"], 1 - 1e-5) * f))
            Tb, sec = ref.beam(s, t)
            if "OUTPUT_AT_TAUS" in o:
                c = np.concatenate([[0.], np.cumsum(raw)])
                for i, q in enumerate(s["out_taus"]):
                    k = min(max(int(np.searchsorted(c, q, side="right")) - 1, 0), len(raw) - 1)
                    beam[i] = Tb[k] * math.exp(-sec[k] * (q - c[k]) * t[k] / raw[k])
            else: beam = np.array([Tb[k] for k in s["out_levels"]])
        return beam
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        yield from SceneProp.classify(self, case, st)
