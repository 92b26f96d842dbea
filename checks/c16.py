"""C16: polarized transport contains scalar transport."""
from scn import *
import gen, lin, copy
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "SINGLE", "TWO_OS", "SOS"]

class P(SceneProp):
    id = "C16"
    quick, thorough = 20000, 150000
    rule = ("Three kinds of random scene: a phase matrix that does not polarize, which has to give the scalar radiances and no polarization; one without coupling to V, for which three and four Stokes parameters "
            "agree; and a Rayleigh atmosphere, whose degree of polarization does not exceed one. Non-trivial: the scene scatters.")
    TOL = dict(MEM_BVP=1e-6, PADE_ADD=1e-6, TWO_OS=1e-6, DOUB_ADD=1e-6, SOS=1e-6)
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        kind = r.choice(["scalar", "scalar", "v", "bound"])
        if kind == "bound" and sv == "SINGLE": kind = "v"
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., vector=True, **(dict(delta_m=False) if kind == "bound" else {}))
        if kind == "v" and s["n_stokes"] < 4: s["n_stokes"] = 4
        for l in s["layers"]:
            c = l["coef"]
            if kind == "scalar": c[4] = [0.] * len(c[4])
            if kind == "v": c[5] = [0.] * len(c[5])
            if kind == "bound": l["coef"] = gen.phase_vector(r, s["max_coef"], "ray")
        if kind == "bound":
            # Rayleigh layers need a non-negative expansion, which three coefficients and at least three Fourier terms give
            if s["n_quad"] < 2: s["n_quad"] = 2
            s["kernels"] = s["kernels"] and ["lambertian"]; s["kernel"] = [dict(ampfac=.2, params=[])] * len(s["kernels"])
            if "NO_AZIMUTHAL" in s["options"]: s["options"].remove("NO_AZIMUTHAL")
        if any(k == "cox_munk" for k in s["kernels"]): pass
        if r.random() < .3 and kind != "bound":
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2]))
            for d in s["derivs"]:
                for c in d["coef"]:
                    if kind == "scalar": c[4] = [0.] * len(c[4])
                    if kind == "v": c[5] = [0.] * len(c[5])
        return dict(scene=s, kind=kind)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]; kind = case["kind"]
        if near_node(s, 1e-4): return {}
        outs = ("RADIANCE",) if sv == "SINGLE" else ("RADIANCE", "MEAN", "FLUX")
        a = xr.run(self.lib, s, sv, outs); sc = max(scale_of(a), floor(s))
        if kind == "bound":
            e = 0.; where = None
            for k in ("I_p", "I_m"):
                v = a[k]; p = np.sqrt((v[..., 1:] ** 2).sum(-1)) - v[..., 0]
                e = max(e, float(p.max()) / sc)
                if not np.isfinite(v).all(): e = float("inf")
            need((e, "polarized part against I"), 1e-5 if sv in ("DOUB_ADD", "SOS") else 1e-7, "%s: degree of polarization of a Rayleigh atmosphere above one" % sv)
            return {"dop": e}
        c = copy.deepcopy(s)
        if kind == "scalar":
            c["n_stokes"] = 1; c["options"] = [o for o in c["options"] if not o.startswith("PHASE_MATRIX")]
            for l in c["layers"]: l["coef"] = l["coef"][:1]
            for d in c.get("derivs", ()): d["coef"] = [q[:1] for q in d["coef"]]
            n = 1
        else: c["n_stokes"] = n = 3
        b = xr.run(self.lib, c, sv, outs)
        w = {}
        for k, v in b.items():
            if k[0] != "I": w[k] = v; continue
            q = np.zeros_like(a[k]); q[..., :n] = v; w[k] = q
        e = diff(a, w, [k for k in a if not k.endswith("_l")], scale=sc)
        what = "%s: %d Stokes parameters of a phase matrix without %s against %d" % (sv, s["n_stokes"], "polarization" if n == 1 else "coupling to V", n)
        need(e, self.TOL.get(sv, 1e-8), what)
        kl = [k for k in a if k.endswith("_l")]
        el = diff(a, w, kl) if kl else (0., None)
        need(el, 1e-4, what + ", derivatives")
        return {"err": e[0], "err_l": el[0]}
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "kind " + case["kind"]
        yield from SceneProp.classify(self, case, st)
