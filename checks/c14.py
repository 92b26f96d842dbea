"""C14: azimuth symmetries."""
from scn import *
import gen, lin, copy
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "SINGLE", "TWO_OS", "SOS"]

class P(SceneProp):
    id = "C14"
    quick, thorough = 20000, 150000
    rule = ("A random scene solved as it is, with beam and view azimuths turned together, with full turns added, mirrored in the principal plane (U and V change sign), or with an overhead beam or none at all "
            "(no azimuth dependence). Non-trivial: some radiance depends on azimuth, or the scene is one of the last kind.")
    TOL = 1e-7
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]; low = "STREAM" in sv
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., **(dict(sfi=True, psa=False, tau_min=.01) if low else {}))
        if low:
            s["F_iso_top"] = s["F_iso_bot"] = 0.
            for l in s["layers"]: l["omega"] = max(l["omega"], .05)
        mode = r.choice(["turn", "turns", "mirror", "mirror", "overhead", "plane"])
        if "SOURCE_SOLAR" not in s["options"]: mode = "none"
        if mode == "overhead":
            s["theta_0"] = 0.
            if s["n_out_thetas"]: s["out_thetas"] = [t if t > .5 else 20. + t for t in s["out_thetas"]]
        if mode == "turns": s["phi_0"] = rf(r.uniform(0, 360), 4)
        d = r.random() < .3 and not low
        if d:
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2]))
        return dict(scene=s, mode=mode, by=rf(r.uniform(-180, 180), 4), k=[r.choice([-1, 1, 2]) for _ in range(4)])
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]; mode = case["mode"]; ns = s["n_stokes"]
        if near_node(s, 1e-4): return {}
        p0 = s.get("phi_0", 0.); ph = s["phis"]
        if mode == "overhead" or mode == "none": ph = [0., 37., 180.] + ph
        if mode == "plane": ph = [p0, p0 + 180.]
        a = xr.run(self.lib, s, sv, phis=ph)
        sc = max(scale_of(a), floor(s)); keys = list(a)
        sg = np.ones(ns)
        c = s; q = ph
        if mode == "turn": c = dict(s, phi_0=p0 + case["by"]); q = [v + case["by"] for v in ph]
        elif mode == "turns": c = dict(s, phi_0=p0 + 360. * case["k"][3]); q = [v + 360. * case["k"][k % 3] for k, v in enumerate(ph)]
        elif mode == "mirror": q = [2 * p0 - v for v in ph]; sg[2:] = -1.
        if mode in ("turn", "turns", "mirror"):
            b = xr.run(self.lib, c, sv, phis=q)
            b = {k: v * sg for k, v in b.items()}
            var = max(float(np.ptp(a[k], axis=-2).max()) / sc if len(ph) > 1 else 1. for k in ("I_p", "I_m"))
        elif mode == "plane":
            b = {k: v.copy() for k, v in a.items()}
            for v in b.values(): v[..., 2:] = 0.
            var = 1.
        else:
            b = {k: np.broadcast_to(v[..., :1, :], v.shape) for k, v in a.items()}
            var = 1.
            if mode == "overhead" and ns > 1: keys = []         # the polarization reference turns with the azimuth
        e = diff(b, a, [k for k in keys if not k.endswith("_l")], scale=sc)
        need(e, self.TOL, "%s, %s" % (sv, mode))
        kl = [k for k in keys if k.endswith("_l")]
        el = diff(b, a, kl) if kl else (0., None)
        need(el, 1e-7, "%s, %s, derivatives" % (sv, mode))
        return dict(err=e[0], err_l=el[0], var=var)
    def nontrivial(self, case, st):
        return st.get("var", 0.) > 1e-6
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "mode " + case["mode"]
        yield from SceneProp.classify(self, case, st)
