"""C12: energy balance and thermal equilibrium."""
from scn import *
import gen, lin, copy
from gen import rf
EPS = 1e-5

class P(SceneProp):
    id = "C12"
    quick, thorough = 20000, 150000
    rule = ("Three kinds of random scene: fluxes at optical depths inside the layers, whose difference has to be the absorbed minus emitted power integrated from the mean radiances; an isothermal enclosure, "
            "in which every radiance equals the emission; and a boundary balance: outgoing flux not above the incoming one without emission, equal to it when nothing absorbs. Non-trivial: the scene scatters.")
    def gen(self, r, i, tier):
        kind = ["divergence", "isothermal", "bounds"][i % 3]
        if kind == "divergence":
            sv = r.choice(["EIG_BVP", "EIG_BVP", "MEM_BVP"])
            s = gen.scene(r, [sv], max_quad=8, max_layers=3, tau_max=6., psa=False, taus=True)
            nl = s["n_layers"]; k = r.randrange(nl)
            x, w = np.polynomial.legendre.leggauss(12)
            t0 = sum(l["ltau"] for l in s["layers"][:k]); t = s["layers"][k]["ltau"]
            # a slab inside layer k; the slab's ends and twelve Gauss points in it
            a, b = sorted([r.uniform(0, 1), r.uniform(0, 1)])
            if r.random() < .3: a = 0.
            if b - a < .05: a, b = 0., .9
            import ref
            b = min(b, a + 8 * float(ref.gauss('norm' if 'QUAD_NORM_GAUS_LEG' in s['options'] else 'doub', s['n_quad'])[0].min()) / t)
            pts = [t0 + t * a] + [t0 + t * (a + (b - a) * (v + 1) / 2) for v in x] + [t0 + t * b]
            s["out_taus"] = [float(v) for v in pts]; s["n_out_levels"] = len(pts)
            return dict(scene=s, kind=kind, layer=k, a=a, b=b)
        if kind == "isothermal":
            sv = r.choice(["EIG_BVP", "EIG_ADD", "PADE_ADD", "DOUB_ADD"])
            s = gen.scene(r, [sv], max_quad=8, thermal=True, solar=False)
            B = rf(r.uniform(.1, 3), 4)
            s["levels_b"] = [B] * (s["n_layers"] + 1); s["surface_b"] = B; s["F_iso_top"] = B
            s["F_iso_bot"] = 0. if s["kernels"] else B
            return dict(scene=s, kind=kind, B=B)
        sv = r.choice(["EIG_BVP", "EIG_ADD", "PADE_ADD", "MEM_BVP", "SOS"])
        s = gen.scene(r, [sv], max_quad=8, thermal=False, psa=False, taus=False, tau_max=.3 if sv == "SOS" else 8., kernels=["lambertian"])
        s["out_levels"] = [0, s["n_layers"]]; s["n_out_levels"] = 2
        s["F_iso_bot"] = 0.
        cons = r.random() < .5
        if cons:
            for l in s["layers"]: l["omega"] = 1.
            s["kernel"][0]["ampfac"] = r.choice([0., 1., rf(r.uniform(0, 1), 4)])
        else: s["kernel"][0]["ampfac"] = rf(r.uniform(0, 1), 4)
        return dict(scene=s, kind=kind, cons=cons)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]; kind = case["kind"]
        if near_node(s, 1e-4): return {}
        if kind == "isothermal":
            a = xr.run(self.lib, s, sv, ("RADIANCE", "MEAN", "FLUX")); B = case["B"]
            I = np.zeros_like(a["I_p"]); I[..., 0] = B
            one = np.full(s["n_out_levels"], 1.)
            tol = 3e-4 if sv == "DOUB_ADD" else 1e-7
            e = diff(a, dict(I_p=I, I_m=I, mean_p=B / 2 * one, mean_m=B / 2 * one), ["I_p", "I_m", "mean_p", "mean_m"], scale=B)
            need(e, tol, "%s: isothermal enclosure at %g" % (sv, B))
            return {"iso " + sv: e[0]}
        a = xr.run(self.lib, s, sv, ("MEAN", "FLUX"))
        net = a["flux_m"] - a["flux_p"]; J = a["mean_p"] + a["mean_m"]
        sc = max(float(np.max(np.abs(a["flux_m"]))), float(np.max(np.abs(a["flux_p"]))), floor(s))
        if kind == "divergence":
            k = case["layer"]; l = s["layers"][k]; om = min(l["omega"], 1 - EPS)
            x, w = np.polynomial.legendre.leggauss(12)
            fr = case["a"] + (case["b"] - case["a"]) * (x + 1) / 2; dt = l["ltau"] * (case["b"] - case["a"])
            B = 0.
            if "SOURCE_THERMAL" in s["options"]: B = s["levels_b"][k] + (s["levels_b"][k + 1] - s["levels_b"][k]) * fr
            ab = float((w * 4 * np.pi * (1 - om) * (J[1:-1] - B)).sum() * dt / 2)
            e = abs(net[0] - net[-1] - ab) / sc
            need((e, "net %.12g to %.12g, absorbed %.12g" % (net[0], net[-1], ab)), 2e-6, "%s: flux difference over a slab against absorbed power" % sv)
            return {"div " + sv: e}
        alb = s["kernel"][0]["ampfac"]; nl = s["n_layers"]
        qf = (float(s["F_0"] * np.cos(np.radians(s["theta_0"])) if "SOURCE_SOLAR" in s["options"] else 0.))
        tol = 2e-4 if sv == "SOS" else 1e-6
        # the surface reflects the albedo of what arrives
        e = abs(a["flux_p"][1] - alb * a["flux_m"][1]) / sc
        need((e, "up %.12g, down %.12g, albedo %g" % (a["flux_p"][1], a["flux_m"][1], alb)), tol, "%s: flux reflected by a Lambertian surface" % sv)
        loss = float(net[0] - net[1])
        up = float(loss / sc)
        tt = sum(l["ltau"] for l in s["layers"]) * (1 + 0)
        if case["cons"]:
            need((abs(up), "net %.12g at the top, %.12g at the bottom" % (net[0], net[1])), tol + 4e-5 * (1 + 4 * tt), "%s: net flux through a conservative atmosphere" % sv)
        need((max(0., -up), "net %.12g at the top, %.12g at the bottom" % (net[0], net[1])), tol, "%s: an atmosphere without emission gains power" % sv)
        need((max(0., float(a["flux_p"][0] - a["flux_m"][0])) / sc, "up %.12g, down %.12g" % (a["flux_p"][0], a["flux_m"][0])), tol, "%s: more leaves than arrives" % sv)
        return {"loss": up, "srf": e}
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["kind"]; yield case["scene"]["solvers"][0]
        yield from SceneProp.classify(self, case, st)
    def shrinks(self, case):
        if case["kind"] == "divergence":
            s = case["scene"]
            for o in ("DELTA_M", "QUAD_NORM_GAUS_LEG", "SFI"):
                if o in s["options"] and not (o == "SFI" and s["n_out_thetas"]):
                    c = copy.deepcopy(case); c["scene"]["options"].remove(o)
                    if o == "DELTA_M" and "N_T_TMS" in s["options"]: continue
                    yield c
            return
        for c in shrink_scene(case["scene"]):
            if case["kind"] == "bounds" and (not c["kernels"] or c["n_out_levels"] != 2): continue
            if case["kind"] == "bounds":
                c["out_levels"] = [0, c["n_layers"]]
                if case["cons"] and any(l["omega"] != 1. for l in c["layers"]): continue
            if case["kind"] == "isothermal" and (c["F_iso_top"] != case["B"] or (not c["kernels"] and c["F_iso_bot"] != case["B"])): continue
            yield dict(case, scene=c)
