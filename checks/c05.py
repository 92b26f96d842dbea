"""C05: analytic derivatives equal the derivatives of the radiances."""
from scn import *
import gen, lin, ref

SOLV = ["EIG_BVP", "EIG_ADD", "EIG_BVP", "MEM_BVP", "PADE_ADD", "DOUB_ADD", "SINGLE", "EIG_BVP", "EIG_ADD", "TWO_OS", "SOS"]

def outs(sv):
    return ("RADIANCE",) if sv == "SINGLE" else ("RADIANCE", "MEAN", "FLUX")

def fd(lib, s, d, solver, h):
    o = {k: xr.run(lib, lin.shift(s, d, k * h), solver, outs(solver)) for k in (-4, -2, -1, 1, 2, 4)}
    out = {}
    for q in o[1]:
        f = {k: o[k][q] for k in o}
        a = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)
        b = (8 * (f[2] - f[-2]) - (f[4] - f[-4])) / (24 * h)
        out[q] = (a, b)
    return out

class P(SceneProp):
    id = "C05"
    quick, thorough = 6600, 120000
    rule = ("A random scene with one to four random directions in input space (thicknesses, albedos, phase coefficients, kernel factors and "
            "parameters, sources; all or single layers); one linearized run against fourth-order central differences of runs without "
            "derivatives. Non-trivial: some derivative is not zero and its difference quotients at two steps agree.")
    TOL = dict(DOUB_ADD=2e-3, SOS=2e-3)
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        kw = {}
        if sv == "SOS": kw = dict(tau_max=.3, max_layers=3)
        s = gen.scene(r, [sv], max_quad=6, tau_max=kw.pop("tau_max", 5.), max_layers=kw.pop("max_layers", 4), omega_min=.02, tau_min=5e-3)
        for l in s["layers"]:
            if l["omega"] > .99 and l["omega"] < 1.: l["omega"] = .99
        if r.random() < .12:
            # on an edge of the input space, where only one side can be visited
            lin.add_derivs(r, s)
            e = ([["levels_b", k] for k in range(s["n_layers"] + 1)] if "levels_b" in s else [])
            e += [[k] for k in ("F_iso_top", "F_iso_bot", "surface_b") if k in s] + [["ampfac", k] for k in range(len(s["kernels"]))]
            if not e: return dict(scene=s)
            e = r.sample(e, r.randint(1, min(3, len(e))))
            for q in e:
                for d in s["derivs"]:
                    v = gen.rf(r.uniform(-1, 1), 4) if r.random() < .7 else 0.
                    if q[0] == "ampfac": d.setdefault("ampfac", [0.] * len(s["kernels"]))[q[1]] = v
                    elif q[0] == "levels_b": d.setdefault("levels_b", [0.] * (s["n_layers"] + 1))[q[1]] = v
                    elif len(q) > 1: d[q[0]][q[1]] = v
                    else: d[q[0]] = v
            self.at(s, e, 0.)
            return dict(scene=s, edge=e)
        return dict(scene=lin.add_derivs(r, s))
    def at(self, s, e, v):
        for q in e:
            if q[0] == "omega": s["layers"][q[1]]["omega"] = v
            elif q[0] == "ampfac": s["kernel"][q[1]]["ampfac"] = v
            elif len(q) > 1: s[q[0]][q[1]] = v
            else: s[q[0]] = v
        return s
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        x = xr.run(self.lib, s, sv, outs(sv))
        with xr.X(self.lib, lin.shift(s, s["derivs"][0], 0.)) as y: base = y.setup().solve(sv, outs(sv))
        need(diff(base, x, list(base)), 1e-9, "results with and without derivatives, %s" % sv)
        sc = scale_of(base)
        if "edge" in case:
            # the derivatives are continuous up to the edge
            import copy
            y = xr.run(self.lib, self.at(copy.deepcopy(s), case["edge"], 1e-7), sv, outs(sv))
            dk = [k for k in x if k.endswith("_l")]
            big = max([1e-2] + [float(np.nanmax(np.abs(x[k]))) for k in dk if x[k].size])
            e = diff({k[:-2]: x[k] for k in dk}, {k[:-2]: y[k] for k in dk}, scale=big)
            need(e, 1e-4 if s["n_stokes"] == 1 else 2e-3, "%s derivatives on the edge %s against a step inside" % (sv, case["edge"]))
            return {"edge": e[0], "seen": 1}
        worst = 0.; seen = 0; unclear = 0
        tol = self.TOL.get(sv, 1e-5 if s["n_stokes"] == 1 else 1e-4 if sv == "PADE_ADD" else 2e-3)
        for j, d in enumerate(s["derivs"]):
            D = fd(self.lib, s, d, sv, 1e-3)
            size = max(max(float(np.nanmax(np.abs(D[q][0]))) for q in D), 1e-2 * sc)
            noise = max(float(np.nanmax(np.abs(D[q][0] - D[q][1]))) for q in D) / size
            if not noise <= tol: unclear += 1; continue
            lim = tol
            if any(k.startswith("li_") for k in s["kernels"]) and any(any(q) for q in d.get("params") or []):
                lim = max(tol, 2e-3)        # these kernels have square root kinks in their parameters
            for q in D:
                e = np.abs(x[q + "_l"][:, j] - D[q][0]) / size
                if not np.isfinite(e).all(): raise Fail("derivative %d (%s) of %s is not finite, %s" % (j, d["kind"], q, sv))
                m = float(e.max())
                if m > lim:
                    k = np.unravel_index(int(e.argmax()), e.shape)
                    raise Fail("%s derivative %d (%s) of %s%s: %.9g, difference quotient %.9g" % (sv, j, d["kind"], q, tuple(int(z) for z in k), x[q + "_l"][:, j][k], D[q][0][k]))
                worst = max(worst, m)
            if size > 2e-2 * sc or d["kind"] != "zero": seen += 1
        return {"err " + sv: worst, "seen": seen, "unclear": unclear}
    def nontrivial(self, case, st):
        return st.get("seen", 0) > 0
    def shrinks(self, case):
        if "edge" not in case:
            yield from SceneProp.shrinks(self, case); return
        for k in range(len(case["edge"])):
            if len(case["edge"]) > 1: yield dict(case, edge=case["edge"][:k] + case["edge"][k + 1:])
        s = case["scene"]
        for k in range(s["n_derivs"]):
            if s["n_derivs"] > 1: yield dict(case, scene=dict(s, n_derivs=s["n_derivs"] - 1, derivs=s["derivs"][:k] + s["derivs"][k + 1:]))
    def classify(self, case, st):
        if "edge" in case:
            for q in case["edge"]: yield "edge " + q[0]
        yield case["scene"]["solvers"][0]
        if st.get("unclear"): yield "unclear"
        for d in case["scene"]["derivs"]: yield "direction " + d["kind"]
        yield from SceneProp.classify(self, case, st)
