"""C03: the two-, four- and six-stream solvers are the general solution at 1, 2 and 3 streams."""
from scn import *
import gen, copy

class P(SceneProp):
    id = "C03"
    quick, thorough = 40000, 1000000
    rule = ("A random scalar scene with one, two or three Gauss points per hemisphere, solved by the closed-form solver and by the general "
            "eigenmatrix solver (EIG_BVP), on separate instances or on one in either order; in a third of the cases the source function "
            "is integrated for user angles. Non-trivial: some layer scatters (omega > 0.01).")
    LOW = ["TWO_STREAM", "FOUR_STREAM", "SIX_STREAM"]
    TOL = 1e-7
    def gen(self, r, i, tier):
        low = self.LOW[i % 3]
        s = gen.scene(r, [low, "EIG_BVP"], max_layers=6, umus=r.random() < .35,
                      kernels=[r.choice(["rahman", "hapke", "ross_thick", "cox_munk", "roujean"])] if r.random() < .25 else None)
        for l in s["layers"]:
            # only phase functions whose quadrature sum is one too (a strongly peaked, truncated one has growing solutions)
            k = r.random(); n = s["max_coef"]
            if k < .4: c = gen.hg(r.choice([-1, 1, 1]) * r.uniform(.05, .8), n)
            else:
                z = r.choice([.2, .5, 1.])
                c = [1.] + [(2 * j + 1) * r.choice([-1, 1]) * r.uniform(.02, .3) ** (.5 * j) * (r.random() < z) for j in range(1, n)]
                if r.random() < .3: c = c[:r.randint(1, n)]
            l["coef"] = [[gen.rf(v, 9) for v in c]]
            if r.random() < .05: l["omega"] = 0.
        return dict(scene=s, one=r.choice([0, 1, -1]))       # separate instances, or one in either order
    def check(self, case):
        s = case["scene"]
        outs = ("RADIANCE", "MEAN", "FLUX")
        low = s["solvers"][0]
        if case["one"]:
            with xr.X(self.lib, s) as i:
                i.setup()
                o = {k: i.solve(k, outs) for k in s["solvers"][::case["one"]]}
            x, y = o[low], o["EIG_BVP"]
        else:
            x = xr.run(self.lib, dict(s, solvers=[low]), low, outs)
            y = xr.run(self.lib, dict(s, solvers=["EIG_BVP"]), "EIG_BVP", outs)
        e = diff(x, y, keys=["I_p", "I_m"])
        need(e, self.TOL, "%s vs EIG_BVP radiance" % low)
        f = diff(x, y, keys=["mean_p", "mean_m", "flux_p", "flux_m"])
        need(f, self.TOL, "%s vs EIG_BVP mean/flux" % low)
        return {"err %s" % low: e[0], "mf %s" % low: f[0]}
    def nontrivial(self, case, st):
        return any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        yield ["separate instances", "one instance", "one instance, EIG_BVP first"][case["one"]]
        yield from SceneProp.classify(self, case, st)
