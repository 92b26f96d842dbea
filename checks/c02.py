"""C02: results equal an independent reference model."""
from scn import *
import gen, ref

class P(SceneProp):
    id = "C02"
    quick, thorough = 3000, 150000
    rule = ("A random scene (scalar or vector; solar, thermal, isotropic sources; delta-M, TMS, pseudo-spherical beam; Lambertian surface; "
            "output at levels or optical depths, at quadrature or user angles) solved by the library and by an independent reference "
            "written for this purpose. Non-trivial: some layer scatters.")
    TOL, TOL_NODE = 1e-7, 2e-2
    def gen(self, r, i, tier):
        sv = [["EIG_BVP"], ["EIG_ADD"], ["EIG_BVP"], ["MEM_BVP"]][i % 4]
        s = gen.scene(r, sv, kernels=r.choice([[], ["lambertian"], ["lambertian"]]), max_layers=4, max_quad=6)
        return dict(scene=s)
    def check(self, case):
        s = case["scene"]
        x = xr.run(self.lib, s, s["solvers"][0], ("RADIANCE", "MEAN", "FLUX"))
        y = ref.solve(s)
        tol = self.TOL_NODE if near_node(s) else self.TOL
        sc = max(scale_of(x, y), floor(s))
        e = diff(x, y, ["I_p", "I_m"], sc)
        need(e, tol, "%s vs reference, radiance" % s["solvers"][0])
        f = diff(x, y, ["mean_p", "mean_m", "flux_p", "flux_m"], sc)
        need(f, tol, "%s vs reference, mean/flux" % s["solvers"][0])
        return {"err near node" if tol > self.TOL else "err": e[0], "err mean flux": f[0]}
    def nontrivial(self, case, st):
        return any(l["omega"] > .01 for l in case["scene"]["layers"])
