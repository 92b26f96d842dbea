"""C19: no sequence of calls makes the library touch memory it does not own, compute undefined values or lose memory."""
from scn import *
import gen, api, copy, lin
import c18, c07, c24

def cost(s):
    """an adjoint solution is as many solutions as there are values to differentiate"""
    if s["solvers"][0] == "SINGLE": return 0
    n = (s["n_quad"] + (0 if "SFI" in s["options"] else s["n_out_thetas"])) * s["n_stokes"]
    f = 1 if "NO_AZIMUTHAL" in s["options"] else min(s["max_coef"], 2 * s["n_quad"])
    return n ** 3 * s["n_layers"] * f * s["n_out_levels"] * (s["n_out_thetas"] or s["n_quad"]) * len(s["phis"]) * s["n_stokes"] * 2

class P(Prop):
    id = "C19"
    quick, thorough = 24000, 400000
    sanitized = True
    builds = [("asan", ("src", "misc"))]
    cpu_per_case = 300
    rule = "a history with at least one solution, run under the address and undefined-behaviour sanitizers, with the allocations counted"
    def worker_setup(self):
        self.lib = the_lib("asan", "libvxm.so")
        self.lib.L.vxm_live.restype = xr.C.c_long
    def gen(self, r, i, tier):
        if i % 2:
            s = c18.scene(r)
            return dict(kind="calls", scene=s, ops=api.history(r, s, r.choice([4, 8, 15])))
        if i % 8 == 0:
            while True:
                c = c24.P().gen(r, i // 8, tier)
                if cost(c["scene"]) < 4e6: return dict(kind="adjoint", ops=[], **c)
        c = c07.P().gen(r, i // 2, tier)
        return dict(kind="inputs", scene=c["scene"], ops=c["ops"])
    def check(self, case):
        n0 = self.lib.L.vxm_live()
        st = getattr(self, case["kind"])(case)
        n1 = self.lib.L.vxm_live()
        if n1 != n0: raise Fail("after the instance was destroyed %d allocations are left" % (n1 - n0))
        return st
    def calls(self, case):
        s = case["scene"]; m = api.Model(s); n = 0
        with xr.X(self.lib, s) as x:
            for op in case["ops"]:
                if op[0] == "get":
                    try: api.getv(x, m, op[1])
                    except AssertionError: pass
                    continue
                rc = api.call(x, m, op)
                if rc == 0 and m.ok(op):
                    m.apply(op); n += op[0] == "solve"
        return dict(solves=n)
    def inputs(self, case):
        s = copy.deepcopy(case["scene"]); n = 0
        with xr.X(self.lib, s) as x:
            x.setup(); dirty = False
            for o in case["ops"]:
                if o[0] == "solve":
                    if dirty and x.nd: x.call("xrtm_update_varied_layers"); dirty = False
                    x.solve(o[1], o[2], phis=o[3]); n += 1
                else:
                    c07.do(x, s, o); c07.apply(s, o)
                    if o[0].startswith("d_"): dirty = True
        return dict(solves=n)
    def adjoint(self, case):
        n = 0; rev = lambda c: dict(c, options=["REVERSE_DERIVS"] + c["options"])
        with xr.X(self.lib, rev(case["scene"])) as x:
            for c in (case["scene"], case.get("then")):
                if c is None: break
                x.s = rev(c); x.setup()
                try: x.solve(c["solvers"][0], ("RADIANCE",), which=12); n += 1
                except xr.XErr: pass
        return dict(solves=n)
    def nontrivial(self, case, st): return st["solves"] > 0
    def shrinks(self, case):
        if case.get("then"): yield dict(case, then=None)
        ops = case["ops"]; n = len(ops); k = n // 2
        while k >= 1:
            for a in range(0, n, k): yield dict(case, ops=ops[:a] + ops[a + k:])
            k //= 2
    def classify(self, case, st):
        yield case["kind"]
        for sv in case["scene"]["solvers"]: yield sv
        if case["scene"]["n_derivs"]: yield "derivatives"
        if case["scene"]["n_stokes"] > 1: yield "vector"
