"""C18: setters store, getters return, invalid calls are refused and change nothing."""
from scn import *
import gen, api, math, copy
from xr import X, IERR, DERR

GROUPS = [["EIG_BVP"], ["EIG_ADD"], ["DOUB_ADD"], ["PADE_ADD"], ["SOS"], ["TWO_OS"], ["SINGLE"], ["MEM_BVP"], ["EIG_BVP", "MEM_BVP", "SINGLE"],
          ["EIG_ADD", "PADE_ADD", "DOUB_ADD"], ["EIG_BVP", "TWO_OS", "SINGLE"], ["EIG_ADD", "EIG_BVP", "SOS"]]

def scene(r, max_layers=4):
    g = r.choice(GROUPS)
    s = gen.scene(r, g, max_quad=4, max_layers=max_layers, tau_max=3.)
    if r.random() < .55:
        s["options"].append("CALC_DERIVS"); s["n_derivs"] = r.randint(1, 3)
    o = s["options"]
    if set(g) <= {"EIG_ADD", "PADE_ADD", "DOUB_ADD"} and r.random() < .4:
        if s["n_out_levels"] == 1:
            k = r.choice(["TOP_DOWN_ADDING", "BOTTOM_UP_ADDING"]); o.append(k); s["out_levels"] = [s["n_layers"] if k[0] == "T" else 0]
        elif "CALC_DERIVS" in o: o.append("STACK_REUSE_ADDING")
    if "STACK_REUSE_ADDING" not in o: o += [k for k in ["SAVE_LEG_POLYS", "SAVE_PHASE_MATS", "SAVE_LOCAL_R_T", "SAVE_LAYER_R_T_S", "SAVE_TOTAL_R_T_S"] if r.random() < .1]
    return s

def same(k, a, b):
    if b == "?": return True
    if a is None or b is None: return a is b
    if isinstance(b, list): return len(a) == len(b) and all(same(k, x, y) for x, y in zip(a, b))
    if k in ("theta_0", "out_thetas"):                       # held as a cosine
        return abs(math.cos(math.radians(a)) - math.cos(math.radians(b))) < 1e-14 and abs(a - b) < 1e-6 + 1e-12
    if k == "omega": return a == b or (b > 1 - 1.0001e-5 and 1 - 1.0001e-5 <= a <= 1)       # conservative scattering is moved off its singularity
    return a == b

def look(x, m, g, what):
    try: a = api.getv(x, m, g)
    except AssertionError as e: raise Fail("%s: %r: %s" % (what, g, e))
    b = m.get(g)
    if not same(g[1] if len(g) > 1 else g[0], a, b):
        raise Fail("%s: getter %r returns %r, expected %r" % (what, g, "an error" if a is None else a, "an error" if b is None else b))

CREATION = ["max_coef", "n_quad", "n_stokes", "n_derivs", "n_layers", "n_kernels", "n_out_levels", "n_out_thetas"]

class P(Prop):
    id = "C18"
    quick, thorough = 15000, 400000
    cpu_per_case = 120
    rule = "at least three accepted and two refused calls, each judged against the model of the instance, and a complete read-back of every value"
    def worker_setup(self): self.lib = the_lib()
    def gen(self, r, i, tier):
        s = scene(r)
        return dict(scene=s, ops=api.history(r, s, r.choice([4, 8, 15, 30])))
    def check(self, case):
        s = case["scene"]; m = api.Model(s); st = dict(ok=0, refused=0, solved=0, gets=0)
        with X(self.lib, s) as x:
            for k in CREATION:
                v = getattr(x.L, "xrtm_get_" + k)(x.h); e = len(s["kernels"]) if k == "n_kernels" else s[k]
                if v != e: raise Fail("created with %s %d, getter returns %d" % (k, e, v))
            for t, op in enumerate(case["ops"]):
                what = "step %d" % t
                if op[0] == "get":
                    look(x, m, op[1], what); st["gets"] += 1; continue
                rc = api.call(x, m, op)
                good = m.ok(op)
                name = "%s: %s" % (what, str(op)[:160])
                if good:
                    if rc: raise Fail("%s is valid but was refused (%d)" % (name, rc))
                    m.apply(op); st["ok"] += 1
                    if op[0] == "solve": st["solved"] += 1
                else:
                    if rc == 0: raise Fail("%s is invalid but was accepted" % name)
                    if rc != IERR: raise Fail("%s: error result is %d, documented is XRTM_INT_ERROR" % (name, rc))
                    st["refused"] += 1
                if t % 5 == 4:
                    for g in api.all_gets(m): look(x, m, g, "after " + name)
            for g in api.all_gets(m): look(x, m, g, "at the end")
        return st
    def nontrivial(self, case, st): return st["ok"] >= 3 and st["refused"] >= 2
    def shrinks(self, case):
        o = case["ops"]; n = len(o)
        k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                yield dict(case, ops=o[:a] + o[a + k:])
            k //= 2
    def classify(self, case, st):
        yield "solved" if st["solved"] else "not solved"
        yield "derivatives" if case["scene"]["n_derivs"] else "no derivatives"
        yield "kernels" if case["scene"]["kernels"] else "no kernels"
        if st["refused"] > 10: yield "more than ten refused calls"
