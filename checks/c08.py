"""C08: options that choose how a result is computed do not change it."""
from scn import *
import gen, lin

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "EIG_ADD", "DOUB_ADD", "MEM_BVP", "EIG_ADD", "SINGLE", "EIG_BVP", "TWO_OS", "SOS"]
ADD = ("EIG_ADD", "PADE_ADD", "DOUB_ADD")

def variant(r, s):
    """extra options whose only documented effect is on how the work is done"""
    o = []; sv = s["solvers"][0]
    for k in ("SAVE_LEG_POLYS", "SAVE_PHASE_MATS", "SAVE_LOCAL_R_T", "SAVE_TOTAL_R_T_S"):
        if r.random() < .35: o.append(k)
    add = sv in ADD
    k = r.random()
    if add and "CALC_DERIVS" in s["options"] and k < .4: o.append("STACK_REUSE_ADDING")
    elif k < .65: o.append("SAVE_LAYER_R_T_S")
    if add and s["n_out_levels"] == 1 and r.random() < .6:
        if s["out_levels"] == [s["n_layers"]] and "STACK_REUSE_ADDING" not in o: o.append("TOP_DOWN_ADDING")
        if s["out_levels"] == [0]: o.append("BOTTOM_UP_ADDING")
    if sv == "EIG_ADD" and s["n_stokes"] == 1 and not s["n_out_thetas"] and "SOURCE_SOLAR" in s["options"] and r.random() < .6: o.append("PART_SOL_GREENS")
    if r.random() < .25: o.append("FOUR_CONV_OLD")
    if r.random() < .25: o.append(r.choice(["UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"]))
    if s["n_stokes"] == 1 and r.random() < .2 and sv not in ("TWO_STREAM",): o.append("VECTOR")
    if not o: o.append("SAVE_PHASE_MATS")
    r.shuffle(o)
    return o

class P(SceneProp):
    id = "C08"
    quick, thorough = 6000, 150000
    rule = ("A random scene, with derivatives in two of three cases, solved with and without a random set of computing options; the instance with the options "
            "solves twice. Non-trivial: the scene scatters.")
    TOL, TOLD = 1e-8, 2e-6
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], max_quad=6, max_layers=5, tau_max=.3 if sv == "SOS" else 8.)
        if r.random() < .66:
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2, 3]))
        return dict(scene=s, extra=variant(r, s))
    def keys(self, o, up, dn):
        k = [q for q in o if not q.endswith("_l")]; kl = [q for q in o if q.endswith("_l")]
        f = lambda l: [q for q in l if (up or "_p" not in q) and (dn or "_m" not in q)]
        return f(k), f(kl)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        outs = ("RADIANCE",) if sv == "SINGLE" else ("RADIANCE", "MEAN", "FLUX")
        a = xr.run(self.lib, s, sv, outs)
        s2 = dict(s, options=s["options"] + case["extra"])
        st = {}
        only_up = "UPWELLING_OUTPUT" in case["extra"]; only_dn = "DOWNWELLING_OUTPUT" in case["extra"]
        with xr.X(self.lib, s2) as x:
            x.setup()
            for k in ("first", "second"):
                b = x.solve(sv, outs)
                kv, kl = self.keys(a, not only_dn, not only_up)
                e = diff(b, a, kv, scale=max(scale_of(a), floor(s)))
                need(e, self.TOL, "%s with %s, %s solution" % (sv, "+".join(case["extra"]), k))
                el = diff(b, a, kl) if kl else (0., None)
                need(el, self.TOLD, "%s with %s, derivatives, %s solution" % (sv, "+".join(case["extra"]), k))
                st["err"] = max(e[0], st.get("err", 0.)); st["err_l"] = max(el[0], st.get("err_l", 0.))
        return st
    def nontrivial(self, case, st):
        return "err" in st and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        for o in case["extra"]: yield "extra " + o
        yield from SceneProp.classify(self, case, st)
    def shrinks(self, case):
        for k in range(len(case["extra"])):
            if len(case["extra"]) > 1: yield dict(case, extra=case["extra"][:k] + case["extra"][k + 1:])
        for c in shrink_scene(case["scene"]): yield dict(case, scene=c)
