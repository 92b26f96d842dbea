"""C07: results depend on the current inputs only, not on how the instance came to hold them."""
from scn import *
import gen, lin, copy
from gen import rf
from xr import darr, dp, i32

GROUPS = [["EIG_BVP"], ["EIG_ADD"], ["EIG_BVP", "EIG_ADD"], ["EIG_BVP", "MEM_BVP", "SINGLE"], ["EIG_ADD", "PADE_ADD"], ["PADE_ADD"], ["EIG_BVP", "TWO_OS"],
          ["EIG_BVP", "SINGLE"], ["EIG_ADD", "DOUB_ADD"], ["SOS", "EIG_ADD"], ["MEM_BVP"], ["EIG_ADD", "EIG_BVP", "SINGLE", "TWO_OS"]]
SAVES = ["SAVE_LEG_POLYS", "SAVE_PHASE_MATS", "SAVE_LOCAL_R_T", "SAVE_TOTAL_R_T_S"]

def new_layer(r, s, i):
    l = gen.scene(r, s["solvers"], max_layers=1, n_quad=s["n_quad"])["layers"][0]
    return l

def history(r, s, length, taumax, only=None):
    """a list of operations; cur follows the inputs"""
    cur = copy.deepcopy(s); ops = []
    nl, nd = s["n_layers"], s["n_derivs"]
    th = "SOURCE_THERMAL" in s["options"]; so = "SOURCE_SOLAR" in s["options"]
    om = lambda: r.choice([1., .01 if th else 0.]) if r.random() < .06 and not nd else rf(r.uniform(.05, .99), 5)
    tau = lambda: gen.logu(r, 2e-3, taumax)
    def coef(i):
        return gen.phase_vector(r, s["max_coef"]) if s["n_stokes"] > 1 else [gen.phase_scalar(r, s["max_coef"])]
    def dcoef(c):
        q = [[rf(r.uniform(-1, 1) * v, 6) for v in e] for e in c]; q[0][0] = 0.; return q
    def put(o): ops.append(o); apply(cur, o)
    kinds = ["ltau", "omega", "coef", "ltau", "omega"]
    if s["n_out_thetas"]: kinds += ["out_thetas"] * 2
    if so: kinds += ["theta_0", "theta_0", "phi_0", "F_0"]
    if "PSA" in s["options"]: kinds += ["levels_z", "planet_r"]
    if th: kinds += ["levels_b", "surface_b"]
    kinds += ["F_iso_top", "F_iso_bot"]
    if s["kernels"]: kinds += ["ampfac", "ampfac"]
    if any(k["params"] for k in s["kernel"]): kinds += ["params"] * 2
    if "user_defined" in s["kernels"]: kinds += ["func"] * 2
    if "TOP_DOWN_ADDING" not in s["options"] and "BOTTOM_UP_ADDING" not in s["options"]: kinds += ["out"] * 2
    if nd: kinds += ["d_ltau", "d_omega", "d_coef", "d_kernel", "d_source", "d_zero"] + ["d_vary"] * 5
    if "PADE_ADD" in s["solvers"]: kinds += ["pade"]
    if "DOUB_ADD" in s["solvers"]: kinds += ["doub_d_tau"]
    kinds += ["clear", "nothing"]
    if only is not None and (not only or not nd): only = [r.choice(kinds)]
    if only: kinds = only
    for n in range(length):
        for _ in range(r.choice([1, 1, 1, 2, 3]) if not only else min(n, 1)):
            k = r.choice(kinds); i = r.randrange(nl); j = r.randrange(nd) if nd else 0
            if k == "ltau":
                if r.random() < .7: put(["ltau", i, tau()])
                else: put(["ltau_n", [tau() for _ in range(nl)]])
                if "out_taus" in cur:
                    tt = sum(l["ltau"] for l in cur["layers"])
                    if cur["out_taus"][-1] >= tt: put(["out_taus", taus(r, cur)])
            elif k == "omega":
                if r.random() < .7: put(["omega", i, om()])
                else: put(["omega_n", [om() for _ in range(nl)]])
            elif k == "coef":
                # the number of coefficients may change, so linearized coefficients are given again
                idx = [i] if r.random() < .7 else list(range(nl))
                cs = [coef(q) for q in idx]
                put(["coef", i, cs[0]] if len(idx) == 1 and idx == [i] and r.random() < .9 else ["coef_n", cs if len(idx) == nl else [coef(q) for q in range(nl)]])
                idx = [i] if ops[-1][0] == "coef" else range(nl)
                for q in idx:
                    for m in range(nd): put(["d_coef", q, m, dcoef(cur["layers"][q]["coef"])])
            elif k == "out_thetas": put([k, gen.thetas(r, s["n_out_thetas"])])
            elif k == "theta_0": put([k, 0. if r.random() < .1 else rf(r.uniform(0, 84), 5)])
            elif k == "phi_0": put([k, rf(r.uniform(0, 360), 4)])
            elif k == "F_0": put([k, rf(r.uniform(.2, 5), 4)])
            elif k == "planet_r": put([k, r.choice([6371., 3390., 1737., 60000.])])
            elif k == "levels_z":
                z = [0.]
                for _ in range(nl): z.append(rf(z[-1] + r.uniform(.5, 20), 7))
                put([k, z[::-1]])
            elif k == "levels_b": put([k, [rf(r.uniform(0, 2), 4) for _ in range(nl + 1)]])
            elif k == "surface_b": put([k, rf(r.uniform(0, 2), 4)])
            elif k in ("F_iso_top", "F_iso_bot"): put([k, r.choice([0., rf(r.uniform(0, 2), 4)])])
            elif k == "ampfac":
                q = r.randrange(len(s["kernels"])); put([k, q, rf(r.uniform(0, .4 if s["kernels"][q] != "ross_thin" else .1) / len(s["kernels"]), 4)])
            elif k == "func":
                q = r.choice([q for q, w in enumerate(s["kernels"]) if w == "user_defined"]); put([k, q, r.choice([0, 1])])
            elif k == "params":
                q = r.choice([q for q, w in enumerate(s["kernel"]) if w["params"]])
                p = gen.brdf_kernel(r, s["kernels"][q])["params"]
                if r.random() < .5: put(["params", q, p])
                else:
                    m = r.randrange(len(p)); put(["params_1", q, m, p[m]])
            elif k == "out":
                if "out_taus" in cur: put(["out_taus", taus(r, cur)])
                elif set(s["solvers"]) & {"EIG_ADD", "PADE_ADD", "DOUB_ADD", "SOS", "TWO_OS"}:
                    if s["n_out_levels"] == 1: put(["out_levels", [r.choice([0, nl])]])
                else: put(["out_levels", sorted(r.sample(range(nl + 1), s["n_out_levels"]))])
            elif k == "pade": put(["pade", [r.randint(cur["pade"][0], cur["pade"][0] + 2), r.choice([6, 7])] if r.random() < .5 else [r.randint(0, 6), r.randint(1, 5)]])
            elif k == "doub_d_tau": put([k, r.choice([1e-6, 1e-5, 1e-7])])
            elif k in ("d_ltau", "d_omega"):
                f = r.choice([0., 1., 1.]); v = lambda: rf(f * r.uniform(-1, 1), 4)
                form = r.choice(["11", "11", "n1", "1n", "nn"])
                put([k, form, i, j, {"11": v, "n1": lambda: [v() for _ in range(nl)], "1n": lambda: [v() for _ in range(nd)], "nn": lambda: [[v() for _ in range(nd)] for _ in range(nl)]}[form]()])
            elif k == "d_coef":
                c = dcoef(cur["layers"][i]["coef"])
                if r.random() < .3: c = [[0.] * len(e) for e in c]
                put(["d_coef", i, j, c])
            elif k == "d_kernel" and s["kernels"]:
                q = r.randrange(len(s["kernels"]))
                if s["kernel"][q]["params"] and r.random() < .5: put(["d_params", q, j, [rf(r.choice([0., 1.]) * r.uniform(-.1, .1), 4) for _ in s["kernel"][q]["params"]]])
                else: put(["d_ampfac", q, j, rf(r.choice([0., 1.]) * r.uniform(-1, 1), 4)])
            elif k == "d_source":
                c = ["F_iso_top", "F_iso_bot"] + (["surface_b", "levels_b", "levels_b"] if th else [])
                q = r.choice(c); v = lambda: rf(r.choice([0., 1.]) * r.uniform(-1, 1), 4)
                put(["d_source", q, j, v() if q != "levels_b" else [v() for _ in range(nl + 1)]])
            elif k == "d_vary":
                # new values for some of what varies already, so that the set of what varies stays
                D = cur["derivs"][j]; nw = lambda v: rf(v * r.choice([-1, 1]) * r.uniform(.3, 2), 6); groups = []
                for q in range(nl):
                    for w in ("ltau", "omega"):
                        if D[w][q]: groups.append(["d_" + w, "11", q, j, nw(D[w][q])])
                    if any(v for e in D["coef"][q] for v in e): groups.append(["d_coef", q, j, [[nw(v) for v in e] for e in D["coef"][q]]])
                for q in range(len(s["kernels"])):
                    if D.get("ampfac") and D["ampfac"][q]: groups.append(["d_ampfac", q, j, nw(D["ampfac"][q])])
                    if D.get("params") and any(D["params"][q]): groups.append(["d_params", q, j, [nw(v) for v in D["params"][q]]])
                src = [["d_source", w, j, nw(D[w])] for w in ("F_iso_top", "F_iso_bot", "surface_b") if D.get(w)]
                if D.get("levels_b") and any(D["levels_b"]): src += [["d_source", "levels_b", j, [nw(v) for v in D["levels_b"]]]] * 3
                if src and r.random() < .5: groups = src
                for o in r.sample(groups, min(len(groups), r.choice([1, 1, 2]))): put(list(o))
            elif k == "d_zero":
                for q in range(nl):
                    put(["d_ltau", "11", q, j, 0.]); put(["d_omega", "11", q, j, 0.]); put(["d_coef", q, j, [[0.] * len(e) for e in cur["layers"][q]["coef"]]])
            elif k == "clear": put(["clear"])
        sv = r.choice(s["solvers"])
        o = ["RADIANCE"] if sv == "SINGLE" else r.choice([["RADIANCE"], ["RADIANCE"], ["RADIANCE", "MEAN", "FLUX"], ["FLUX"], ["MEAN"]])
        ops.append(["solve", sv, o, [rf(r.uniform(0, 360), 4) for _ in range(r.choice([1, 1, 2, 3]))]])
    for o in ops:
        f = dict(d_coef=["n1", "1n", "nn"], d_ampfac=["n"], d_params=["11", "n1", "nn"], d_source=["n"]).get(o[0])
        if f and r.random() < .5: o.append(r.choice(f))
    return ops

def taus(r, s):
    tt = sum(l["ltau"] for l in s["layers"]); c = set()
    while len(c) < s["n_out_levels"]: c.add(r.choice([0., rf(r.uniform(0, tt * .999), 8)]))
    return sorted(c)

def apply(s, o):
    """the operation's meaning for the scene"""
    k = o[0]; D = s.get("derivs")
    if k == "ltau": s["layers"][o[1]]["ltau"] = o[2]
    elif k == "omega": s["layers"][o[1]]["omega"] = o[2]
    elif k == "coef": s["layers"][o[1]]["coef"] = o[2]
    elif k in ("ltau_n", "omega_n", "coef_n"):
        for l, v in zip(s["layers"], o[1]): l[k[:-2]] = v
    elif k == "ampfac": s["kernel"][o[1]]["ampfac"] = o[2]
    elif k == "params": s["kernel"][o[1]]["params"] = list(o[2])
    elif k == "params_1": s["kernel"][o[1]]["params"][o[2]] = o[3]
    elif k in ("d_ltau", "d_omega"):
        q = k[2:]; i, j, v = o[2], o[3], o[4]
        if o[1] == "11": D[j][q][i] = v
        elif o[1] == "n1": D[j][q] = list(v)
        elif o[1] == "1n":
            for m in range(len(D)): D[m][q][i] = v[m]
        else:
            for m in range(len(D)): D[m][q] = [v[l][m] for l in range(s["n_layers"])]
    elif k == "d_coef": D[o[2]]["coef"][o[1]] = o[3]
    elif k == "d_ampfac": D[o[2]].setdefault("ampfac", [0.] * len(s["kernels"]))[o[1]] = o[3]
    elif k == "d_params": D[o[2]].setdefault("params", [[0.] * len(q["params"]) for q in s["kernel"]])[o[1]] = o[3]
    elif k == "d_source": D[o[2]][o[1]] = o[3]
    elif k == "func": s.setdefault("func", {})[str(o[1])] = o[2]
    elif k in ("clear", "solve"): pass
    else: s[k] = o[1]

def do(x, s, o):
    """the operation through the API"""
    k = o[0]
    if k in ("ltau", "omega"): x.call("xrtm_set_%s_1" % k, o[1], o[2])
    elif k in ("ltau_n", "omega_n"): x.setd(k, o[1])
    elif k == "coef": x.set_coef(o[1], o[2])
    elif k == "coef_n":
        n = [len(c[0]) for c in o[1]]; mc = x.s["max_coef"]
        a = np.zeros((len(n), x.nelem, mc))
        for i, c in enumerate(o[1]): a[i, :, :n[i]] = c
        a = darr(a); x.call("vx_set_coef_n", (i32 * len(n))(*n), dp(a), len(n), x.nelem, mc)
    elif k == "ampfac": x.call("xrtm_set_kernel_ampfac", o[1], o[2])
    elif k == "params": x.call("xrtm_set_kernel_params_n", o[1], dp(darr(o[2])))
    elif k == "params_1": x.call("xrtm_set_kernel_params_1", o[1], o[2], o[3])
    elif k in ("d_ltau", "d_omega"):
        q = "_set_%s_l_%s" % (k[2:], o[1])
        if o[1] == "11": x.call("xrtm" + q, o[2], o[3], o[4])
        elif o[1] == "n1": x.call("xrtm" + q, o[3], dp(darr(o[4])))
        elif o[1] == "1n": x.call("xrtm" + q, o[2], dp(darr(o[4])))
        else: a = darr(o[4]); x.call("vx" + q, dp(a), a.shape[0], a.shape[1])
    elif k in ("d_coef", "d_ampfac", "d_params", "d_source") and len(o) == 5: do_form(x, s, o)
    elif k == "d_coef":
        a = x.coef_arr(o[3]); x.call("vx_set_coef_l_11", o[1], o[2], dp(a), x.nelem, a.shape[1])
    elif k == "d_ampfac": x.call("xrtm_set_kernel_ampfac_l_1", o[1], o[2], o[3])
    elif k == "d_params": x.call("xrtm_set_kernel_params_l_1n", o[1], o[2], dp(darr(o[3])))
    elif k == "d_source":
        if o[1] == "levels_b": x.call("xrtm_set_levels_b_l_1", o[2], dp(darr(o[3])))
        else: x.call("xrtm_set_%s_l_1" % o[1], o[2], o[3])
    elif k == "func": x.call("vx_set_user_kernel_2" if o[2] else "vx_set_user_kernel", o[1])
    elif k == "clear": x.L.xrtm_clear_saved(x.h)
    else: x.set_scalar(k, o[1])

def do_form(x, s, o):
    """the setters for all layers, all derivatives or both, given what the scene has after the operation"""
    k, f = o[0], o[4]; D = s["derivs"]; nd, nl, ne = len(D), s["n_layers"], x.nelem
    if k == "d_coef":
        c = [[x.coef_arr(D[m]["coef"][i]) for m in range(nd)] for i in range(nl)]
        mc = s["max_coef"]
        def cat(l):
            a = np.zeros((len(l), ne, mc))
            for q, v in zip(a, l): q[:, :v.shape[1]] = v[:, :mc]
            return darr(a)
        if f == "n1": a = cat([c[i][o[2]] for i in range(nl)]); x.call("vx_set_coef_l_n1", o[2], dp(a), nl, ne, mc)
        elif f == "1n": a = cat(c[o[1]]); x.call("vx_set_coef_l_1n", o[1], dp(a), nd, ne, mc)
        else: a = cat([v for q in c for v in q]); x.call("vx_set_coef_l_nn", dp(a), nl, nd, ne, mc)
    elif k == "d_ampfac":
        a = darr([d.get("ampfac", [0.] * len(s["kernels"]))[o[1]] for d in D]); x.call("xrtm_set_kernel_ampfac_l_n", o[1], dp(a))
    elif k == "d_params":
        n = len(s["kernel"][o[1]]["params"])
        P = [[float(v) for v in (d.get("params", [[]] * len(s["kernels"]))[o[1]] or [0.] * n)] for d in D]
        if f == "11":
            for m in range(n): x.call("xrtm_set_kernel_params_l_11", o[1], o[2], m, P[o[2]][m])
        elif f == "n1":
            for m in range(n): a = darr([q[m] for q in P]); x.call("xrtm_set_kernel_params_l_n1", o[1], m, dp(a))
        else: a = darr([q + [0.] * (4 - n) for q in P]); x.call("vx_set_kernel_params_l_nn", o[1], dp(a), nd, 4)
    elif o[1] == "levels_b":
        a = darr([[d.get("levels_b", [0.] * (nl + 1))[i] for d in D] for i in range(nl + 1)]); x.call("vx_set_levels_b_l_n", dp(a), nl + 1, nd)
    else: a = darr([d.get(o[1], 0.) for d in D]); x.call("xrtm_set_%s_l_n" % o[1], dp(a))

def varying(s):
    """which derivative varies what: the library has to be told when this changes"""
    nz = lambda v: any(nz(q) for q in v) if isinstance(v, list) else v != 0.
    return [[[nz([d["ltau"][i], d["omega"][i]]) or nz(d["coef"][i]) for i in range(s["n_layers"])], nz([d.get("ampfac", []), d.get("params", [])]),
             [nz(v) for v in d.get("levels_b", [])], nz(d.get("surface_b", 0.)), nz(d.get("F_iso_top", 0.)), nz(d.get("F_iso_bot", 0.))] for d in s.get("derivs", [])]

class P(SceneProp):
    id = "C07"
    quick, thorough = 16000, 400000
    rule = ("One instance (random options, a third with saved intermediate results, half with derivatives) goes through a random history of input changes and solutions; after every solution a "
            "fresh instance with the current inputs solves the same. Non-trivial: at least two solutions with a change between them.")
    TOL, TOLD = 1e-9, 1e-7
    def gen(self, r, i, tier):
        focus = i % 9 == 4                                # one kind of change at a time between solutions that keep as much as they may
        g = r.choice([["EIG_ADD"], ["EIG_ADD"], ["PADE_ADD"], ["EIG_ADD", "PADE_ADD"], ["EIG_BVP"], ["EIG_ADD", "EIG_BVP"], ["MEM_BVP"]]) if focus else GROUPS[i % len(GROUPS)]; sos = "SOS" in g
        s = gen.scene(r, g, max_quad=5, max_layers=4, tau_max=.3 if sos else 5.)
        o = s["options"]
        if r.random() < .5:
            for l in s["layers"]: l["omega"] = min(max(l["omega"], .02), .99)
            lin.add_derivs(r, s, nd=r.choice([1, 2, 3]))
            o = s["options"]
        if focus:
            o += [k for k in SAVES if r.random() < .8]
            if set(g) <= {"EIG_ADD", "PADE_ADD"} and "CALC_DERIVS" in o and r.random() < .7: o.append("STACK_REUSE_ADDING")
            else: o.append("SAVE_LAYER_R_T_S")
            return dict(scene=s, lazy=True, ops=history(r, s, r.choice([3, 4, 5]) if tier == "quick" else r.choice([3, 6, 12]), 5., r.choice([["d_vary"], ["d_vary"], ["d_vary"], []])))
        if r.random() < .5: o += [k for k in SAVES if r.random() < .5]
        add = set(g) <= {"EIG_ADD", "PADE_ADD", "DOUB_ADD"}
        if add and "CALC_DERIVS" in o and r.random() < .4: o.append("STACK_REUSE_ADDING")
        elif r.random() < .3: o.append("SAVE_LAYER_R_T_S")
        if add and s["n_out_levels"] == 1 and r.random() < .4:
            if s["out_levels"] == [s["n_layers"]] and "STACK_REUSE_ADDING" not in o: o.append("TOP_DOWN_ADDING")
            if s["out_levels"] == [0]: o.append("BOTTOM_UP_ADDING")
        return dict(scene=s, lazy=r.random() < .6, ops=history(r, s, r.choice([2, 3, 4, 6]) if tier == "quick" else r.choice([3, 6, 12, 24]), .3 if sos else 5.))
    def check(self, case):
        s = copy.deepcopy(case["scene"]); st = dict(solves=0, err=0., err_l=0., changes=0)
        with xr.X(self.lib, s) as x:
            x.setup(); dirty = False; since = 0; seen = varying(s)
            for n, o in enumerate(case["ops"]):
                if o[0] == "solve":
                    if near_node(s, 1e-4): st["near"] = 1; continue
                    if dirty and x.nd and (not case.get("lazy") or varying(s) != seen): x.call("xrtm_update_varied_layers"); seen = varying(s)
                    dirty = False
                    a = x.solve(o[1], o[2], phis=o[3])
                    b = xr.run(self.lib, s, o[1], o[2], phis=o[3])
                    kv = [q for q in a if not q.endswith("_l")]; kl = [q for q in a if q.endswith("_l")]
                    e = diff(a, b, kv, scale=max(scale_of(b), floor(s)))
                    need(e, self.TOL, "%s after %d operations against a fresh instance" % (o[1], n))
                    el = diff(a, b, kl) if kl else (0., None)
                    need(el, self.TOLD, "%s derivatives after %d operations against a fresh instance" % (o[1], n))
                    st["err"] = max(st["err"], e[0]); st["err_l"] = max(st["err_l"], el[0])
                    st["solves"] += 1
                    if st["solves"] > 1 and since: st["changes"] += 1
                    since = 0
                else:
                    apply(s, o); do(x, s, o); since += 1
                    if o[0].startswith("d_"): dirty = True
        return st
    def nontrivial(self, case, st):
        return st.get("changes", 0) > 0
    def classify(self, case, st):
        for sv in case["scene"]["solvers"]: yield sv
        for k in sorted(set(o[0] for o in case["ops"])): yield "op " + k
        yield from SceneProp.classify(self, case, st)
    def shrinks(self, case):
        ops = case["ops"]; n = len(ops); k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                if n - k >= 1: yield dict(case, ops=ops[:a] + ops[a + k:])
            k //= 2
        for o in case["scene"]["options"]:
            if o.startswith("SAVE_") or o in ("STACK_REUSE_ADDING", "TOP_DOWN_ADDING", "BOTTOM_UP_ADDING", "PSA", "N_T_TMS", "DELTA_M", "NO_AZIMUTHAL"):
                if o == "DELTA_M" and "N_T_TMS" in case["scene"]["options"]: continue
                c = copy.deepcopy(case); c["scene"]["options"].remove(o); yield c
        for i, o in enumerate(ops):
            if o[0] == "solve" and (len(o[3]) > 1 or len(o[2]) > 1):
                c = copy.deepcopy(case); c["ops"][i][3] = o[3][:1]; yield c
                for q in o[2]:
                    c = copy.deepcopy(case); c["ops"][i][2] = [q]; yield c
