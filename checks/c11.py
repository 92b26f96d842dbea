"""C11: layers are a description, not physics: splitting, merging and inserting nothing changes nothing."""
from scn import *
import gen, lin, copy
from gen import rf

SOLV = ["EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "EIG_BVP", "SINGLE", "TWO_OS", "SOS"]
NOLEV = ("EIG_ADD", "PADE_ADD", "DOUB_ADD", "SOS", "TWO_OS")

def split(s, i, fr):
    """layer i cut at a fraction of its optical thickness"""
    c = copy.deepcopy(s); l = s["layers"][i]
    c["n_layers"] += 1
    a, b = copy.deepcopy(l), copy.deepcopy(l)
    a["ltau"] = l["ltau"] * fr; b["ltau"] = l["ltau"] - a["ltau"]
    c["layers"][i:i + 1] = [a, b]
    if "levels_b" in s: c["levels_b"].insert(i + 1, s["levels_b"][i] + (s["levels_b"][i + 1] - s["levels_b"][i]) * fr)
    if "out_levels" in s: c["out_levels"] = [v if v <= i else v + 1 for v in s["out_levels"]]
    for d in c.get("derivs", ()):
        if d.get("ltau"): t = d["ltau"][i]; d["ltau"][i:i + 1] = [t * fr, t - t * fr]
        if d.get("omega"): d["omega"].insert(i, d["omega"][i])
        if d.get("coef"): d["coef"].insert(i, copy.deepcopy(d["coef"][i]))
        if d.get("levels_b"): d["levels_b"].insert(i + 1, d["levels_b"][i] + (d["levels_b"][i + 1] - d["levels_b"][i]) * fr)
    return c

def insert(s, i, layer, eps):
    """a layer of optical thickness eps put at level i"""
    c = copy.deepcopy(s); c["n_layers"] += 1
    l = copy.deepcopy(layer); l["ltau"] = eps
    c["layers"].insert(i, l)
    if "levels_b" in s: c["levels_b"].insert(i, s["levels_b"][i])
    if "out_levels" in s: c["out_levels"] = [v if v < i or (v == i and v == 0) else v + 1 for v in s["out_levels"]]
    return c

class P(SceneProp):
    id = "C11"
    quick, thorough = 20000, 150000
    rule = ("A random scene without pseudo-spherical beam, with random layers cut in two (several times) or an optically negligible layer inserted. Non-trivial: the scene scatters.")
    TOL = dict(DOUB_ADD=2e-4, SOS=1e-3)
    TOLD = dict(DOUB_ADD=5e-3, SOS=5e-3)
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], max_quad=6, max_layers=3, tau_max=.3 if sv == "SOS" else 8., psa=False)
        if sv == "SOS": s["sos"] = [200, .001, 1e-11]
        nl = s["n_layers"]
        # levels_b of zero in one layer only is a case of its own
        if "levels_b" in s and r.random() < .15: s["levels_b"][r.randrange(nl + 1)] = 0.
        d = r.random() < .35 and sv != "SOS"
        if d:
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2]))
        cuts = []; n = nl
        for _ in range(r.choice([1, 1, 2, 3])):
            cuts.append([r.randrange(n), r.choice([.5, rf(r.uniform(.05, .95), 4), 1e-4 if sv not in ("SOS",) else .5])]); n += 1
        case = dict(scene=s, cuts=cuts)
        if r.random() < .25 and not d:
            case["insert"] = [r.randint(0, nl), gen.scene(r, [sv], max_layers=1, n_quad=s["n_quad"])["layers"][0]]
            L = case["insert"][1]
            L["coef"] = gen.phase_vector(r, s["max_coef"]) if s["n_stokes"] > 1 else [gen.phase_scalar(r, s["max_coef"])]
        return case
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        outs = ("RADIANCE",) if sv == "SINGLE" else ("RADIANCE", "MEAN", "FLUX")
        a = xr.run(self.lib, s, sv, outs)
        c = s
        if "insert" in case: c = insert(s, min(case["insert"][0], s["n_layers"]), case["insert"][1], 1e-9)
        else:
            for i, f in case["cuts"]: c = split(c, min(i, c["n_layers"] - 1), f)
            if "OUTPUT_AT_TAUS" in c["options"]: pass
        if sv == "PADE_ADD": c = dict(c, pade=s["pade"])
        b = xr.run(self.lib, c, sv, outs)
        kv = [q for q in a if not q.endswith("_l")]; kl = [q for q in a if q.endswith("_l")]
        e = diff(b, a, kv, scale=max(scale_of(a), floor(s)))
        tol = self.TOL.get(sv, 1e-7)
        if "insert" in case: tol = max(tol, 3e-6)
        what = "%s with %s" % (sv, "a negligible layer inserted" if "insert" in case else "layers cut")
        need(e, tol, what)
        el = diff(b, a, kl) if kl else (0., None)
        need(el, self.TOLD.get(sv, 1e-5), what + ", derivatives")
        return {"err " + sv: e[0], "err_l " + sv: el[0]}
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "insert" if "insert" in case else "cut"
        yield from SceneProp.classify(self, case, st)
