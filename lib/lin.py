"""Directional derivatives of scenes: random directions and shifted scenes."""
import copy
import gen
from gen import rf

KINDS = ["all", "one_layer", "ltau", "omega", "coef", "kernel", "source", "zero", "layers"]

def direction(r, s, kind=None):
    """A direction in the scene's input space, as accepted by X.set_deriv."""
    kind = kind or r.choice(KINDS)
    n = s["n_layers"]
    d = dict(kind=kind, ltau=[0.] * n, omega=[0.] * n, coef=[[[0.] * len(e) for e in l["coef"]] for l in s["layers"]])
    u = lambda: rf(r.choice([-1, 1]) * r.uniform(.2, 1.), 4)
    def layer(i, what):
        l = s["layers"][i]
        if "ltau" in what: d["ltau"][i] = rf(u() * l["ltau"], 6)
        if "omega" in what and 0. < l["omega"] < 1.: d["omega"][i] = rf(u() * min(l["omega"], 1. - l["omega"]), 6)
        if "coef" in what:
            q = u()
            for k, e in enumerate(l["coef"]):
                d["coef"][i][k] = [rf(v * q * r.uniform(.5, 1), 6) for v in e]
            d["coef"][i][0][0] = 0.
    if kind == "all" or kind == "layers":
        for i in range(n): layer(i, ("ltau", "omega", "coef"))
    elif kind == "one_layer": layer(r.randrange(n), ("ltau", "omega", "coef"))
    elif kind in ("ltau", "omega", "coef"): layer(r.randrange(n), (kind,))
    if s["kernels"] and kind in ("all", "kernel"):
        w = r.choice(["both", "amp", "par"])
        d["ampfac"] = [rf(u() * k["ampfac"], 5) if w != "par" else 0. for k in s["kernel"]]
        d["params"] = [[rf(u() * .3 * abs(v), 5) if w != "amp" else 0. for v in k["params"]] for k in s["kernel"]]
    if kind in ("all", "source"):
        d["F_iso_top"] = rf(u() * s["F_iso_top"], 5) if s.get("F_iso_top") else 0.
        d["F_iso_bot"] = rf(u() * s["F_iso_bot"], 5) if s.get("F_iso_bot") else 0.
        if "SOURCE_THERMAL" in s["options"]:
            if r.random() < .5: d["surface_b"] = rf(u() * s["surface_b"], 5)
            d["levels_b"] = [rf(u() * v, 5) if r.random() < .6 else 0. for v in s["levels_b"]]
    return d

def add_derivs(r, s, nd=None, kinds=None):
    nd = nd or r.choice([1, 1, 2, 3, 4])
    s["n_derivs"] = nd
    s["options"] = ["CALC_DERIVS"] + s["options"]
    s["derivs"] = [direction(r, s, kinds and r.choice(kinds)) for _ in range(nd)]
    return s

def shift(s, d, h):
    """The scene moved by h along direction d (and without derivatives)."""
    c = copy.deepcopy(s)
    if "CALC_DERIVS" in c["options"]: c["options"].remove("CALC_DERIVS")
    c["n_derivs"] = 0; c.pop("derivs", None)
    old = [l["ltau"] for l in s["layers"]]
    for i, l in enumerate(c["layers"]):
        l["ltau"] += h * d["ltau"][i] if d.get("ltau") else 0.
        l["omega"] += h * d["omega"][i] if d.get("omega") else 0.
        if d.get("coef") and d["coef"][i] is not None:
            l["coef"] = [[v + h * w for v, w in zip(a, b)] for a, b in zip(l["coef"], d["coef"][i])]
    if "OUTPUT_AT_TAUS" in c["options"]:
        o = []
        for t in s["out_taus"]:          # the library keeps the relative position within the layer
            a = 0.; b = 0.
            for i, l in enumerate(c["layers"]):
                if t < a + old[i] or i == len(old) - 1:
                    o.append(b + (t - a) / old[i] * l["ltau"]); break
                a += old[i]; b += l["ltau"]
        c["out_taus"] = o
    for k, q in enumerate(c["kernel"]):
        if d.get("ampfac"): q["ampfac"] += h * d["ampfac"][k]
        if d.get("params"): q["params"] = [v + h * w for v, w in zip(q["params"], d["params"][k])]
    for k in ("F_iso_top", "F_iso_bot", "surface_b"):
        if d.get(k): c[k] = c[k] + h * d[k]
    if d.get("levels_b"): c["levels_b"] = [v + h * w for v, w in zip(c["levels_b"], d["levels_b"])]
    return c
