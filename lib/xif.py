"""callxrtm input: statements as text, in the file form and in the command-line form."""
import math, json
import pbt, gen, api
from gen import rf

LS = ["F_iso_top", "F_iso_bot", "surface_b"]

# ------------------------------------------------- scattering coefficients by name
def coefs_named(name, mc):
    """The six sets a name stands for, from the formulas; and how many coefficients."""
    k, *a = name.split(":"); a = [float(x) for x in a]
    Z = lambda n: [[0.] * n for _ in range(6)]
    if k == "none": return mc, Z(mc)
    if k == "hg":
        t = Z(mc); t[0] = [(2 * l + 1) * a[0] ** l for l in range(mc)]; return mc, t
    if k == "dhg":
        t = Z(mc); t[0] = [(2 * l + 1) * (a[2] * a[0] ** l + (1 - a[2]) * a[1] ** l) for l in range(mc)]; return mc, t
    p = lambda g, l: 0. if l < 1 else l * g ** (l - 1)
    if k == "hg_l":
        t = Z(mc); t[0] = [(2 * l + 1) * p(a[0], l) * a[1] for l in range(mc)]; return mc, t
    if k == "dhg_l":
        g1, g2, f, d1, d2, df = a
        t = Z(mc); t[0] = [(2 * l + 1) * (df * (g1 ** l - g2 ** l) + f * p(g1, l) * d1 + (1 - f) * p(g2, l) * d2) for l in range(mc)]; return mc, t
    rho = a[0]
    f = (1 - rho) / (2 + rho); d = 3 * (1 - 2 * rho) / (2 + rho)
    one = 1.
    if k == "ray_l":
        q = a[1]; one = 0.
        f = -3. / (2 + rho) ** 2 * q; d = -15. / (2 + rho) ** 2 * q
    t = Z(3); t[0] = [one, 0., f]; t[1][2] = 6 * f; t[3][1] = d; t[4][2] = math.sqrt(6) * f
    return 3, t

def name_of(r, mc, deriv=False):
    u = lambda: rf(r.uniform(-.9, .9), 3)
    n = lambda: repr(u())
    k = r.choice((["none", "hg_l", "dhg_l"] if deriv else ["hg", "dhg"]) + ([["ray", "ray_l"][deriv]] if mc >= 3 else []))
    if k == "none": return k
    if k == "hg": return "hg:" + n()
    if k == "dhg": return "dhg:%s:%s:%r" % (n(), n(), abs(u()))
    if k == "hg_l": return "hg_l:%s:%s" % (n(), n())
    if k == "dhg_l": return "dhg_l:%s:%s:%r:%s:%s:%s" % (n(), n(), abs(u()), n(), n(), n())
    if k == "ray": return "ray:%r" % rf(r.uniform(0, .1), 3)
    return "ray_l:%r:%s" % (rf(r.uniform(0, .1), 3), n())

# ---------------------------------------------------------------- operations
def spread(op, m):
    """A named-coefficient statement as operations of the model."""
    k = op[0]
    tab = lambda name: coefs_named(name, m.mc)
    if k == "cf": n, t = tab(op[2]); return [["coef1", op[1], n, [e[:] for e in t[:m.ne]]]]
    if k == "cfn": return [q for i, w in enumerate(op[1]) for q in spread(["cf", i, w], m)]
    _, f, i, j, w = op
    def one(a, b, name):
        # a named derivative has as many coefficients as the layer
        kk = name.split(":")[0]
        n, t = coefs_named(name, m.n_coef(a) if kk != "ray_l" else 3)
        return ["coef_l", "11", a, b, [(e + [0.] * m.mc)[:m.mc] for e in t[:m.ne]]]
    if f == "11": return [one(i, j, w)]
    if f == "n1": return [one(a, j, w[a]) for a in range(m.nl)]
    if f == "1n": return [one(i, b, w[b]) for b in range(m.nd)]
    return [one(a, b, w[a][b]) for a in range(m.nl) for b in range(m.nd)]

NAMED = ("cf", "cfn", "cfl")
def apply(m, op):
    for o in spread(op, m) if op[0] in NAMED else [op]: m.apply(o)

def usable(m, op):
    """can be written as a statement, and is valid now"""
    k = op[0]
    if k in ("cf", "cfn"): return True
    if k == "cfl": return m.nd > 0 and all(m.coef)
    if k not in ("sc", "ar", "pade", "sos", "sln", "lbln", "lay1", "layn", "lay_l", "coef1", "coefn", "coef_l", "amp", "par1", "parn", "amp_l1", "amp_ln", "par_l"): return False
    if k == "pade" and op[1] < 0: return False
    if k in ("lay1", "layn", "lay_l") and op[1] == "g": return False
    if k == "coef1" and op[2] < 1: return False
    if k == "coefn" and op[1] is not None: return False
    if k == "coef_l" and not all(m.coef): return False
    if not m.ok(op): return False
    if k in ("parn", "par1") and not m.par[op[1]]: return False
    if k == "par_l" and not m.par[op[2]]: return False
    return True

def operations(r, s, n):
    m = api.Model(s); out = []; nd, nl = m.nd, m.nl
    ops = api.history(r, s, n, bad=0.)
    k = len(ops)
    while r.random() < .6:
        ops.insert(r.randint(0, k), ["cf", r.randrange(nl), name_of(r, m.mc)] if r.random() < .6 else ["cfn", [name_of(r, m.mc) for _ in range(nl)]])
    while nd and r.random() < .6:
        f = r.choice(["11", "n1", "1n", "nn"]); g = lambda: name_of(r, m.mc, True)
        w = {"11": g, "n1": lambda: [g() for _ in range(nl)], "1n": lambda: [g() for _ in range(nd)], "nn": lambda: [[g() for _ in range(nd)] for _ in range(nl)]}[f]()
        ops.insert(r.randint(k // 2, len(ops)), ["cfl", f, r.randrange(nl), r.randrange(nd), w])
    for op in ops:
        if op[0] in ("sos", "pade") and not ({"sos": "SOS", "pade": "PADE_ADD"}[op[0]] in m.sv): continue
        if op[0] == "coefn" and op[1] is not None: op = ["coefn", None, op[2]]
        if usable(m, op): out.append(op); apply(m, op)
    return out

# ------------------------------------------------------------------ statements
def statement(op, m):
    """(name, dims or None, kind, value): dims hold numbers or ':'"""
    k = op[0]; nl, nd, mc = m.nl, m.nd, m.mc
    tr = lambda t, n: [[t[e][l] for e in range(m.ne)] for l in range(n)]
    pad = lambda t: [list(e) + [0.] * (mc - len(e)) for e in t]
    if k == "sc": return op[1], [], "num", op[2]
    if k == "ar": return op[1], [], "arr", op[2]
    if k == "pade": return "pade_params", [], "tuple", op[1:]
    if k == "sos": return "sos_params", [], "tuple", op[1:]
    if k == "sln": return op[1] + "_l", [], "arr", op[2][:nd]
    if k == "lbln": return "levels_b_l", [], "arr", [x[:nd] for x in op[1]]
    if k == "lay1": return op[1], [op[2]], "num", op[3]
    if k == "layn": return op[1], [None], "arr", op[2]
    if k == "lay_l":
        _, q, f, i, j, w = op; q += "_l"
        return {"11": (q, [i, j], "num", w), "n1": (q, [":", j], "arr", w), "1n": (q, [i, None], "arr", w if f != "1n" else w[:nd]),
                "nn": (q, [None, None], "arr", w if f != "nn" else [x[:nd] for x in w])}[f]
    if k == "coef1": return "coef", [op[1]], "coef", [op[2], tr(op[3], op[2])]
    if k == "coefn": return "coef", [None], "arr", [tr(pad(t), mc) for t in op[2]]
    if k == "coef_l":
        _, f, i, j, w = op
        if f == "11": return "coef_l", [i, j], "arr", tr(pad(w), m.n_coef(i))
        if f == "n1": return "coef_l", [":", j], "arr", [tr(pad(t), mc) for t in w]
        if f == "1n": return "coef_l", [i, None], "arr", [tr(pad(t), m.n_coef(i)) for t in w[:nd]]
        return "coef_l", [None, None], "arr", [[tr(pad(t), mc) for t in x[:nd]] for x in w]
    if k == "cf": return "coef_files", [op[1]], "str", op[2]
    if k == "cfn": return "coef_files", [None], "arr", op[1]
    if k == "cfl":
        _, f, i, j, w = op
        return {"11": ("coef_files_l", [i, j], "str", w), "n1": ("coef_files_l", [":", j], "arr", w), "1n": ("coef_files_l", [i, None], "arr", w),
                "nn": ("coef_files_l", [None, None], "arr", w)}[f]
    if k == "amp": return "kernel_ampfac", [op[1]], "num", op[2]
    if k == "par1": return "kernel_params", [op[1], op[2]], "num", op[3]
    if k == "parn": return "kernel_params", [op[1], None], "arr", op[2][:len(m.par[op[1]])]
    if k == "amp_l1": return "kernel_ampfac_l", [op[1], op[2]], "num", op[3]
    if k == "amp_ln": return "kernel_ampfac_l", [op[1], None], "arr", op[2][:nd]
    if k == "par_l":
        _, f, q, j, a, w = op; np_ = len(m.par[q])
        if f == "11": return "kernel_params_l", [q, j, a], "num", w
        if f == "1n": return "kernel_params_l", [q, j, None], "arr", w[:np_]
        if f == "n1": return "kernel_params_l", [q, ":", a], "arr", w[:nd]
        return "kernel_params_l", [q, None, None], "arr", [x[:np_] for x in w[:nd]]
    raise KeyError(k)

class Style:
    """Random but equivalent spellings."""
    def __init__(self, seed, array2):
        self.r = pbt.rng("style", seed); self.a2 = array2
    def ws(self, need=False):
        r = self.r; q = r.random()
        if q < .7: return " "
        if q < .8: return " " if need else ""
        if q < .87: return "\n"
        if q < .92: return "\t  "
        if q < .97: return " /* %s */ " % r.choice(["", "*", "omega = {1.}", "// /*", "a\nb", "**", "'", '"'])
        return " // %s\n" % r.choice(["", "x", "*/", "ltau[0] = 3."])
    def num(self, v):
        r = self.r
        if isinstance(v, int): return str(v)
        if v == int(v) and abs(v) < 1e6 and r.random() < .3: return str(int(v))
        t = repr(float(v))
        if "e" in t:
            a, b = t.split("e")
            if "." not in a: a += "."
            return a + r.choice("eE") + (b if r.random() < .5 else str(int(b)))
        q = r.random()
        if q < .15 and t.endswith(".0"): return t[:-1]
        if q < .3 and t.startswith("0."): return t[1:]
        if q < .3 and t.startswith("-0.") and t != "-0.0": return "-" + t[2:]
        if q < .4:
            m_, e = ("%.16e" % v).split("e"); return "%s%s%s" % (m_, r.choice("eE"), int(e))
        return t
    def string(self, v):
        q = self.r.random()
        if q < .3 and not (self.a2 and v[0] == "-") : return v + " "
        return '"%s"' % v if q < .65 else "'%s'" % v
    def leaf(self, v): return self.string(v) if isinstance(v, str) else self.num(v)
    def arr(self, v):
        if not self.a2:
            if not isinstance(v, list): return self.leaf(v)
            return "{" + self.ws() + (self.ws() + "," + self.ws()).join(self.arr(x) for x in v) + self.ws() + "}"
        if not isinstance(v, list): return self.leaf(v)
        return (self.ws() + (";" if isinstance(v[0], list) else ",") + self.ws()).join(self.arr(x) for x in v)
    def lst(self, v):
        if self.a2: return (self.ws() + "," + self.ws()).join(self.string(x) for x in v)
        return "(" + self.ws() + (self.ws() + "," + self.ws()).join(self.string(x) for x in v) + self.ws() + ")"
    def lhs(self, name, dims=()):
        r = self.r; d = list(dims)
        while d and d[-1] is None and r.random() < .5: d.pop()
        t = ("-" if self.a2 else r.choice(["", "", "", "-"])) + name
        for x in d: t += self.ws() + "[" + self.ws() + (":" if x in (None, ":") else str(x)) + self.ws() + "]"
        return t + (self.ws(True) if self.a2 else self.ws() + "=" + self.ws())
    def stmt(self, st):
        name, dims, kind, v = st
        h = self.lhs(name, dims)
        if kind in ("num", "str"): return h + self.leaf(v)
        if kind == "arr": return h + self.arr(v)
        if kind == "tuple": return h + (self.ws() + "," + self.ws()).join(self.num(x) for x in v)
        return h + self.num(v[0]) + self.ws() + "," + self.ws() + self.arr(v[1])

def creation(s, st, skip=()):
    low = lambda l: [x.lower() for x in l]
    P = ([("options", "list", low(s["options"]))] if s["options"] else []) + [ ("solvers", "list", low(s["solvers"])), ("max_coef", "num", s["max_coef"]), ("n_quad", "num", s["n_quad"]),
         ("n_stokes", "num", s["n_stokes"]), ("n_derivs", "num", s["n_derivs"]), ("n_layers", "num", s["n_layers"]), ("n_kernels", "num", len(s["kernels"])),
         ("n_kernel_quad", "num", s["n_kernel_quad"]), ("n_out_levels", "num", s["n_out_levels"]), ("n_out_thetas", "num", s["n_out_thetas"])]
    if s["kernels"]: P.append(("kernels", "list", list(s["kernels"])))
    P = [p for p in P if p[0] not in skip]
    st.r.shuffle(P)
    out = []
    for n, k, v in P:
        if k == "list":
            v = list(v); st.r.shuffle(v) if n != "kernels" else None
            out.append(st.lhs(n) + st.lst(v))
        else: out.append(st.lhs(n) + str(v))
    return out

def text(s, ops, seed, array2, skip=(), sep=None):
    """The whole input.  sep: what parts the creation block from the rest."""
    st = Style(seed, array2); m = api.Model(s)
    gap = lambda: st.ws(True) if array2 else "\n"
    out = creation(s, st, skip)
    body = []
    for op in ops:
        body.append(st.stmt(statement(op, m))); apply(m, op)
    j = lambda l: "".join(x + gap() for x in l)
    return j(out) + (sep or "") + " " + j(body)
