"""C06: derivatives are linear in their inputs and independent of each other."""
from scn import *
import gen, lin, copy, pbt

SOLV = ["EIG_BVP", "EIG_ADD", "MEM_BVP", "PADE_ADD", "DOUB_ADD", "SINGLE", "TWO_OS", "SOS"]

def outs(sv):
    return ("RADIANCE",) if sv == "SINGLE" else ("RADIANCE", "MEAN", "FLUX")

def comb(ds, cs):
    """sum of cs[i]*ds[i] of directions."""
    def add(a, b, c):
        if isinstance(b, (list, tuple)):
            return [add(a[i] if a is not None else None, b[i], c) for i in range(len(b))]
        return (a or 0.) + c * b
    out = dict(kind="sum")
    for d, c in zip(ds, cs):
        for k, v in d.items():
            if k == "kind" or v is None: continue
            out[k] = add(out.get(k), v, c)
    return out

def flat(d):
    o = []
    def w(v):
        if isinstance(v, (list, tuple)):
            for q in v: w(q)
        elif isinstance(v, (int, float)): o.append(v)
    for k, v in d.items():
        if k != "kind": w(v)
    return o

def split(d, s):
    """The direction as a list of directions, one for each layer and one for everything else."""
    n = s["n_layers"]; out = []
    for i in range(n):
        q = dict(kind="part", ltau=[0.] * n, omega=[0.] * n, coef=[[[0.] * len(e) for e in l["coef"]] for l in s["layers"]])
        q["ltau"][i] = d["ltau"][i]; q["omega"][i] = d["omega"][i]; q["coef"][i] = d["coef"][i]
        out.append(q)
    q = copy.deepcopy(d); q["kind"] = "part"
    q["ltau"] = [0.] * n; q["omega"] = [0.] * n; q["coef"] = [[[0.] * len(e) for e in l["coef"]] for l in s["layers"]]
    out.append(q)
    return out

class P(SceneProp):
    id = "C06"
    quick, thorough = 6000, 120000
    rule = ("A random scene with two random directions u and v in input space. One run has the derivatives u, v, a*u+b*v, 0 and the parts of u "
            "(one per layer and one for the rest), in a random order; other runs have one derivative each or the same in another order. "
            "Non-trivial: the derivatives along u and v are not zero.")
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        kw = dict(tau_max=.3, max_layers=3) if sv == "SOS" else dict(tau_max=5., max_layers=5)
        s = gen.scene(r, [sv], max_quad=6, omega_min=.02, tau_min=5e-3, **kw)
        if sv == "DOUB_ADD": s["doub_d_tau"] = max(s.get("doub_d_tau", 1e-4), 1e-4)
        lin.add_derivs(r, s, 2, [k for k in lin.KINDS if k != "zero"] + ["all", "all", "kernel", "source"])
        return dict(scene=s, a=gen.rf(r.uniform(-2, 2), 3), b=gen.rf(r.uniform(-2, 2), 3), order=r.randrange(10 ** 6), solo=r.randrange(100))
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        u, v = s["derivs"]
        dirs = {"u": u, "v": v, "sum": comb([u, v], [case["a"], case["b"]]), "zero": comb([u], [0.])}
        parts = split(u, s)
        for k, p in enumerate(parts): dirs["p%d" % k] = p
        def run(names):
            c = dict(s, derivs=[dirs[n] for n in names], n_derivs=len(names))
            o = xr.run(self.lib, c, sv, outs(sv))
            return o, {n: {q: o[q + "_l"][:, j] for q in o if not q.endswith("_l")} for j, n in enumerate(names)}
        r = pbt.rng(str(case["order"]))
        names = list(dirs); r.shuffle(names)
        o, D = run(names)
        # the size of what was added up, so that cancellation is not held against it
        mag = max([1e-2 * scale_of(o)] + [float(np.nanmax(np.abs(D[n][q]))) for n in D for q in D[n] if D[n][q].size])
        tol = 1e-7 if s["n_stokes"] == 1 else 1e-6
        out = {}
        def same(x, y, tol, what):
            e = diff(x, y, scale=mag); need(e, tol, "%s: %s" % (sv, what)); return e[0]
        for q in D["zero"]:
            m = float(np.abs(D["zero"][q]).max()) if D["zero"][q].size else 0.
            if not m <= 1e-11 * mag: raise Fail("%s: the derivative along a zero direction is %.9g in %s" % (sv, m, q))
        out["linear"] = same({q: D["sum"][q] for q in D["sum"]}, {q: case["a"] * D["u"][q] + case["b"] * D["v"][q] for q in D["u"]}, tol, "derivative along %g*u + %g*v" % (case["a"], case["b"]))
        out["parts"] = same(D["u"], {q: sum(D["p%d" % k][q] for k in range(len(parts))) for q in D["u"]}, tol, "derivative along u against the sum over layers and the rest")
        # alone, and in another order
        n1 = names[case["solo"] % len(names)]
        o1, D1 = run([n1])
        out["alone"] = max(same(D[n1], D1[n1], tol, "derivative %s alone and among %d" % (n1, len(names))),
                           same({q: o[q] for q in D1[n1]}, {q: o1[q] for q in D1[n1]}, 1e-10, "values with one and %d derivatives" % len(names)))
        k2 = list(names); r.shuffle(k2); k2 = k2[:r.randint(2, len(k2))]
        o2, D2 = run(k2)
        out["order"] = max(same(D[n], D2[n], tol, "derivative %s in %s and in %s" % (n, names, k2)) for n in k2)
        out["seen"] = int(all(max(float(np.abs(D[n][q]).max()) for q in D[n] if D[n][q].size) > 1e-8 for n in "uv"))
        return out
    def nontrivial(self, case, st): return st.get("seen", 0) > 0
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        for d in case["scene"]["derivs"]: yield "direction " + d["kind"]
        yield from SceneProp.classify(self, case, st)
