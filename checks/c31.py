"""C31: particle size distributions are the published ones; their nodes, normalization, moments and derivatives are exact."""
from scn import *
import gen, math, cmath, ctypes as C
from xr import vp, i32, f64
from gen import rf

CODE = dict(modified_gamma=1, log_normal=2, power_law=3, gamma=4, modified_power_law=5, modified_bimodal_log_normal=6, exponential=7, mono=8)
NPAR = dict(modified_gamma=3, log_normal=2, power_law=2, gamma=2, modified_power_law=1, modified_bimodal_log_normal=5, exponential=1, mono=1)
OUT = ["reff", "veff", "gavg", "vavg", "ravg", "rvw"]

def arr(v): return (f64 * max(1, len(v)))(*v)
def rows(n, m): return [(f64 * max(1, m))() for _ in range(n)]
def ptr(rs): return (vp * max(1, len(rs)))(*[C.cast(x, vp) for x in rs])

def power_range(reff, veff):
    """ends of r^-3 with the given effective radius and variance, real or complex (Newton's method from the real solution)"""
    A, V = reff.real, veff.real
    f = lambda r1: ((1 + V) * 2 * A - 2 * r1) / math.log(((1 + V) * 2 * A - r1) / r1) - A
    lo, hi = 1e-300, A * (1 - 1e-15)
    for _ in range(400):
        m = math.sqrt(lo * hi) if hi > 4 * lo else (lo + hi) / 2
        if f(m) < 0: lo = m
        else: hi = m
    x = complex((lo + hi) / 2)
    for _ in range(6):
        y = (1 + veff) * 2 * reff - x; L = cmath.log(y / x); N = y - x
        x -= (N / L - reff) / (-2 / L - N / L ** 2 * (-1 / y - 1 / x))
    return x, (1 + veff) * 2 * reff - x

def model(t, n1, n2, nq, a, r1, r2):
    """nodes, weights, distribution, norm, ends and parameters for real or complex arguments"""
    a = [complex(v) for v in a]; r1, r2 = complex(r1), complex(r2)
    g, w = np.polynomial.legendre.leggauss(nq)
    def comp(lo, hi, n):
        h = (hi - lo) / n
        return [lo + i * h + h * (u + 1) / 2 for i in range(n) for u in g], [h / 2 * u for i in range(n) for u in w]
    if t == "mono": x, q, n, r1, r2 = [a[0]], [1. + 0j], [1. + 0j], a[0], a[0]
    else:
        if t == "power_law": r1, r2 = power_range(a[0], a[1])
        x, q = comp(r1, r2, n2)
        if t == "modified_power_law": y, v = comp(0., r1, n1); x, q = y + x, v + q
        L = cmath.log
        if t == "modified_gamma": f = lambda r: cmath.exp(a[0] * L(r) - a[0] / a[2] * cmath.exp(a[2] * L(r / a[1])))
        elif t == "log_normal": f = lambda r: cmath.exp(-L(r / a[0]) ** 2 / (2 * a[1])) / r
        elif t == "power_law": f = lambda r: r ** -3
        elif t == "gamma": f = lambda r: cmath.exp((1 - 3 * a[1]) / a[1] * L(r) - r / (a[0] * a[1]))
        elif t == "modified_bimodal_log_normal": f = lambda r: r ** -4 * (cmath.exp(-L(r / a[0]) ** 2 / (2 * a[1])) + a[4] * cmath.exp(-L(r / a[2]) ** 2 / (2 * a[3])))
        elif t == "exponential": f = lambda r: 2 * cmath.exp(-2 * a[0] * r)
        else: f = None
        n = [f(r) for r in x] if f else [1. + 0j] * (n1 * nq) + [cmath.exp(a[0] * L(r / r1)) for r in x[n1 * nq:]]
    norm = sum(u * v for u, v in zip(n, q))
    if t == "mono": norm = 1. + 0j
    if not 1e-250 < abs(norm) < 1e250: return None                  # nothing of it is within the ends
    n = [v / norm for v in n]
    m = [sum(u * v * r ** k for u, v, r in zip(n, q, x)) for k in range(5)]
    reff = m[3] / m[2]; e = 0.
    veff = sum(u * v * r * r * (r - reff) ** 2 for u, v, r in zip(n, q, x)) / (m[2] * reff ** 2)
    par = [reff, veff, math.pi * m[2], 4 / 3 * math.pi * m[3], m[1], m[4] / m[3]]
    return dict(qx=x, qw=q, nr=n, norm=norm, r1=r1, r2=r2, **dict(zip(OUT, par)))

class P(Prop):
    id = "C31"
    builds = [("opt", ("src", "misc", "dist"))]
    quick, thorough = 4000, 200000
    rule = "a distribution over at least two nodes was compared"
    def worker_setup(self):
        self.L = L = the_lib("opt", "libvxd.so").L
        L.get_particle_dist.argtypes = [i32] * 5 + [f64] * 7 + [vp] * 7 + [vp] * 3 + [vp] * 2 + [vp] * 3 + [vp] * 2 + [vp] * 2
        L.get_dist_parameters.argtypes = [i32, i32] + [vp] * 18; L.get_particle_dist_n.argtypes = [i32] * 4
        L.get_power_law_range.argtypes = [f64, f64, vp, vp]
    def gen(self, r, i, tier):
        t = sorted(CODE)[i % len(CODE)]; sc = 10 ** r.uniform(-2, 2); p = lambda a, b: rf(r.uniform(a, b), 6); R = lambda a, b: rf(sc * r.uniform(a, b), 6)
        r1 = R(.005, .3); r2 = rf(r1 * 10 ** r.uniform(.1, 2.5), 7)
        a = dict(modified_gamma=lambda: [p(.5, 8), R(.1, 2), p(.3, 3)], log_normal=lambda: [R(.05, 2), p(.01, 1.2)], power_law=lambda: [R(.2, 3), p(.01, 4)], gamma=lambda: [R(.1, 3), p(.01, .45)],
                 modified_power_law=lambda: [p(-6, -1)], modified_bimodal_log_normal=lambda: [R(.05, 1), p(.02, 1), R(.2, 3), p(.02, 1), p(0, 3)], exponential=lambda: [rf(r.uniform(.1, 3) / sc, 6)], mono=lambda: [R(.01, 5)])[t]()
        k = r.randint(0, 3) if t != "mono" or r.random() < .5 else 0
        one = lambda v: rf(v * r.uniform(-1, 1), 6) if r.random() < .7 else 0.
        D = [dict(a=[one(v if v else 1.) for v in a], r1=one(r1), r2=one(r2)) for _ in range(k)]
        c = dict(t=t, n1=r.randint(1, 4), n2=r.choice([1, 1, 2, 3, 7, 20]), nq=r.choice([1, 2, 3, 4, 5, 8, 16, 24]), a=a, r1=r1, r2=r2, D=D)
        if t in ("log_normal", "gamma", "power_law", "modified_gamma") and r.random() < .3:
            # over (nearly) all sizes, with enough nodes for the moments of the whole distribution
            c["whole"] = True; c["nq"] = 24; c["n2"] = 150
            if t == "power_law": a[1] = p(.01, 1.5)
            if t == "log_normal": a[1] = p(.01, .25); s = math.sqrt(a[1]); c["r1"], c["r2"] = rf(a[0] * math.exp(-8 * s), 8), rf(a[0] * math.exp(4 * a[1] + 8 * s), 8)
            if t == "gamma": a[1] = p(.02, .3); c["r1"], c["r2"] = rf(a[0] * 1e-7, 8), rf(a[0] * (1 + 45 * a[1] + 12 * math.sqrt(a[1])), 8)
            if t == "modified_gamma": a[0], a[2] = p(1, 8), p(.7, 3); c["r1"] = rf(a[1] * 1e-6, 8); c["r2"] = rf(a[1] * ((50 + 3 * a[0]) * a[2] / a[0]) ** (1 / a[2]) * 1.3, 8)
        return c
    def run(self, c, nd):
        L = self.L; t = CODE[c["t"]]; n = L.get_particle_dist_n(t, c["n1"], c["n2"], c["nq"]); D = c["D"][:nd]
        w = 1 if c["t"] == "mono" else (c["n1"] * (c["t"] == "modified_power_law") + c["n2"]) * c["nq"]
        if n != w: raise Fail("get_particle_dist_n: %d instead of %d" % (n, w))
        a = c["a"] + [0.] * (5 - len(c["a"])); dl = [arr([(d["a"] + [0.] * 5)[k] for d in D]) for k in range(5)] + [arr([d["r1"] for d in D]), arr([d["r2"] for d in D])]
        qx, qw, nr = [(f64 * n)(*[7e77] * n) for _ in range(3)]; r1, r2, norm = f64(), f64(), f64(); R1, R2, NL = arr([0.] * nd), arr([0.] * nd), arr([0.] * nd)
        lx, lw, ln = rows(n, nd), rows(n, nd), rows(n, nd); px, pw, pn = ptr(lx), ptr(lw), ptr(ln); Z = None
        b = C.byref
        if nd: q = [dl, [px, pw, pn, R1, R2], NL]
        else: q = [[Z] * 7, [Z] * 5, Z]
        e = L.get_particle_dist(t, c["n1"], c["n2"], c["nq"], nd, *a, c["r1"], c["r2"], *q[0], qx, qw, nr, b(r1), b(r2), *q[1], b(norm), q[2])
        if e: raise Fail("get_particle_dist returned %d" % e)
        o = dict(qx=list(qx), qw=list(qw), nr=list(nr), r1=r1.value, r2=r2.value, norm=norm.value)
        par = [f64(7e77) for _ in OUT]; pl = [arr([7e77] * nd) for _ in OUT]
        e = L.get_dist_parameters(n, nd, qx, qw, nr, *(q[1][:3]), *[b(v) for v in par], *(pl if nd else [Z] * 6))
        if e: raise Fail("get_dist_parameters returned %d" % e)
        o.update({k: v.value for k, v in zip(OUT, par)}); l = []
        for k in range(nd):
            l.append(dict(qx=[v[k] for v in lx], qw=[v[k] for v in lw], nr=[v[k] for v in ln], r1=R1[k], r2=R2[k], norm=NL[k], **{u: v[k] for u, v in zip(OUT, pl)}))
        return o, l
    def check(self, c):
        nd = len(c["D"]); t = c["t"]; st = dict(err=0., err_l=0., nodes=0)
        o, l = self.run(c, nd)
        if nd:
            z, _ = self.run(c, 0)
            for k in o:
                if not np.array_equal(o[k], z[k], equal_nan=True): raise Fail("%s: %s is %r with derivatives and %r without" % (t, k, o[k], z[k]))
        A = (t, c["n1"], c["n2"], c["nq"]); m = model(*A, c["a"], c["r1"], c["r2"]); st["nodes"] = len(o["qx"])
        if not m or not all(np.isfinite([v.real for v in m["nr"]])): return dict(st, skip=1)
        V = lambda v: v if isinstance(v, list) else [v]
        # what the distribution is multiplied by to be of order one; relative errors of exponents grow with the exponents
        for k in m:
            g, w = np.array(V(o[k])), np.array([complex(v).real for v in V(m[k])]); s = max(abs(w))
            if k == "veff": s = max(s, 1e-4)
            e = max(abs(g - w)) / s if s else max(abs(g)); e = e if e == e else 9e99
            st["err"] = max(st["err"], e)
            if not e <= 2e-10: raise Fail("%s: %s: %r instead of %r (relative difference %.1e)" % (t, k, o[k] if len(g) == 1 else g[abs(g - w).argmax()], w[abs(g - w).argmax()], e))
        for j, d in enumerate(c["D"]):
            h = 1e-30
            ml = model(*A, [complex(v, h * u) for v, u in zip(c["a"], d["a"])], complex(c["r1"], h * d["r1"]), complex(c["r2"], h * d["r2"]))
            for k in m:
                if t == "mono" and k in ("r1", "r2"): continue
                g, w = np.array(V(l[j][k])), np.array([complex(v).imag / h for v in V(ml[k])]); s = max(max(abs(w)), max(abs(complex(v)) for v in V(m[k])))
                if k == "veff": s = max(s, 1e-4)
                e = max(abs(g - w)) / s if s else max(abs(g)); e = e if e == e else 9e99
                st["err_l"] = max(st["err_l"], e)
                if not e <= 5e-9: raise Fail("%s: derivative of %s: %r instead of %r (relative difference %.1e)" % (t, k, g[abs(g - w).argmax()], w[abs(g - w).argmax()], e))
        if c.get("whole"):
            # the moments that the literature gives for the whole distribution
            a = c["a"]
            if t == "log_normal": w = dict(reff=a[0] * math.exp(2.5 * a[1]), veff=math.exp(a[1]) - 1, ravg=a[0] * math.exp(.5 * a[1]), gavg=math.pi * a[0] ** 2 * math.exp(2 * a[1]))
            elif t == "modified_gamma":
                M = lambda k: math.exp(math.lgamma((a[0] + 1 + k) / a[2]) - math.lgamma((a[0] + 1) / a[2]) - k / a[2] * math.log(a[0] / (a[2] * a[1] ** a[2])))
                w = dict(reff=M(3) / M(2), ravg=M(1), gavg=math.pi * M(2), vavg=4 / 3 * math.pi * M(3), rvw=M(4) / M(3), veff=M(4) * M(2) / M(3) ** 2 - 1)
            else: w = dict(reff=a[0], veff=a[1])
            for k in w:
                e = abs(o[k] - w[k]) / abs(w[k]); st["whole"] = max(st.get("whole", 0.), e)
                if not e <= 1e-5: raise Fail("%s over all sizes: %s is %r, not %r" % (t, k, o[k], w[k]))
        return st
    def nontrivial(self, c, st): return st.get("nodes", 0) >= 2 and not st.get("skip")
    def classify(self, c, st):
        yield c["t"]; yield "derivs=%d" % len(c["D"])
        if c.get("whole"): yield "whole distribution"
        if st.get("skip"): yield "out of range"
    def shrinks(self, c):
        import copy
        for j in range(len(c["D"])):
            q = copy.deepcopy(c); del q["D"][j]; yield q
        for k in ("n1", "n2", "nq"):
            if c[k] > 1 and not c.get("whole"): yield dict(c, **{k: 1}); yield dict(c, **{k: c[k] - 1})
        for j, d in enumerate(c["D"]):
            for k in range(len(d["a"])):
                if d["a"][k]: q = copy.deepcopy(c); q["D"][j]["a"][k] = 0.; yield q
            for k in ("r1", "r2"):
                if d[k]: q = copy.deepcopy(c); q["D"][j][k] = 0.; yield q
