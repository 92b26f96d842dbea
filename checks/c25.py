"""C25: the quadrature rules integrate, and the special functions are the functions, that their names say."""
from scn import *
import gen, math, ctypes as C
from xr import vp, i32, f64
from gen import rf

def dptr(a): return (f64 * max(1, len(a)))(*a)
def rows(n, m): return [(f64 * max(1, m))() for _ in range(n)]
def ptr(rs): return (vp * max(1, len(rs)))(*[C.cast(x, vp) for x in rs])

def legendre(n, x):
    p = [1., x]
    for l in range(1, n): p.append(((2 * l + 1) * x * p[l] - l * p[l - 1]) / (l + 1))
    return p[:n]
def wigner(l, m, n, x):
    """d^l_mn(acos x), from its explicit sum in exact integers up to the powers of the half angle, with the sign of Mishchenko (2002), eq. B.1"""
    if l < max(abs(m), abs(n)): return 0.
    c, s = math.sqrt(max(0., (1 + x) / 2)), math.sqrt(max(0., (1 - x) / 2)); F = math.factorial; t = []
    for k in range(max(0, m - n), min(l + m, l - n) + 1):
        t.append((-1) ** k * float(F(l + m) * F(l - m) * F(l + n) * F(l - n)) ** .5 / (F(l + m - k) * F(k) * F(n - m + k) * F(l - n - k)) * c ** (2 * l - 2 * k + m - n) * s ** (2 * k - m + n))
    return math.fsum(t), max(map(abs, t))
def gsf(l, p, q, x):
    """generalized spherical function P^l_pq, and the size of the terms it was summed from"""
    w = wigner(l, p, q, x)
    if w == 0.: return 0., 0.
    return (1j ** (p - q)) * w[0], w[1]

KINDS = ["gauss", "gauss_x", "fit", "newton", "legendre", "assoc", "prt", "gsf"]

class P(Prop):
    id = "C25"
    quick, thorough = 16000, 400000
    rule = "a rule integrated a polynomial of the highest degree it is exact for, or a function of at least order two was compared"
    def worker_setup(self):
        self.L = L = the_lib().L; d, i, p = f64, i32, vp
        for n, a in dict(gauss_leg_quad=[i, p, p], gauss_leg_quad2=[i, p, p], gauss_leg_quadx=[i, d, d, p, p], gauss_leg_quadx_l=[i, i, d, d] + [p] * 6, gauss_leg_quad_fit=[i, d, d, p, p, p, p],
                         gauss_leg_quad_fit_l=[i, i, d, d] + [p] * 10, simpsons_rule_quad=[i, d, d, p, p], trapezoidal_quad=[i, d, d, p, p], extended_trapezoidal_quad=[i, d, d, p, p],
                         leg_poly=[i, d, p], leg_poly2=[i, i, p, p], leg_poly_assoc=[i, i, d] + [p] * 3 + [i], leg_poly_assoc2=[i, i, i, p, p, p, p, i],
                         gen_spher_funcs=[i, i, i, d, p], gen_spher_funcs2=[i, i, i, i, p, p], gen_spher_funcs_0q=[i, i, d, p], gen_spher_funcs_p0=[i, i, d, p], gen_spher_funcs_prt=[i, d, p, p, p, p],
                         gen_spher_funcs_prt2=[i, i, p, p, p, p, p]).items(): getattr(L, n).argtypes = a
        L.simpsons_rule_quad.restype = i32
    def gen(self, r, i, tier):
        k = KINDS[i % len(KINDS)]; mu = [r.choice([0., 1., -1., rf(r.uniform(-1, 1), 17), rf(r.uniform(-1, 1), 17), rf(r.uniform(-1, 1), 17)]) for _ in range(r.randint(1, 4))]
        a, b = sorted([rf(r.uniform(-3, 3), 8), rf(r.uniform(-3, 3), 8)])
        if b - a < .01: b = a + 1.
        n = r.choice([1, 2, 3, 4, 5, 8, 16, 31, 32, 64, 100]) if r.random() < .5 else r.randint(1, 40)
        c = dict(kind=k, n=n, mu=mu)
        nd = r.randint(0, 3)
        if k in ("gauss_x", "fit"): c.update(a=a, b=b, al=[rf(r.uniform(-1, 1), 6) for _ in range(nd)], bl=[rf(r.uniform(-1, 1), 6) for _ in range(nd)])
        if k == "newton": c.update(a=a, b=b, n=r.choice([2, 3, 5, 8, 9, 21]), rule=r.choice(["simpsons_rule_quad", "trapezoidal_quad", "extended_trapezoidal_quad"]), c=[rf(r.uniform(-1, 1), 6) for _ in range(4)])
        if k == "assoc": c.update(m=r.randint(0, 6), n=r.randint(1, 40))
        if k == "gsf": c.update(p=r.randint(-4, 4), q=r.randint(-4, 4), n=r.randint(1, 14))
        if k == "gsf" and r.random() < .3: c[r.choice("pq")] = 0
        if k == "prt": c.update(n=r.randint(1, 20))
        return c
    def check(self, case): return getattr(self, case["kind"])(case)
    def near(self, g, w, tol, what):
        if not abs(g - w) <= tol: raise Fail("%s: %r instead of %r (more than %.1e apart)" % (what, g, w, tol))
    def moments(self, n, x, w, a, b, what, open_=True):
        """the nodes increase inside (a, b), the weights are positive, and all polynomials up to degree 2n-1 are exact"""
        h, m = (b - a) / 2, (a + b) / 2
        if not all(u > 0 for u in w) or not all(p < q for p, q in zip(x, x[1:])) or not a < x[0] <= x[-1] < b: raise Fail("%s: the nodes do not increase inside the interval with positive weights" % what)
        P = [legendre(2 * n, (u - m) / h) for u in x]
        for l in range(2 * n):
            s = math.fsum(v * q[l] for v, q in zip(w, P)) / (2 * h)
            self.near(s, float(l == 0), 3e-14 * (1 + .2 * n), "%s: integral of P%d over the interval" % (what, l))
    def gauss(self, case):
        n = case["n"]; x, w = (f64 * n)(), (f64 * n)()
        self.L.gauss_leg_quad(n, x, w)
        z = [-u for u in x][::-1] + list(x); v = list(w)[::-1] + list(w)
        self.moments(2 * n, z, v, -1., 1., "gauss_leg_quad")
        self.L.gauss_leg_quad2(n, x, w); self.moments(n, list(x), list(w), 0., 1., "gauss_leg_quad2")
        return dict(n=1)
    def gauss_x(self, case):
        n, a, b = case["n"], case["a"], case["b"]; x, w = (f64 * n)(), (f64 * n)(); nd = len(case["al"])
        if nd:
            xl, wl = rows(n, nd), rows(n, nd); self.L.gauss_leg_quadx_l(n, nd, a, b, dptr(case["al"]), dptr(case["bl"]), x, w, ptr(xl), ptr(wl))
        else: self.L.gauss_leg_quadx(n, a, b, x, w)
        self.moments(n, list(x), list(w), a, b, "gauss_leg_quadx")
        for i in range(n):
            t = (x[i] - a) / (b - a)
            for j in range(nd):
                al, bl = case["al"][j], case["bl"][j]
                self.near(xl[i][j], al + t * (bl - al), 1e-12, "derivative of node %d" % i); self.near(wl[i][j], w[i] * (bl - al) / (b - a), 1e-12, "derivative of weight %d" % i)
        return dict(n=1)
    def fit(self, case):
        n, a, b = case["n"], case["a"], case["b"]; x, w, y, v = [(f64 * n)() for _ in range(4)]; nd = len(case["al"])
        self.L.gauss_leg_quadx(n, -1., 1., x, w)
        if nd:
            z = rows(n, nd); yl, vl = rows(n, nd), rows(n, nd)
            self.L.gauss_leg_quad_fit_l(n, nd, a, b, dptr(case["al"]), dptr(case["bl"]), x, w, y, v, ptr(z), ptr(z), ptr(yl), ptr(vl))
        else: self.L.gauss_leg_quad_fit(n, a, b, x, w, y, v)
        self.moments(n, list(y), list(v), a, b, "gauss_leg_quad_fit")
        for i in range(n):
            t = (y[i] - a) / (b - a)
            for j in range(nd):
                al, bl = case["al"][j], case["bl"][j]
                self.near(yl[i][j], al + t * (bl - al), 1e-12, "derivative of node %d" % i); self.near(vl[i][j], v[i] * (bl - al) / (b - a), 1e-12, "derivative of weight %d" % i)
        return dict(n=1)
    def newton(self, case):
        n, a, b = case["n"], case["a"], case["b"]; x, w = (f64 * n)(), (f64 * n)(); k = case["rule"]
        rc = getattr(self.L, k)(n, a, b, x, w)
        if k.startswith("simp"):
            if n % 2 == 0:
                if rc != -1: raise Fail("Simpson's rule with %d points was accepted" % n)
                return dict(n=0)
            deg = 3
        else: deg = 1
        for i in range(n): self.near(x[i], a + i * (b - a) / (n - 1), 1e-13, "%s: point %d" % (k, i))
        c = case["c"][:deg + 1]; f = lambda u: sum(q * u ** e for e, q in enumerate(c)); F = lambda u: sum(q * u ** (e + 1) / (e + 1) for e, q in enumerate(c))
        self.near(math.fsum(w[i] * f(x[i]) for i in range(n)), F(b) - F(a), 1e-12 * (1 + max(abs(a), abs(b)) ** 4), k)
        return dict(n=1)
    def legendre(self, case):
        n, mu = case["n"], case["mu"]; r = rows(len(mu), n); self.L.leg_poly2(len(mu), n, dptr(mu), ptr(r)); p = (f64 * n)()
        self.L.leg_poly(n, mu[0], p)
        for u, g in zip(mu + [mu[0]], r + [p]):
            for l, w in enumerate(legendre(n, u)): self.near(g[l], w, 1e-13, "P%d(%r)" % (l, u))
        return dict(n=n - 1)
    def assoc(self, case):
        """sqrt((l-m)!/(l+m)!) times the associated Legendre function with the Condon-Shortley phase"""
        n, mu, M = case["n"], case["mu"], case["m"]; c, d = f64(), f64(); r = rows(len(mu), n)
        for m in range(M + 1):
            if m >= n: break
            for q in r: C.memset(q, 0xff, C.sizeof(q))
            if len(mu) == 1: self.L.leg_poly_assoc(m, n, mu[0], C.byref(c), C.byref(d), r[0], 1)
            else: self.L.leg_poly_assoc2(m, len(mu), n, dptr(mu), C.byref(c), C.byref(d), ptr(r), 1)
            for u, g in zip(mu, r):
                w = [0.] * m; a = (1 - u * u) ** (m / 2.)
                for k in range(1, m + 1): a *= -math.sqrt((2 * k - 1.) / (2. * k))
                w.append(a)
                for l in range(m, n - 1):
                    w.append(((2 * l + 1) * u * w[l] - (math.sqrt((l + m) * (l - m)) * w[l - 1] if l > m else 0.)) / math.sqrt((l - m + 1) * (l + m + 1)))
                for l in range(n): self.near(g[l], w[l], 1e-11, "order %d degree %d at %r" % (m, l, u))
        return dict(n=n - 1)
    def prt(self, case):
        n, mu = case["n"], case["mu"]; R = [rows(len(mu), n) for _ in range(4)]
        if len(mu) == 1: self.L.gen_spher_funcs_prt(n, mu[0], *[q[0] for q in R])
        else: self.L.gen_spher_funcs_prt2(len(mu), n, dptr(mu), *[ptr(q) for q in R])
        for q, (a, b) in zip(R, [(0, 0), (0, 2), (2, 2), (2, -2)]):
            for u, g in zip(mu, q):
                for l in range(n):
                    w, s = gsf(l, a, b, u); self.near(g[l], w.real, 1e-12 + 1e-14 * s, "P^%d_%d,%d(%r)" % (l, a, b, u))
        return dict(n=n - 2)
    def gsf(self, case):
        n, mu, p, q = case["n"], case["mu"], case["p"], case["q"]
        if n <= max(abs(p), abs(q)): n = max(abs(p), abs(q)) + 1
        R = rows(len(mu), 2 * n); self.L.gen_spher_funcs2(p, q, len(mu), n, dptr(mu), ptr(R)); out = list(zip(mu, R))
        one = (f64 * (2 * n))(); self.L.gen_spher_funcs(p, q, n, mu[0], one); out.append((mu[0], one))
        if p == 0 and q >= 0: one = (f64 * (2 * n))(); self.L.gen_spher_funcs_0q(q, n, mu[0], one); out.append((mu[0], one))
        if q == 0 and p >= 0: one = (f64 * (2 * n))(); self.L.gen_spher_funcs_p0(p, n, mu[0], one); out.append((mu[0], one))
        for u, g in out:
            for l in range(n):
                w, s = gsf(l, p, q, u); self.near(complex(g[2 * l], g[2 * l + 1]), w, 1e-11 + 1e-13 * s, "P^%d_%d,%d(%r)" % (l, p, q, u))
        return dict(n=n - 2)
    def nontrivial(self, case, st): return st["n"] > 0
    def classify(self, case, st): yield case["kind"]
    def shrinks(self, case):
        if len(case["mu"]) > 1: yield dict(case, mu=case["mu"][:1]); yield dict(case, mu=case["mu"][1:])
        if case["n"] > 1 and case["kind"] != "newton": yield dict(case, n=case["n"] - 1); yield dict(case, n=(case["n"] + 1) // 2)
