"""C28: scattering files read back as written; scattering coefficient inputs mean what they say."""
from scn import *
import gen, os, math, struct, ctypes as C, build
from xr import vp, i32, f64
from gen import rf

H = ["lambda", "mr", "mi", "a1", "a2", "a3", "a4", "a5", "r1", "r2", "accuracy", "norm", "reff", "veff", "gavg", "vavg", "ravg", "rvw", "cext", "csca", "cbak", "g"]
HI = ["n_int1", "n_int2", "n_quad"]
DIST = ["none", "modified_gamma", "log_normal", "power_law", "gamma", "modified_power_law", "modified_bimodal_log_normal", "exponential", "mono"]
QUAD = ["norm_gaus_leg", "doub_gaus_leg", "lobatto"]

class Header(C.Structure):
    _fields_ = [("dist_type", i32)] + [(n, i32) for n in HI] + [(n, f64) for n in H]
ORDER = ["lambda", "mr", "mi", "dist_type", "a1", "a2", "a3", "a4", "a5", "r1", "r2", "n_int1", "n_int2", "n_quad", "accuracy", "norm", "reff", "veff", "gavg", "vavg",
         "ravg", "rvw", "cext", "csca", "cbak", "g"]
ZERO = {n: 0 for n in ORDER}

def num(r):
    return r.choice([0., 1., -1., rf(r.uniform(-1, 1), 6), rf(r.uniform(-1, 1), 17), r.choice([1, -1]) * gen.logu(r, 1e-300, 1e300), r.choice([1, -1]) * gen.logu(r, 1e-6, 1e4)])
def fnum(r):
    return r.choice([0., 1., rf(r.uniform(-1, 1), 17), r.choice([1, -1]) * gen.logu(r, 1e-30, 1e30)])
def header(r):
    h = {n: num(r) for n in H}; h.update({n: r.choice([0, 1, r.randrange(1000), 2 ** 31 - 1]) for n in HI}); h["dist_type"] = r.randrange(len(DIST)); return h
def table(r, *n, f=num):
    return [table(r, *n[1:], f=f) if len(n) > 1 else f(r) for _ in range(n[0])]
def text(v):
    return [text(x) for x in v] if isinstance(v, list) else float("%e" % v)
def single(v):
    return [single(x) for x in v] if isinstance(v, list) else struct.unpack("f", struct.pack("f", v))[0]
def nested(v, keep):
    a = (vp * len(v))(*[C.cast(nested(x, keep), vp) for x in v]) if isinstance(v[0], list) else (f64 * len(v))(*v)
    keep.append(a); return a
def shape(p, dims, t=f64):
    if len(dims) == 1: return list((t * dims[0]).from_address(p)) if dims[0] else []
    return [shape(q, dims[1:], t) for q in (vp * dims[0]).from_address(p)]

def coefficients(name, n):
    """what a coefficient name stands for: (flag, rows of six) or None if it is not a name"""
    w = name.split(":"); k = w[0]
    N = dict(hg=1, hg_l=2, dhg=3, dhg_l=6, ray=1, ray_l=2, none=0)
    try: a = [float(x) for x in w[1:]]
    except ValueError: return None
    if k not in N or len(a) != N[k]: return None
    z = [0.] * 6
    if k == "none": return 2, [list(z) for _ in range(n)]
    if k in ("ray", "ray_l"):
        rho = a[0]; A = (1 - rho) / (2 + rho); D = 3 * (1 - 2 * rho) / (2 + rho); one = 1.
        if k == "ray_l":
            one = 0.; A = a[1] * (-3 / (2 + rho) ** 2); D = a[1] * 3 * (-5 / (2 + rho) ** 2)
        return 0, [[one, 0, 0, 0, 0, 0], [0, 0, 0, D, 0, 0], [A, 6 * A, 0, 0, math.sqrt(6.) * A, 0]]
    pw = lambda g, l: g ** l
    dp = lambda g, l, gl: l * g ** (l - 1) * gl if l else 0.
    c = []
    for l in range(n):
        if k == "hg": v = pw(a[0], l)
        if k == "hg_l": v = dp(a[0], l, a[1])
        if k == "dhg": v = a[2] * pw(a[0], l) + (1 - a[2]) * pw(a[1], l)
        if k == "dhg_l": v = a[5] * (pw(a[0], l) - pw(a[1], l)) + a[2] * dp(a[0], l, a[3]) + (1 - a[2]) * dp(a[1], l, a[4])
        c.append([(2 * l + 1) * v] + z[1:])
    return 0, c

KINDS = ["header_text", "header_bin", "phase", "coefs_text", "coefs_bin", "total", "mats", "interp", "name", "name_file", "cut"]

class P(Prop):
    id = "C28"
    quick, thorough = 22000, 400000
    sanitized = True
    builds = [("asan", ("src", "misc"))]
    rule = "a file was written and read back and compared, or a coefficient name was evaluated and compared"
    def worker_setup(self):
        self.L = L = the_lib("asan", "libvxm.so").L
        L.vxm_live.restype = C.c_long; L.fopen = C.CDLL(None).fopen; L.fclose = C.CDLL(None).fclose
        L.fopen.restype = vp; L.fopen.argtypes = [C.c_char_p, C.c_char_p]; L.fclose.argtypes = [vp]
        d = os.path.join(build.BUILD, "tmp"); os.makedirs(d, exist_ok=True)
        self.f = os.path.join(d, "c28.%d" % os.getpid()).encode()
        s, p = C.c_char_p, C.c_void_p
        for n, a in dict(scat_header_read_fn=[s, p], scat_header_write_fn=[s, p], scat_header_read_bin_fn=[s, p], scat_header_write_bin_fn=[s, p],
                         scat_header_read_fp=[p, p], scat_header_write_fp=[p, p], scat_header_read_bin_fp=[p, p], scat_header_write_bin_fp=[p, p],
                         scat_header_skip=[p], scat_header_blank=[p], scat_header_skip_bin=[p], scat_header_blank_bin=[p], scat_header_size_bin=[],
                         scat_header_interp=[f64, p, p, p], scat_coefs_interp=[f64, i32, p, p, i32, p, p, p, p, i32],
                         phase_func_read_fn=[s, p, p, p, i32], phase_func_read_fp=[p, p, p, p, i32], phase_func_write_fn=[s, p, p, p, i32, i32], phase_func_write_fp=[p, p, p, p, i32, i32],
                         scat_coefs_read_fn=[s, i32, p, p, i32], scat_coefs_read_fp=[p, i32, p, p, i32], scat_coefs_write_fn=[s, i32, p, p, i32], scat_coefs_write_fp=[p, i32, p, p, i32],
                         scat_coefs_read_bin_fn=[s, i32, p, p, i32, i32], scat_coefs_read_bin_fp=[p, i32, p, p, i32, i32],
                         scat_coefs_write_bin_fn=[s, i32, p, p, i32, i32], scat_coefs_write_bin_fp=[p, i32, p, p, i32, i32], scat_coefs_size_bin=[i32, i32, i32],
                         scat_total_read_fn=[s] + [p] * 12, scat_total_write_fn=[s, p, i32, i32, i32] + [p] * 8,
                         phase_mats_read_fn=[s] + [p] * 7, phase_mats_write_fn=[s, p, i32, i32, i32] + [p] * 4,
                         load_scat_coefs=[s, i32, p, p], load_scat_coefs2=[s, i32, i32, p, p]).items():
            getattr(L, n).argtypes = a; getattr(L, n).restype = i32
        for n in "free_array1_d free_array2_d free_array2_f free_array3_d free_array5_d".split(): getattr(L, n).argtypes = [p]; getattr(L, n).restype = None
    # ---------------------------------------------------------------- generation
    def gen(self, r, i, tier):
        k = KINDS[i % len(KINDS)]
        h = header(r) if r.random() < .8 else None; h2 = header(r)
        c = dict(kind=k, h=h, fn=r.random() < .5, reps=r.choice([1, 1, 2, 3]), skip=r.random() < .2)
        if k == "interp":
            h2["dist_type"] = (h or h2)["dist_type"] if r.random() < .9 else h2["dist_type"]
            n1, n2 = r.randint(1, 8), r.randint(1, 8)
            small = lambda q: {n: (rf(r.uniform(-2, 2), 17) if n in H else v) for n, v in q.items()}
            return dict(c, h=small(h or header(r)), h2=small(h2), a=r.choice([0., 1., .5, rf(r.random(), 17), 1.3, -.2]), six=r.random() < .5, c1=table(r, 6, n1, f=lambda r: rf(r.uniform(-2, 2), 17)),
                        c2=table(r, 6, n2, f=lambda r: rf(r.uniform(-2, 2), 17)))
        if k in ("coefs_text", "phase"): return dict(c, six=r.random() < .5, six2=r.random() < .5, n_coef=r.choice([0, 0, 1, 3, 5, 20, -1]), data=table(r, 6, r.choice([1, 2, 3, 5, 8, 13])), theta=table(r, 13))
        if k == "coefs_bin":
            ne = r.choice([1, 6, r.randint(1, 6)])
            return dict(c, n_elem=ne, n_elem2=r.choice([ne, ne, 1, r.randint(1, ne), r.randint(1, 6)]), size=r.choice([4, 8]), size2=r.choice([4, 8]), n_coef=r.choice([0, 0, 1, 3, 5, 20, -1]),
                        data=table(r, ne, r.choice([1, 2, 3, 5, 8, 13]), f=fnum))
        if k in ("total", "mats"):
            n = r.randint(1, 4); c.update(n_quad=n, n_four=r.choice([1, 2, 2 * n]), quad=r.randrange(len(QUAD)))
            if k == "total": return dict(c, data=table(r, 8, 2 * n))
            return dict(c, data=table(r, c["n_four"], 2 * n, 2 * n, 4, 4), kext=table(r, 2 * n, 4, 4), kemi=table(r, 2 * n, 4), qx=table(r, n) if r.random() < .7 else None)
        if k in ("name", "name_file"):
            c.update(n=r.choice([1, 2, 3, 4, 8, 17]), n2=r.choice([0, 1, 2, 3, 5, 20]), two=r.random() < .5)
            if k == "name_file":
                f = r.choice(["gc", "gc6", "lc", "lc6"])
                t = table(r, 6, r.choice([1, 2, 3, 8]), f=lambda r: rf(r.uniform(-3, 3), 8))
                if r.random() < .7: t[0][0] = r.choice([1., 1., 0.])
                return dict(c, name=f, data=t, six=f[-1] == "6" or r.random() < .5, path=r.random() < .93)
            g = lambda: "%.12g" % r.choice([0., 1., -1., r.uniform(-1, 1), r.uniform(-1, 1)])
            q = r.choice(["hg", "hg_l", "dhg", "dhg_l", "ray", "ray_l", "none"]); na = dict(hg=1, hg_l=2, dhg=3, dhg_l=6, ray=1, ray_l=2, none=0)[q]
            a = [g() for _ in range(na)]
            if q.startswith("ray"): a[0] = "%.12g" % r.choice([0., r.uniform(0, .5)])
            if r.random() < .12:
                b = r.randrange(4)
                if b == 0 and a: a.pop()
                elif b == 1 and a: a[r.randrange(len(a))] = r.choice(["x", "1.2y", "0.5 z"])
                elif b == 2: q = r.choice(["HG", "hgg", "rays", "file", "dhg6"])
                elif q in ("hg", "hg_l", "dhg", "dhg_l", "none"): c["n"] = 0; c["n2"] = 0; c["two"] = False
            return dict(c, name=":".join([q] + a))
        if k == "cut":
            j = r.choice([k for k in KINDS if k not in ("interp", "name", "name_file", "cut")])
            d = self.gen(r, KINDS.index(j), tier); d.update(n_coef=r.choice([0, 0, 50]), fn=True, reps=1)
            if "six" in d: d["six"] = d["six2"] = r.random() < .5
            if "n_elem" in d: d["n_elem2"] = d["n_elem"]
            return dict(kind="cut", of=d, at=r.random())
        return c
    # ---------------------------------------------------------------- checking
    def check(self, case):
        n0 = self.L.vxm_live(); f0 = len(os.listdir("/proc/self/fd"))
        try:
            st = getattr(self, case["kind"])(case)
        finally:
            if os.path.exists(self.f): os.unlink(self.f)
        f1 = len(os.listdir("/proc/self/fd")); n1 = self.L.vxm_live()
        if f1 != f0: raise Fail("%d files were left open" % (f1 - f0))
        if n1 != n0: raise Fail("%d allocations were left" % (n1 - n0))
        return st
    def hdr(self, h):
        if h is None: return None
        x = Header(); [setattr(x, n, v) for n, v in h.items()]; return x
    def eqh(self, h, x, txt):
        w = dict(h or ZERO)
        if txt: w["accuracy"] = 0.; w = {n: float("%e" % v) if n in H else v for n, v in w.items()}
        for n in ORDER:
            if getattr(x, n) != w[n]: raise Fail("header value %s: written %r, read %r" % (n, (h or ZERO)[n], getattr(x, n)))
    def ok(self, rc, what, want=0):
        if rc != want: raise Fail("%s returned %d instead of %d" % (what, rc, want))
    def same(self, got, want, what, tol=0.):
        if isinstance(want, list):
            if len(got) != len(want): raise Fail("%s: %d values instead of %d" % (what, len(got), len(want)))
            for i, (g, w) in enumerate(zip(got, want)): self.same(g, w, "%s[%d]" % (what, i), tol)
        elif not abs(got - want) <= tol * max(1., abs(want)): raise Fail("%s: %r instead of %r" % (what, got, want))
    def io(self, base, case, wargs, rargs, back, want):
        """writes reps records, reads them back; back(rc, header or None): compares one"""
        L = self.L; h = self.hdr(case["h"]); hp = C.byref(h) if h else None
        b = "_bin" if base.endswith("_bin") else ""; base = base[:-4] if b else base
        w, rd = getattr(L, base + "_write%s_f%s" % (b, "n" if case["fn"] else "p")), getattr(L, base + "_read%s_f%s" % (b, "n" if case["fn"] else "p"))
        reps = 1 if case["fn"] else case["reps"]
        fp = self.f
        if not case["fn"]: fp = L.fopen(self.f, b"w")
        for _ in range(reps): self.ok(w(*wargs(fp, hp)), base + "_write" + b)
        if not case["fn"]: L.fclose(fp); fp = L.fopen(self.f, b"r")
        for _ in range(reps):
            x = Header(); back(rd(*rargs(fp, None if case["skip"] else C.byref(x))))
            if not case["skip"]: self.eqh(case["h"], x, not b)
        if not case["fn"]: L.fclose(fp)
        return dict(n=reps)
    def headers(self, case, b):
        L = self.L; h = self.hdr(case["h"]); reps = 1 if case["fn"] else case["reps"]
        g = lambda n: getattr(L, n.replace("@", b))
        x = Header()
        if case["fn"]:
            if h is None: return dict(n=0)
            self.ok(g("scat_header_write@_fn")(self.f, C.byref(h)), "scat_header_write"); self.ok(g("scat_header_read@_fn")(self.f, C.byref(x)), "scat_header_read"); self.eqh(case["h"], x, not b)
        else:
            fp = L.fopen(self.f, b"w")
            for _ in range(reps): self.ok(g("scat_header_blank@")(fp) if h is None else g("scat_header_write@_fp")(fp, C.byref(h)), "scat_header_write")
            L.fclose(fp); fp = L.fopen(self.f, b"r")
            for j in range(reps):
                if case["skip"] and j == 0: self.ok(g("scat_header_skip@")(fp), "scat_header_skip"); continue
                x = Header(); self.ok(g("scat_header_read@_fp")(fp, C.byref(x)), "scat_header_read"); self.eqh(case["h"], x, not b)
            L.fclose(fp)
        if b and os.path.getsize(self.f) != reps * L.scat_header_size_bin(): raise Fail("%d headers take %d bytes, one should take %d" % (reps, os.path.getsize(self.f), L.scat_header_size_bin()))
        return dict(n=reps)
    def header_text(self, case): return self.headers(case, "")
    def header_bin(self, case): return self.headers(case, "_bin")
    def phase(self, case):
        n = len(case["data"][0]); t, p = vp(), vp(); k = []; th = (f64 * n)(*case["theta"][:n]); d = nested(case["data"], k); six = case["six"]
        def back(rc):
            self.ok(rc, "phase_func_read", n)
            a, b = shape(t.value, [n]), shape(p.value, [6, n]); self.L.free_array1_d(t); self.L.free_array2_d(p)
            self.same(a, text(case["theta"][:n]), "angle")
            self.same(b, [text(case["data"][e]) if six or e == 0 else [0.] * n for e in range(6)], "phase function")
        return self.io("phase_func", case, lambda f, h: (f, h, th, d, n, six), lambda f, h: (f, h, C.byref(t), C.byref(p), six), back, None)
    def coefs_text(self, case):
        n = len(case["data"][0]); k = []; d = nested(case["data"], k); q = vp()
        six, six2 = case["six"], case["six2"] and case["six"]; nc = case["n_coef"]; m = min(n, nc) if nc > 0 else n
        if case["reps"] > 1 and m < n: nc = 0; m = n        # the rest of a record is not skipped
        def back(rc):
            self.ok(rc, "scat_coefs_read", m)
            a = shape(q.value, [6 if six2 else 1, m]); self.L.free_array2_d(q)
            self.same(a, [text(x[:m]) for x in case["data"]][:6 if six2 else 1], "coefficients")
        return self.io("scat_coefs", case, lambda f, h: (f, n, h, d, six), lambda f, h: (f, nc, h, C.byref(q), six2), back, None)
    def coefs_bin(self, case):
        n = len(case["data"][0]); k = []; d = nested(case["data"], k); q = vp(); ne, ne2 = case["n_elem"], case["n_elem2"]; nc = case["n_coef"]; m = min(n, nc) if nc > 0 else n
        if ne2 > ne:
            self.ok(self.L.scat_coefs_write_bin_fn(self.f, n, None, d, case["size"], ne), "scat_coefs_write_bin"); self.ok(self.L.scat_coefs_read_bin_fn(self.f, nc, None, C.byref(q), case["size2"], ne2), "reading more elements than there are", -1)
            return dict(n=0)
        def back(rc):
            self.ok(rc, "scat_coefs_read_bin", m)
            f4 = case["size2"] == 4
            a = shape(q.value, [ne2, m], C.c_float if f4 else f64); (self.L.free_array2_f if f4 else self.L.free_array2_d)(q)
            w = [x[:m] for x in case["data"][:ne2]]
            self.same(a, single(w) if 4 in (case["size"], case["size2"]) else w, "coefficients")
        st = self.io("scat_coefs_bin", case, lambda f, h: (f, n, h, d, case["size"], ne), lambda f, h: (f, nc, h, C.byref(q), case["size2"], ne2), back, None)
        if os.path.getsize(self.f) != st["n"] * self.L.scat_coefs_size_bin(n, case["size"], ne): raise Fail("the file's size is not the predicted size")
        return st
    def total(self, case, read=True):
        L = self.L; h = self.hdr(case["h"]); n = 2 * case["n_quad"]
        self.ok(L.scat_total_write_fn(self.f, C.byref(h) if h else None, case["n_quad"], case["n_four"], case["quad"], *[(f64 * n)(*x) for x in case["data"]]), "scat_total_write")
        x = Header(); i = [i32() for _ in range(3)]; d = [(f64 * n)() for _ in range(8)]
        rc = L.scat_total_read_fn(self.f, None if case["skip"] else C.byref(x), *[C.byref(j) for j in i], *d) if read else L.scat_total_read_fn
        self.ok(rc, "scat_total_read")
        self.same([j.value for j in i], [case["n_quad"], case["n_four"], case["quad"]], "sizes"); self.same([list(y) for y in d], text(case["data"]), "data")
        if not case["skip"]: self.eqh(case["h"], x, True)
        return dict(n=1)
    def mats(self, case):
        L = self.L; h = self.hdr(case["h"]); n = 2 * case["n_quad"]; nf = case["n_four"]; k = []
        self.ok(L.phase_mats_write_fn(self.f, C.byref(h) if h else None, case["n_quad"], nf, case["quad"], (f64 * (n // 2))(*case["qx"]) if case["qx"] else None, nested(case["data"], k), nested(case["kext"], k),
                                      nested(case["kemi"], k)), "phase_mats_write")
        x = Header(); i = [i32() for _ in range(3)]; p, ke, km = vp(), vp(), vp()
        self.ok(L.phase_mats_read_fn(self.f, None if case["skip"] else C.byref(x), *[C.byref(j) for j in i], C.byref(p), C.byref(ke), C.byref(km)), "phase_mats_read")
        a = shape(p.value, [nf, n, n, 4, 4]), shape(ke.value, [n, 4, 4]), shape(km.value, [n, 4])
        L.free_array5_d(p); L.free_array3_d(ke); L.free_array2_d(km)
        self.same([j.value for j in i], [case["n_quad"], nf, case["quad"]], "sizes"); self.same(a[0], text(case["data"]), "phase matrix"); self.same(a[1], text(case["kext"]), "extinction matrix"); self.same(a[2], text(case["kemi"]), "emission vector")
        if not case["skip"]: self.eqh(case["h"], x, True)
        return dict(n=1)
    def interp(self, case):
        L = self.L; h1, h2, x = self.hdr(case["h"]), self.hdr(case["h2"]), Header(); a = case["a"]; k = []
        n1, n2 = len(case["c1"][0]), len(case["c2"][0]); n = max(n1, n2); ne = 6 if case["six"] else 1
        out = [[7.] * n for _ in range(6)]; rows = [(f64 * n)(*y) for y in out]; o = (vp * 6)(*[C.cast(y, vp) for y in rows])
        rc = L.scat_coefs_interp(a, n1, C.byref(h1), nested(case["c1"], k), n2, C.byref(h2), nested(case["c2"], k), C.byref(x), o, case["six"])
        if case["h"]["dist_type"] != case["h2"]["dist_type"]: self.ok(rc, "interpolation between different size distributions", -1); return dict(n=0)
        self.ok(rc, "scat_coefs_interp", n)
        for q in H: self.same(getattr(x, q), (1 - a) * case["h"][q] + a * case["h2"][q], q, 1e-14)
        for q in HI: self.same(getattr(x, q), max(case["h"][q], case["h2"][q]), q)
        pad = lambda t: t + [0.] * (n - len(t))
        for e in range(6):
            w = [(1 - a) * p + a * q for p, q in zip(pad(case["c1"][e]), pad(case["c2"][e]))] if e < ne else [7.] * n
            self.same(list(rows[e]), w, "coefficients", 1e-14)
        return dict(n=1)
    def load(self, case, name, want):
        """loads a coefficient name in one of the two ways; want(n) -> (flag, rows) or None"""
        q, flag = vp(), i32(-9); n, n2 = case["n"], case["n2"]
        if case["two"]:
            rc = self.L.load_scat_coefs2(name.encode(), n, n2, C.byref(q), C.byref(flag))
            user = name.split(":")[0] in ("hg", "hg_l", "dhg", "dhg_l", "none"); w = want(n if user else n2)
        else: rc = self.L.load_scat_coefs(name.encode(), n, C.byref(q), C.byref(flag)); w = want(n)
        if w is None:
            if rc != -1: raise Fail("%r was accepted" % name)
            return dict(n=0)
        f, rows = w; self.ok(rc, "load_scat_coefs(%s)" % name, len(rows))
        m = max(len(rows), n) if case["two"] else len(rows)
        a = shape(q.value, [6, m]); self.L.free_array2_d(q)
        self.ok(flag.value, "the type of coefficients", f)
        n0 = rows[0][0]
        if n0 not in (0., 1.): rows = [[v / n0 for v in x] for x in rows]
        rows = rows + [[0.] * 6] * (m - len(rows))
        self.same([list(x) for x in zip(*a)], [list(map(float, x)) for x in rows], name, 1e-12)
        return dict(n=1)
    def name(self, case):
        def want(n):
            if n <= 0 and case["name"].split(":")[0] in ("hg", "hg_l", "dhg", "dhg_l", "none"): return None
            return coefficients(case["name"], n)
        return self.load(case, case["name"], want)
    def name_file(self, case):
        d = case["data"]; k = []; n = len(d[0])
        self.ok(self.L.scat_coefs_write_fn(self.f, n, None, nested(d, k), case["six"]), "scat_coefs_write")
        if not case["path"]: return self.load(case, r"%s:%s.missing" % (case["name"], self.f.decode()), lambda m: None)
        def want(m):
            m = min(m, n) if m > 0 else n
            return (0 if case["name"][:2] == "gc" else 1), [[text(d[e][i]) if e == 0 or case["name"][-1] == "6" else 0. for e in range(6)] for i in range(m)]
        return self.load(case, "%s:%s" % (case["name"], self.f.decode()), want)
    def cut(self, case):
        """a file which ends early is refused by every reader"""
        L = self.L; c = case["of"]; k = c["kind"]; keep = []; b = k.endswith("bin"); x = Header(); q, q2, q3 = vp(), vp(), vp(); i = [i32() for _ in range(3)]
        getattr(self, k)(c)
        if not os.path.exists(self.f): return dict(n=0)
        t = open(self.f, "rb").read()
        if b: n = int(case["at"] * len(t))
        else:
            w = t.rstrip(); e = max(w.rfind(b" "), w.rfind(b"\n")) + 1; n = int(case["at"] * (e + 1))
        open(self.f, "wb").write(t[:n])
        f = self.f; X = None if c["skip"] else C.byref(x); N = 2 * c.get("n_quad", 1)
        if k == "header_text": rc = L.scat_header_read_fn(f, C.byref(x))
        if k == "header_bin": rc = L.scat_header_read_bin_fn(f, C.byref(x))
        if k == "phase": rc = L.phase_func_read_fn(f, X, C.byref(q), C.byref(q2), c["six"])
        if k == "coefs_text": rc = L.scat_coefs_read_fn(f, c["n_coef"], X, C.byref(q), c["six2"])
        if k == "coefs_bin": rc = L.scat_coefs_read_bin_fn(f, c["n_coef"], X, C.byref(q), c["size2"], c["n_elem2"])
        if k == "total": rc = L.scat_total_read_fn(f, X, *[C.byref(j) for j in i], *[(f64 * N)() for _ in range(8)])
        if k == "mats": rc = L.phase_mats_read_fn(f, X, *[C.byref(j) for j in i], C.byref(q), C.byref(q2), C.byref(q3))
        if rc != -1: raise Fail("%s: the first %d of %d bytes were read as a whole file (%d)" % (k, n, len(t), rc))
        return dict(n=1)
    def nontrivial(self, case, st): return st["n"] > 0
    def classify(self, case, st):
        yield case["kind"]
        if case["kind"] == "cut": yield "cut " + case["of"]["kind"]
        elif case["kind"] in ("phase", "coefs_text", "coefs_bin", "header_text", "header_bin"): yield "named file" if case["fn"] else "%d records in an open file" % case["reps"]
        if case["kind"] == "name": yield case["name"].split(":")[0]
    def shrinks(self, case):
        for k in ("h",):
            if case.get(k): yield dict(case, **{k: None})
        if case.get("reps", 1) > 1: yield dict(case, reps=1)
        if case.get("fn") is False: yield dict(case, fn=True)
        d = case.get("data")
        if d and case["kind"] in ("phase", "coefs_text", "coefs_bin", "name_file") and len(d[0]) > 1: yield dict(case, data=[x[:-1] for x in d])
