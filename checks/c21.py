"""C21: callxrtm's input says what the API calls say; written input reads back; printed results are the API's."""
from scn import *
import gen, api, xif, math, copy, os, subprocess, ctypes as C
from xr import X, IERR, DERR, vp, i32
import build, c18

GROUPS = c18.GROUPS
def scene(r):
    s = c18.scene(r)
    ks = [k if k != "user_defined" else "rahman" for k in s["kernels"]]         # a function cannot be given in an input
    for i, k in enumerate(ks):
        if s["kernels"][i] != k: s["kernel"][i] = gen.brdf_kernel(r, k)
    s["kernels"] = ks
    return s

DEF1 = dict(n_quad=16, n_stokes=1, n_derivs=0, n_layers=1, n_kernels=0, n_kernel_quad=16, n_out_levels=1, n_out_thetas=0)
DEF2 = dict(doub_d_tau=1e-9, fourier_tol=0., F_iso_top=0., F_iso_bot=0., phi_0=0.)

def close(k, a, b, tol):
    if b == "?": return True
    if a is None or b is None: return a is b
    if isinstance(b, list): return len(a) == len(b) and all(close(k, x, y, tol) for x, y in zip(a, b))
    if k in ("theta_0", "out_thetas"): return abs(a - b) <= 1e-6 + tol * abs(b)
    return abs(a - b) <= tol * abs(b) or (k == "omega" and abs(a - b) < 1.01e-5 and b > .99998)

class Got(X):
    """An instance made by the reader."""
    def __init__(self, lib, s, how, arg, array2):
        self.lib = lib; self.L = lib.L; self.s = s; L = self.L
        self.h = L.vx_new(); self.v = vp(L.vi_new())
        rc = (L.vi_read_file if how == "file" else L.vi_read_string)(self.h, self.v, arg.encode(), array2)
        if rc: raise Fail("valid input was refused")
        self.nl = s["n_out_levels"]; self.nt = s["n_out_thetas"] or s["n_quad"]; self.ns = s["n_stokes"]
        self.nd = s["n_derivs"] if "CALC_DERIVS" in s["options"] else 0
        self.nelem = 1 if s["n_stokes"] == 1 else 6; self.nlay = s["n_layers"]
    def close(self):
        if self.h:
            self.L.xrtm_destroy(self.h); self.L.vx_free(self.h); self.h = None
            self.L.vi_free(self.v)

def setup_lib(L):
    for n, res, a in [("vi_new", vp, []), ("vi_free", None, [vp]), ("vi_read_file", i32, [vp, vp, C.c_char_p, i32]), ("vi_read_string", i32, [vp, vp, C.c_char_p, i32]),
                      ("vi_write", i32, [vp, vp, C.c_char_p, i32, i32, i32, i32, i32])]:
        f = getattr(L, n); f.restype = res; f.argtypes = a

def read_table(lines, ncol):
    """fixed columns as printed: 14 wide, the stokes index 10 wide"""
    out = []
    for l in lines:
        f = []; p = 0
        for w in ncol:
            f.append(float(l[p:p + w])); p += w
        if l[p:].strip(): raise Fail("callxrtm printed %r after the last expected column" % l[p:])
        out.append(f)
    return out

class P(Prop):
    id = "C21"
    quick, thorough = 12000, 300000
    cpu_per_case = 120
    builds = [("opt", ("src", "misc", "utils"))]
    rule = "at least five statements after the creation block were read and every value compared with the model of the API"
    def worker_setup(self):
        self.lib = the_lib("opt", "libvxi.so"); setup_lib(self.lib.L)
        d = os.path.join(build.BUILD, "tmp"); os.makedirs(d, exist_ok=True)
        self.f = os.path.join(d, "c21.%d" % os.getpid())
        self.exe = os.path.join(build.BUILD, "opt", "tree", "utils", "callxrtm")
    def put(self, t, n=""):
        with open(self.f + n, "w") as f: f.write(t)
        return self.f + n
    def gen(self, r, i, tier):
        s = scene(r)
        run = None
        if i % 4 == 0:
            sv = r.choice(s["solvers"])
            o = ["RADIANCE"] if sv == "SINGLE" else r.choice([["RADIANCE"], ["RADIANCE", "MEAN", "FLUX"], ["MEAN", "FLUX"], ["FLUX"], ["RADIANCE", "MEAN"]])
            run = dict(solver=sv, outs=o, phis=s["phis"], named=r.random() < .7, string=r.random() < .5, default_phi=r.random() < .15)
            if sv == s["solvers"][0] and r.random() < .5: run["named"] = False
        return dict(scene=s, ops=xif.operations(r, s, r.choice([2, 4, 8, 15])), style=r.randrange(10 ** 9), run=run,
                    write=[r.randint(0, 1) for _ in range(2)])
    def same_all(self, x, m, what, tol=None):
        L, h, s = x.L, x.h, m.s
        for k in c18.CREATION + ["options", "solvers", "n_kernel_quad"]:
            v = getattr(L, "xrtm_get_" + k)(h)
            e = {"n_kernels": lambda: len(s["kernels"])}.get(k, lambda: s.get(k))()
            if k in ("options", "solvers"):
                t = xr.OPT if k == "options" else xr.SOLV
                v &= xr.mask(s[k], t); e = xr.mask(s[k], t)
            if v != e: raise Fail("%s: %s is %d, the input says %d" % (what, k, v, e))
        n = 0
        for g in api.all_gets(m):
            if tol and g == ["sc", "phi_0"] and "SOURCE_SOLAR" not in s["options"]: continue         # has no meaning then, and is not written
            b = m.get(g)
            if b is None and g[0] not in ("lay", "coef", "amp", "par", "n_coef"): continue
            a = api.getv(x, m, g); n += 1
            k = g[1] if len(g) > 1 else g[0]
            good = close(k, a, b, tol) if tol else (c18.same(k, a, b) or (g[0] in ("coef", "coef_l") and close(k, a, b, 1e-13)))
            if not good and a is not None and b is not None and g[0] in ("coef", "coef_l") and isinstance(b, float) and abs(a - b) < 1e-13: good = True
            if not good: raise Fail("%s: getter %r returns %r, the input says %r" % (what, g, "an error" if a is None else a, "an error" if b is None else b))
        return n
    def check(self, case):
        s = case["scene"]; st = dict(statements=len(case["ops"]), values=0, written=0, ran=0)
        m = api.Model(s)
        for op in case["ops"]: xif.apply(m, op)
        L = self.lib.L
        # 1. read a file, 2. read a string
        t1 = xif.text(s, case["ops"], case["style"], False)
        t2 = xif.text(s, case["ops"], case["style"] + 1, True)
        for how, arg, a2 in (("file", self.put(t1), 0), ("string", t2, 1), ("file", self.put(t2, "b"), 1)):
            with Got(self.lib, s, how, arg, a2) as x:
                st["values"] += self.same_all(x, m, "reading a " + how)
                # 3. write and read back
                if m.complete():
                    al, arr2 = case["write"]
                    if L.vi_write(x.h, x.v, (self.f + "w").encode(), 10, al, arr2, arr2, 1 - arr2): raise Fail("writing a complete instance failed")
                    t = open(self.f + "w").read()
                    with Got(self.lib, s, "string" if arr2 else "file", t.replace("::", "  ") if arr2 else self.f + "w", arr2) as y:
                        self.same_all(y, m, "reading what was written", 1.1e-6); st["written"] += 1
        # 4. the program
        run = case["run"]
        if run and m.complete():
            outs = run["outs"]; phis = [0.] if run["default_phi"] else run["phis"]
            m2 = copy.deepcopy(m); m2.updated = True
            if m2.solve_ok([0, run["solver"], outs, len(phis)]):
                self.program(case, m, run, outs, phis); st["ran"] = 1
        return st
    def program(self, case, m, run, outs, phis):
        s = case["scene"]; sv = run["solver"]
        arg = [self.exe]
        if run["string"]:
            skip = [k for k, v in DEF1.items() if (len(s["kernels"]) if k == "n_kernels" else s[k]) == v]
            ops = case["ops"]
            arg += ["-input_string", xif.text(s, ops, case["style"] + 2, True, skip, "::")]
        else: arg += ["-input_file", self.put(xif.text(s, case["ops"], case["style"] + 2, False))]
        if run["named"] or sv != self.first(s): arg += ["-solver", sv.lower()]
        if not run["default_phi"]: arg += ["-out_phis", ",".join(repr(float(p)) for p in phis)]
        if "RADIANCE" not in outs: arg.append("-no_radiance")
        if "MEAN" in outs: arg.append("-radiance_mean")
        if "FLUX" in outs: arg.append("-flux")
        p = subprocess.run(arg, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        if p.returncode: raise Fail("callxrtm ended with %d on a valid input: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-300:]))
        import numpy as np
        mm = api.Model(s)
        def by_api(e=0.):
            m1 = api.Model(s)
            with X(self.lib, s) as x:
                for op in case["ops"]:
                    for o in (xif.spread(op, m1) if op[0] in xif.NAMED else [op]):
                        if o[0] in ("lay1", "layn") and o[1] == "ltau": o = o[:-1] + [[v * (1. + e) for v in o[-1]] if o[0] == "layn" else o[-1] * (1. + e)]
                        if o[0] == "coef1" and e: o = o[:3] + [[[v * (1. + e * ((q * 7 + w) % 3 - 1) * (q + w > 0)) for q, v in enumerate(u)] for w, u in enumerate(o[3])]]
                        if api.call(x, m1, o): raise Fail("the API refuses %s" % str(o)[:200])
                        m1.apply(o)
                if m1.nd: x.call("xrtm_update_varied_layers")
                o = x.solve(sv, outs, phis)
                nq = x.s["n_quad"]; qx = np.zeros(nq + s["n_out_thetas"]); L = x.L; L.xrtm_qx(x.h, xr.dp(qx))
            return x, o, qx
        x, o, qx = by_api(); nq = s["n_quad"]
        noise = []
        def rounding(key):
            """how far results move when optical thicknesses and coefficients move in the last digits"""
            if not noise: noise.extend(by_api(e)[1] for e in (3e-15, -3e-15, 1e-14, -1e-14))
            return max(float(np.abs(n[key] - o[key]).max()) for n in noise)
        lines = p.stdout.decode().split("\n")
        blocks = []; cur = []
        for l in lines:
            if l.strip(): cur.append(l)
            elif cur: blocks.append(cur); cur = []
        want = [k for k in ("RADIANCE", "MEAN", "FLUX") if k in outs]
        if len(blocks) != len(want): raise Fail("callxrtm printed %d tables, expected %d" % (len(blocks), len(want)))
        nd = mm.nd
        up = not ({"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"} & set(s["options"])) or "UPWELLING_OUTPUT" in s["options"]
        dn = not ({"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"} & set(s["options"])) or "DOWNWELLING_OUTPUT" in s["options"]
        lev = m.v["out_levels"] if "OUTPUT_AT_LEVELS" in s["options"] else m.v["out_taus"]
        big = max(float(np.abs(v).max()) for v in o.values() if v.size) if o else 0.
        def num(got, exp, what, key=None):
            if abs(got - exp) <= 2e-6 * abs(exp) + 1e-11 * big: return
            if os.environ.get("DBG"): print(what, got, exp, key, rounding(key) if key else "", big)
            if not (key and key.endswith("_l") and abs(got - exp) <= 2e-6 * abs(exp) + 30. * rounding(key)): raise Fail("callxrtm prints %.9g for %s, the API gives %.9g" % (got, what, exp))
        for k, b in zip(want, blocks):
            nv = (up + dn) * (1 + nd)
            if k == "RADIANCE":
                rows = read_table(b[1:], [14, 14, 14, 10] + [14] * nv)
                th = m.v["out_thetas"] if s["n_out_thetas"] else [math.degrees(math.acos(v)) for v in qx[:nq]]
                idx = [(i, j, q, l) for i in range(x.nl) for j in range(x.nt) for q in range(len(phis)) for l in range(x.ns)]
                if len(rows) != len(idx): raise Fail("callxrtm printed %d radiance rows, expected %d" % (len(rows), len(idx)))
                for (i, j, q, l), row in zip(idx, rows):
                    what = "level %d, angle %d, azimuth %d, stokes %d" % (i, j, q, l)
                    num(row[0], lev[i], "output position of " + what)
                    if abs(row[1] - th[j]) > 1e-5 * max(1., th[j]): raise Fail("callxrtm prints angle %.9g for %s, expected %.9g" % (row[1], what, th[j]))
                    num(row[2], phis[q], "azimuth of " + what); num(row[3], l, "stokes index of " + what)
                    exp = []
                    if up: exp.append(("I_p", o["I_p"][i, j, q, l]))
                    if dn: exp.append(("I_m", o["I_m"][i, j, q, l]))
                    for d in range(nd):
                        if up: exp.append(("I_p_l", o["I_p_l"][i, d, j, q, l]))
                        if dn: exp.append(("I_m_l", o["I_m_l"][i, d, j, q, l]))
                    for c, (key, e) in enumerate(exp): num(row[4 + c], e, "column %d of the radiance at %s" % (c, what), key)
            else:
                q = {"MEAN": "mean", "FLUX": "flux"}[k]
                rows = read_table(b[1:], [14] + [14] * nv)
                if len(rows) != x.nl: raise Fail("callxrtm printed %d %s rows, expected %d" % (len(rows), q, x.nl))
                for i, row in enumerate(rows):
                    num(row[0], lev[i], "output position %d" % i)
                    exp = []
                    if up: exp.append((q + "_p", o[q + "_p"][i]))
                    if dn: exp.append((q + "_m", o[q + "_m"][i]))
                    for d in range(nd):
                        if up: exp.append((q + "_p_l", o[q + "_p_l"][i, d]))
                        if dn: exp.append((q + "_m_l", o[q + "_m_l"][i, d]))
                    for c, (key, e) in enumerate(exp): num(row[1 + c], e, "column %d of the %s at position %d" % (c, q, i), key)
    def first(self, s):
        return [k for k in xr.SOLV if k in s["solvers"]][0]
    def nontrivial(self, case, st): return st["statements"] >= 5
    def shrinks(self, case):
        o = case["ops"]; n = len(o)
        if case["run"]: yield dict(case, run=None)
        k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                c = dict(case, ops=o[:a] + o[a + k:])
                m = api.Model(c["scene"]); good = True
                for op in c["ops"]:
                    if not xif.usable(m, op): good = False; break
                    xif.apply(m, op)
                if good: yield c
            k //= 2
    def classify(self, case, st):
        for op in case["ops"]:
            yield "statement " + op[0] + (" " + op[2] if op[0] == "lay_l" else " " + op[1] if op[0] in ("coef_l", "cfl", "par_l") else "")
        if st["written"]: yield "written and read back"
        if st["ran"]: yield "program run " + ("string" if case["run"]["string"] else "file")
