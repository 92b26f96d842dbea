"""C32: matrix and vector routines equal their definitions, write their results only, and keep their arguments."""
from scn import *
import math, ctypes as C
from xr import vp, i32, f64
from gen import rf
L_ = C.c_long

class Z(C.Structure): _fields_ = [("re", f64), ("im", f64)]
GUARD = 12.345e77

class Arr:
    """a vector or a matrix as the library has it: row pointers into one block, here with guards behind it"""
    def __init__(self, a, rows=False, flat=False):
        self.a = np.array(a); self.z = self.a.dtype.kind == "c"; n = self.a.size
        self.b = np.full(n + 6, GUARD, complex if self.z else float); self.b[:n] = self.a.ravel(); self.n = n
        if self.a.ndim == 2 and not flat:
            w = self.a.shape[1] * self.b.itemsize
            self.p = (vp * max(1, self.a.shape[0]))(*[self.b.ctypes.data + i * w for i in range(self.a.shape[0])])
        else: self.p = vp(self.b.ctypes.data)
    def value(self): return self.b[:self.n].reshape(self.a.shape)
    def intact(self): return (self.b[self.n:] == GUARD).all()

def rot(k, t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[[1, 0, 0], [0, c, s], [0, -s, c]], [[c, 0, -s], [0, 1, 0], [s, 0, c]], [[c, s, 0], [-s, c, 0], [0, 0, 1]]][k])

# name: (kinds, arguments, result).  Arguments: M/V/N/W.. dims as given, "=x" the output x (its initial value when it is read), i integers
# A case is built by calling the function with R, which makes inputs; it returns (arguments, {output index: value wanted}, return value or None).
T = {}
def fn(name, kinds="dz", sym=False):
    def put(f): T[name] = (kinds, f); return f
    return put
class R:
    def __init__(self, c):
        self.c = c; self.m, self.n, self.o = c["m"], c["n"], c["o"]; self.al, self.be = c["al"], c["be"]; self.g = np.random.default_rng(c["seed"]); self.z = c["t"] == "z"; self.alias = c["alias"]
    def a(self, *s, z=None):
        z = self.z if z is None else z
        v = self.g.normal(size=s)
        return v + 1j * self.g.normal(size=s) if z else v
    def nz(self, *s, z=None):
        v = self.a(*s, z=z); return v + v / abs(v) * .3
    def spd(self, n):
        b = self.a(n, n, z=False); return b @ b.T + n * np.eye(n)
    def wc(self, n): return self.nz(n, n) + (2 + n) * np.eye(n)
def S(R, v): return Z(v, R.be if v == R.al else 0.) if R.z else f64(v)
def sc(R, v): return complex(v, R.be if v == R.al else 0.) if R.z else v

def simple(name, f, dims, out, kinds="dz", args="mn"):
    """f of matrices or vectors (dims "mn,mn,m"), with result of dims out appended, then the extents args; in place if it may be"""
    def make(R):
        I = [R.nz(*[getattr(R, k) for k in d]) for d in dims.split(",")]; w = f(R, *I); A = [Arr(x) for x in I]; o = Arr(R.a(*[getattr(R, k) for k in out]))
        if R.alias and out == dims.split(",")[0] and name in INPLACE: return [A[0]] + A[1:] + [A[0]] + [L_(getattr(R, k)) for k in args], [(A[0], w)], A[1:], None
        return A + [o] + [L_(getattr(R, k)) for k in args], [(o, w)], A, None
    T[name] = (kinds, make)
INPLACE = {"mat_add", "mat_sub", "mat_add_diag", "mat_sub_diag", "mat_diag_sub", "mat_i_sub", "vec_add", "vec_sub", "vec_mul_elem", "vec_div_elem", "vec_inv_elem", "mat_mul_diag", "mat_mul_dinv"}
D = np.diag
simple("mat_add", lambda R, a, b: a + b, "mn,mn", "mn"); simple("mat_sub", lambda R, a, b: a - b, "mn,mn", "mn")
simple("mat_trans", lambda R, a: a.T, "mn", "nm")
simple("mat_add_diag", lambda R, a, b: a + D(b), "mm,m", "mm", args="m"); simple("mat_sub_diag", lambda R, a, b: a - D(b), "mm,m", "mm", args="m")
simple("mat_diag_sub", lambda R, a, b: D(a) - b, "m,mm", "mm", args="m"); simple("mat_i_sub", lambda R, b: np.eye(R.m) - b, "mm", "mm", args="m")
simple("mat_mul_diag", lambda R, a, b: a * b, "mn,n", "mn"); simple("mat_mul_dinv", lambda R, a, b: a / b, "mn,n", "mn")
simple("mat_diag_mul", lambda R, a, b: a[:, None] * b, "m,mn", "mn"); simple("mat_dinv_mul", lambda R, a, b: b / a[:, None], "m,mn", "mn")
simple("vec_add", lambda R, a, b: a + b, "n,n", "n", args="n"); simple("vec_sub", lambda R, a, b: a - b, "n,n", "n", args="n")
simple("vec_mul_elem", lambda R, a, b: a * b, "n,n", "n", args="n"); simple("vec_div_elem", lambda R, a, b: a / b, "n,n", "n", args="n"); simple("vec_inv_elem", lambda R, a: 1 / a, "n", "n", args="n")

@fn("mat_mul")
def _(R):
    a, b, c = Arr(R.a(R.m, R.o)), Arr(R.a(R.o, R.n)), Arr(R.a(R.m, R.n)); return [a, b, L_(R.m), L_(R.n), L_(R.o), c], [(c, a.a @ b.a)], [a, b], None
@fn("m_v_mul")
def _(R):
    a, b, c = Arr(R.a(R.m, R.o)), Arr(R.a(R.o)), Arr(R.a(R.m)); return [a, b, L_(R.m), L_(R.o), c], [(c, a.a @ b.a)], [a, b], None
@fn("mat_gxgxmx")
def _(R):
    ta, tb = R.c["ta"], R.c["tb"]
    if ta or tb: R.m = R.n = R.o                                       # it has no other leading dimensions
    a, b, c = Arr(R.a(R.m, R.o)), Arr(R.a(R.o, R.n)), Arr(R.a(R.m, R.n))
    w = sc(R, R.al) * ((a.a.T if ta else a.a) @ (b.a.T if tb else b.a)) + R.c["b2"] * c.a
    return [i32(ta), a, i32(tb), b, S(R, R.al), c, Z(R.c["b2"], 0.) if R.z else f64(R.c["b2"]), L_(R.m), L_(R.n), L_(R.o)], [(c, w)], [a, b], None
@fn("mat_gxdxmx")
def _(R):
    ta = R.c["ta"]; a, b, c = Arr(R.a(R.n, R.m) if ta else R.a(R.m, R.n)), Arr(R.a(R.n)), Arr(R.a(R.m, R.n))
    w = sc(R, R.al) * (a.a.T if ta else a.a) * b.a + R.c["b2"] * c.a
    return [i32(ta), a, b, S(R, R.al), c, Z(R.c["b2"], 0.) if R.z else f64(R.c["b2"]), L_(R.m), L_(R.n)], [(c, w)], [a, b], None
@fn("mat_vxvtmx")
def _(R):
    a, b, c = Arr(R.a(R.m)), Arr(R.a(R.n)), Arr(R.a(R.m, R.n)); return [a, b, f64(R.al), c, f64(R.c["b2"]), L_(R.m), L_(R.n)], [(c, R.al * np.outer(a.a, b.a) + R.c["b2"] * c.a)], [a, b], None
@fn("mat_scale")
def _(R):
    a, c = Arr(R.a(R.m, R.n)), Arr(R.a(R.m, R.n)); return [S(R, R.al), a, c, L_(R.m), L_(R.n)], [(c, sc(R, R.al) * a.a)], [a], None
@fn("mat_zero")
def _(R): a = Arr(R.a(R.m, R.n)); return [a, L_(R.m), L_(R.n)], [(a, 0 * a.a)], [], None
@fn("mat_init")
def _(R): a = Arr(R.a(R.m, R.n)); return [a, f64(R.al), L_(R.m), L_(R.n)], [(a, R.al * np.eye(R.m, R.n))], [], None
@fn("mat_copy")
def _(R): a, b = Arr(R.a(R.m, R.n)), Arr(R.a(R.m, R.n)); return [b, a, L_(R.m), L_(R.n)], [(b, a.a)], [a], None
@fn("mat_p_one_norm")
def _(R): a = Arr(R.a(R.m, R.n)); return [a, L_(R.m), L_(R.n)], [], [a], abs(a.a).sum(0).max()
@fn("mat_p_inf_norm")
def _(R): a = Arr(R.a(R.m, R.n)); return [a, L_(R.m), L_(R.n)], [], [a], abs(a.a).sum(1).max()
@fn("mat_frob_norm")
def _(R): a = Arr(R.a(R.m, R.n)); return [a, L_(R.m), L_(R.n)], [], [a], math.sqrt((abs(a.a) ** 2).sum())
@fn("mat_pow")
def _(R):
    s = R.c["s"]; a = Arr(R.a(R.m, R.m) / (R.m + 1)); c, u, v = [Arr(R.a(R.m, R.m)) for _ in range(3)]; w = np.linalg.matrix_power(a.a, s)
    return [a, i32(s), c, L_(R.m), L_(R.m), u, v], [(c, w)], [a], None
@fn("mat_getrs")
def _(R):
    A, B = R.wc(R.m), R.a(R.m, R.n); p = (i32 * R.m)(); f, b = Arr(A), Arr(B.T); return [f, b, i32(R.m), i32(R.n), p], [(b, np.linalg.solve(A, B).T)], [], None
@fn("mat_getrs2")
def _(R):
    A, B = R.wc(R.m), R.a(R.m, R.n); p = (i32 * R.m)(); f, b = Arr(A), Arr(B.T); t = R.c["ta"]; return [C.c_char(b"nt"[t:t + 1]), f, b, i32(R.m), i32(R.n), p], [(b, np.linalg.solve(A.T if t else A, B).T)], [], None
@fn("mat_gttrs")
def _(R):
    l, d, u, B = R.nz(R.m), R.nz(R.m) + 8, R.nz(R.m), R.a(R.m, R.n); A = D(d) + D(l[:-1], -1) + D(u[:-1], 1); p = (i32 * (R.m + 1))(); b = Arr(B.T); v = [Arr(l), Arr(d), Arr(u), Arr(R.a(R.m))]
    return v + [b, i32(R.m), i32(R.n), p], [(b, np.linalg.solve(A, B).T)], [], None
@fn("m_v_diag_mul")
def _(R): a, b, c = [Arr(R.a(R.m)) for _ in range(3)]; return [a, b, c, L_(R.m)], [(c, a.a * b.a)], [a, b], None
@fn("m_v_dinv_mul")
def _(R): a, b, c = [Arr(R.nz(R.m)) for _ in range(3)]; return [a, b, c, L_(R.m)], [(c, b.a / a.a)], [a, b], None
@fn("mat_add_trans")
def _(R): a = Arr(R.a(R.m, R.m)); c = a if R.alias else Arr(R.a(R.m, R.m)); w = a.a + a.a.T; return [a, c, L_(R.m), L_(R.m)], [(c, w)], [] if R.alias else [a], None
@fn("mat_pocon", "d")
def _(R): A = R.spd(R.m); f = Arr(A); n1 = lambda x: abs(x).sum(0).max(); return [f, i32(R.m), f64(n1(A)), (i32 * R.m)(), Arr(R.a(3 * R.m))], [], [], ("within", 1 / n1(A) / n1(np.linalg.inv(A)), 10.)
@fn("mat_getri")
def _(R):
    A = R.wc(R.m); f = Arr(A); p = (i32 * R.m)(); return [f, i32(R.m), p], [(f, np.linalg.inv(A))], [], None
@fn("mat_potri", "d")
def _(R): A = R.spd(R.m); f = Arr(A); return [f, i32(R.m)], [(f, np.triu(np.linalg.inv(A)) + np.tril(A, -1))], [], None
@fn("mat_potrs", "d")
def _(R): A, B = R.spd(R.m), R.a(R.m, R.n); f, b = Arr(A), Arr(B.T); return [f, b, i32(R.m), i32(R.n)], [(b, np.linalg.solve(A, B).T)], [], None
@fn("vec_zero")
def _(R): a = Arr(R.a(R.n)); return [a, L_(R.n)], [(a, 0 * a.a)], [], None
@fn("vec_init")
def _(R): a = Arr(R.a(R.n)); return [a, S(R, R.al), L_(R.n)], [(a, 0 * a.a + sc(R, R.al))], [], None
@fn("vec_copy")
def _(R): a, b = Arr(R.a(R.n)), Arr(R.a(R.n)); return [b, a, L_(R.n)], [(b, a.a)], [a], None
@fn("vec_scale")
def _(R):
    a = Arr(R.a(R.n)); b = a if R.alias else Arr(R.a(R.n)); return [S(R, R.al), a, b, L_(R.n)], [(b, sc(R, R.al) * a.a)], [] if R.alias else [a], None
@fn("vec_lin_cmb", "d")
def _(R): a, b, c = [Arr(R.a(R.n)) for _ in range(3)]; return [a, f64(R.al), b, f64(R.be), c, L_(R.n)], [(c, R.al * a.a + R.be * b.a)], [a, b], None
@fn("vec_dot")
def _(R): a, b = Arr(R.a(R.n)), Arr(R.a(R.n)); return [a, b, L_(R.n)], [], [a, b], (a.a * b.a).sum()
@fn("vec_mag", "d")
def _(R): a = Arr(R.a(R.n)); return [a, L_(R.n)], [], [a], np.linalg.norm(a.a)
@fn("vec_unit", "d")
def _(R): a, b = Arr(R.nz(R.n)), Arr(R.a(R.n)); return [a, b, L_(R.n)], [(b, a.a / np.linalg.norm(a.a))], [a], None

# xrtm_matrix.c
def X(name):
    def put(f): T["!" + name] = ("d", f); return f
    return put
@X("dvec_scale_add")
def _(R): a, b, c = [Arr(R.a(R.n)) for _ in range(3)]; return [a, b, c, f64(R.al), L_(R.n)], [(c, a.a + R.al * b.a)], [a, b], None
@X("dmat_scale_add")
def _(R): a, b, c = [Arr(R.a(R.m, R.n)) for _ in range(3)]; return [a, b, c, f64(R.al), L_(R.m), L_(R.n)], [(c, a.a + R.al * b.a)], [a, b], None
@X("dmat_scale_trans")
def _(R): a, b = Arr(R.a(R.m, R.n)), Arr(R.a(R.n, R.m)); return [a, b, f64(R.al), L_(R.m), L_(R.n)], [(b, R.al * a.a.T)], [a], None
for k, f in dict(p_one=lambda a: abs(a).sum(0).max(), p_inf=lambda a: abs(a).sum(1).max(), frob=lambda a: np.linalg.norm(a)).items():
    def _(R, f=f): r, t = Arr(R.a(R.n, R.n)), Arr(R.a(R.n, R.n)); return [r, t, L_(R.n)], [], [r, t], f(np.block([[t.a, r.a], [-r.a, -t.a]]))
    X("dmat_%s_norm_A" % k)(_)
@X("positive_definite")
def _(R):
    s = R.spd(R.n) if R.c["ta"] else R.spd(R.n) - 1.5 * np.linalg.eigvalsh(R.spd(R.n))[0] * np.eye(R.n); s = R.spd(R.n) if R.c["ta"] else s
    e = np.linalg.eigvalsh(s)[0]
    if abs(e) < 1e-6: s = s + np.eye(R.n); e += 1
    a = Arr(s); return [a, i32(R.n)], [], [a], int(e > 0)
def sy(R): b = R.a(R.m, R.m); return b + b.T
for k, s in (("dsym_add", 1), ("dsym_sub", -1)):
    def _(R, s=s): a, b, c = Arr(sy(R)), Arr(sy(R)), Arr(R.a(R.m, R.m)); return [a, b, c, L_(R.m), i32(1)], [(c, a.a + s * b.a)], [a, b], None
    X(k)(_)
@X("dsym_mta")
def _(R):
    a, b, c = Arr(R.a(R.m, R.o)), Arr(R.a(R.o, R.m)), Arr(R.a(R.m, R.m)); w = a.a @ b.a; return [a, b, L_(R.m), L_(R.o), c], [(c, w + w.T)], [a, b], None
@X("dsym_mul")
def _(R):
    # a product that is symmetric: A B with B = S A'
    if R.m > R.o: R.m, R.o = R.o, R.m
    R.o = R.m; a = R.a(R.m, R.m); s = sy(R); b = s @ a.T
    a, b, c = Arr(a), Arr(b), Arr(R.a(R.m, R.m)); return [a, b, L_(R.m), L_(R.m), c, i32(1)], [(c, a.a @ b.a)], [a, b], None
for k, s in (("dsym_m_a", 1), ("dsym_m_s", -1)):
    def _(R, s=s):
        a = R.a(R.m, R.m); b = sy(R) @ a.T; d = sy(R); a, b, d, c = Arr(a), Arr(b), Arr(d), Arr(R.a(R.m, R.m)); return [a, b, d, L_(R.m), L_(R.m), c, i32(1)], [(c, a.a @ b.a + s * d.a)], [a, b, d], None
    X(k)(_)
for k, s in (("dsym_mma", 1), ("dsym_mms", -1)):
    def _(R, s=s):
        a, e = R.a(R.m, R.m), R.a(R.m, R.m); b, f = sy(R) @ a.T, sy(R) @ e.T; I = [Arr(x) for x in (a, b, e, f)]; c = Arr(R.a(R.m, R.m)); return I + [L_(R.m), L_(R.m), c, i32(1)], [(c, a @ b + s * e @ f)], I, None
    X(k)(_)
for k in ("real", "imag"):
    def _(R, k=k): a, c = Arr(R.a(R.m, R.n, z=True)), Arr(R.a(R.m, R.n)); return [a, c, L_(R.m), L_(R.n)], [(c, getattr(a.a, k))], [a], None
    X("zmat_" + k)(_)
@X("dmat_complex")
def _(R): a, b, c = Arr(R.a(R.m, R.n)), Arr(R.a(R.m, R.n)), Arr(R.a(R.m, R.n, z=True)); return [a, b, c, L_(R.m), L_(R.n)], [(c, a.a + 1j * b.a)], [a, b], None
@X("dzmat_diag_mul")
def _(R): a, b, c = Arr(R.a(R.m)), Arr(R.a(R.m, R.n, z=True)), Arr(R.a(R.m, R.n, z=True)); return [a, b, c, L_(R.m), L_(R.n)], [(c, a.a[:, None] * b.a)], [a, b], None
for k in ("dzmat_mul", "dzmat_mul2", "dzmat_gxgxmx"):
    def _(R, k=k):
        a, b, c = Arr(R.a(R.m, R.o)), Arr(R.a(R.o, R.n, z=True)), Arr(R.a(R.m, R.n, z=True)); w = a.a @ b.a; W = [Arr(R.a(R.o, R.n)), Arr(R.a(R.m, R.n)), Arr(R.a(R.m, R.n))]; e = [L_(R.m), L_(R.n), L_(R.o)]
        if k == "dzmat_mul": return [a, b] + e + [c], [(c, w)], [a, b], None
        if k == "dzmat_mul2": return [a, b] + e + [c] + W, [(c, w)], [a, b], None
        s = R.c["s"] % 2 * 2 - 1.; q = [0., 1., -1.][R.c["seed"] % 3]
        return [i32(0), a, i32(0), b, f64(s), c, f64(q)] + e + W, [(c, s * w + q * c.a)], [a, b], None
    X(k)(_)
for cz in (0, 1):
    sfx = "_dc" if cz else "_d"
    def al(R, cz): return (Z(R.al, R.be) if R.c["tb"] else Z(R.al, 0.)) if cz else f64(R.al)
    def av(R, cz): return (complex(R.al, R.be) if R.c["tb"] else R.al) if cz else R.al
    def _(R, cz=cz):
        i, k = R.c["i"], 3; a, b = Arr(R.a(k * R.n, z=cz)), Arr(R.a(R.n, z=cz)); w = a.a.copy(); w[i * R.n:(i + 1) * R.n] = av(R, cz) * b.a; return [i32(R.n), i32(i), a, al(R, cz), b], [(a, w)], [b], None
    X("insert_vector1" + sfx)(_)
    for two in (0, 1):
        def _(R, cz=cz, two=two):
            i, j = R.c["i"], R.c["j"]; a, b, d = Arr(R.a(3 * R.m, 3 * R.n, z=cz)), Arr(R.a(R.m, R.n, z=cz)), Arr(R.a(R.n, z=cz)); w = a.a.copy()
            w[i * R.m:(i + 1) * R.m, j * R.n:(j + 1) * R.n] = av(R, cz) * b.a * (d.a if two else 1.); return [i32(R.m), i32(R.n), i32(i), i32(j), a, al(R, cz)] + [d] * two + [b], [(a, w)], [b, d], None
        X("insert_matrix%d%s" % (two + 1, sfx))(_)
        def _(R, cz=cz, two=two):
            # LAPACK band storage by columns: element (r, c) at row kl + ku + r - c of column c
            i, j = R.c["i"], R.c["j"]; kl, ku = 3 * R.m - 1, 3 * R.n - 1; a, b, d = Arr(R.a(3 * R.n, 2 * kl + ku + 1, z=cz)), Arr(R.a(R.m, R.n, z=cz)), Arr(R.a(R.n, z=cz)); w = a.a.copy()
            for r in range(R.m):
                for q in range(R.n): w[j * R.n + q][kl + ku + i * R.m + r - j * R.n - q] = av(R, cz) * b.a[r][q] * (d.a[q] if two else 1.)
            return [i32(R.m), i32(R.n), i32(kl), i32(ku), i32(i), i32(j), a, al(R, cz)] + [d] * two + [b], [(a, w)], [b, d], None
        X("insert_matrix_band_storage%d%s" % (two + 1, sfx))(_)

# two and three dimensions
for q in (2, 3):
    v = lambda R, q=q: Arr(R.nz(q)); mm = lambda R, q=q: Arr(R.nz(q, q), flat=True)
    def V2(name, f, k=2, ret=False, q=q, src="v", out="v"):
        def _(R):
            g = dict(v=lambda: Arr(R.nz(q)), m=lambda: Arr(R.nz(q, q), flat=True)); I = [g[s]() for s in src]; w = f(*[x.a for x in I])
            if ret: return I, [], I, w
            o = g[out](); return I + [o], [(o, w)], I, None
        X(name % q)(_)
    V2("vec%dd_add", lambda a, b: a + b, src="vv"); V2("vec%dd_sub", lambda a, b: a - b, src="vv"); V2("vec%dd_dot", lambda a, b: a @ b, src="vv", ret=True); V2("vec%dd_mag", np.linalg.norm, ret=True)
    V2("vec%dd_unit", lambda a: a / np.linalg.norm(a)); V2("vec%dd_dyadic", np.outer, src="vv", out="m")
    if q == 3: V2("vec%dd_cross", np.cross, src="vv")
    V2("mat%dd_trans", lambda a: a.T, src="m", out="m"); V2("mat%dd_add", lambda a, b: a + b, src="mm", out="m"); V2("mat%dd_sub", lambda a, b: a - b, src="mm", out="m"); V2("mat%dd_mul", lambda a, b: a @ b, src="mm", out="m")
    V2("mat%dd_matvec", lambda a, b: a @ b, src="mv"); V2("mat%dd_det", np.linalg.det, src="m", ret=True)
    def _(R, q=q): a, b = Arr(R.nz(q, q) + 3 * np.eye(q), flat=True), Arr(R.a(q, q), flat=True); return [a, b], [(b, np.linalg.inv(a.a))], [a], 1
    X("mat%dd_inv" % q)(_)
    def _(R, q=q): a, b = Arr(np.outer([1., 2., 4.][:q], [1., -1., .5][:q]), flat=True), Arr(R.a(q, q), flat=True); return [a, b], [(b, b.a)], [a], 0
    X("mat%dd_inv:singular" % q)(_)
    def _(R, q=q): a, b = Arr(R.a(q)), Arr(R.a(q)); return [f64(R.al), a, b], [(b, R.al * a.a)], [a], None
    X("vec%dd_scale" % q)(_)
    def _(R, q=q): a, b = Arr(R.a(q, q), flat=True), Arr(R.a(q, q), flat=True); return [f64(R.al), a, b], [(b, R.al * a.a)], [a], None
    X("mat%dd_scale" % q)(_)
    def _(R, q=q): a, b, c = [Arr(R.a(q)) for _ in range(3)]; return [a, f64(R.al), b, f64(R.be), c], [(c, R.al * a.a + R.be * b.a)], [a, b], None
    X("vec%dd_lincmb" % q)(_)
    for k in ("vec", "mat"):
        s = (q,) if k == "vec" else (q, q)
        def _(R, s=s): a, b = Arr(R.a(*s), flat=True), Arr(R.a(*s), flat=True); return [b, a], [(b, a.a)], [a], None
        X("%s%dd_copy" % (k, q))(_)
        def _(R, s=s): a = Arr(R.a(*s), flat=True); return [a], [(a, 0 * a.a)], [], None
        X("%s%dd_zero" % (k, q))(_)
    def _(R, q=q): a = Arr(R.a(q, q), flat=True); return [a], [(a, np.eye(q))], [], None
    X("mat%dd_init" % q)(_)
@X("mat2d_rot")
def _(R): a = Arr(R.a(2, 2), flat=True); return [a, f64(R.al)], [(a, a.a @ rot(2, R.al)[:2, :2])], [], None
for k, n in enumerate("xyz"):
    def _(R, k=k): a = Arr(R.a(3, 3), flat=True); return [a, f64(R.al)], [(a, a.a @ rot(k, R.al))], [], None
    X("mat3d_rot_" + n)(_)
@X("mat3d_rot")
def _(R): a = Arr(R.a(3, 3), flat=True); t = [R.al, R.be, R.al - R.be]; return [a] + [f64(x) for x in t], [(a, a.a @ rot(0, t[0]) @ rot(1, t[1]) @ rot(2, t[2]))], [], None

class P(Prop):
    id = "C32"
    quick, thorough = 200000, 5000000
    rule = "matrices or vectors of at least four elements (or of two or three dimensions) went in, or a number other than 0, 1 and -1 scaled them"
    def worker_setup(self): self.L = the_lib().L; self.names = sorted(T)
    def gen(self, r, i, tier):
        f = sorted(T)[i % len(T)]; e = lambda: r.choice([1, 2, 3, 4, 5, 7, 8, r.randint(1, 12)]); al = r.choice([1., -1., 0., rf(r.uniform(-3, 3), 6), rf(r.uniform(-3, 3), 6)])
        return dict(f=f, t=r.choice(T[f][0]), m=e(), n=e(), o=e(), al=al, be=r.choice([0., rf(r.uniform(-2, 2), 6)]), b2=r.choice([0., 1., -1., rf(r.uniform(-2, 2), 6)]), ta=r.randint(0, 1), tb=r.randint(0, 1), s=r.choice([r.randint(0, 9), r.randint(0, 127)]),
                    i=r.randint(0, 2), j=r.randint(0, 2), seed=r.randint(0, 10 ** 6), alias=r.random() < .3)
    def check(self, c):
        q = R(c); args, out, keep, ret = T[c["f"]][1](q); f = c["f"].split(":")[0]
        f = f[1:] if f[0] == "!" else c["t"] + f
        pre = {"getrs": "getrf", "getri": "getrf", "potri": "potrf", "potrs": "potrf", "getrs2": "getrf", "pocon": "potrf", "gttrs": "gttrf"}.get(f.split("_")[-1])
        L = self.L; g = getattr(L, f, None)
        if g is None: return dict(err=0., absent=f)   # an internal routine that the tree no longer has under this name
        P_ = [a.p if isinstance(a, Arr) else a for a in args]
        if pre == "getrf": h = getattr(L, c["t"] + "mat_getrf"); h.restype = None; h(P_[1 if f.endswith("2") else 0], i32(q.m), i32(q.m), P_[-1])
        elif pre == "gttrf": h = getattr(L, c["t"] + "mat_gttrf"); h.restype = None; h(*P_[:4], i32(q.m), P_[-1])
        elif pre: h = getattr(L, c["t"] + "mat_potrf"); h.restype = None; h(P_[0], i32(q.m))
        g.restype = None if ret is None else Z if c["t"] == "z" and c["f"] == "vec_dot" else i32 if isinstance(ret, (int, np.integer)) else f64
        v = g(*P_); err = 0.
        def cmp(w, x, what):
            s = max(1., np.max(abs(np.array(x)), initial=0.)); e = np.max(abs(np.array(w) - x), initial=0.) / s
            if not e <= 1e-11: raise Fail("%s: %s is off by %.1e" % (f, what, e))
            return e
        if ret is not None:
            if isinstance(v, Z): v = complex(v.re, v.im)
            if isinstance(ret, tuple):
                if not ret[1] * .99999 <= v <= ret[1] * ret[2]: raise Fail("%s: %r, with a true value of %r" % (f, v, ret[1]))
            else: err = cmp(v, ret, "the value %r instead of %r" % (v, ret))
        for k, (o, w) in enumerate(out): err = max(err, cmp(o.value(), w, "the result"))
        for a in args:
            if isinstance(a, Arr) and not a.intact(): raise Fail("%s: wrote behind an array" % f)
        for a in keep:
            if not np.array_equal(a.value(), a.a): raise Fail("%s: changed an argument" % f)
        return dict(err=err)
    def nontrivial(self, c, st): return "absent" not in st and (c["m"] * c["n"] >= 4 or c["al"] not in (0., 1., -1.))
    def classify(self, c, st):
        yield c["t"] + ":" + c["f"].split("_")[0].strip("!"); yield "in place" if c["alias"] else "apart"
        if "absent" in st: yield "absent: " + st["absent"]
    def shrinks(self, c):
        for k in ("m", "n", "o"):
            if c[k] > 1: yield dict(c, **{k: 1}); yield dict(c, **{k: c[k] - 1})
        for k, v in (("al", 1.), ("be", 0.), ("b2", 0.), ("ta", 0), ("tb", 0), ("i", 0), ("j", 0), ("alias", False), ("s", 1)):
            if c[k] != v: yield dict(c, **{k: v})
