"""One call interface to XRTM in several languages: the C library itself, and its C++, Fortran 77,
Fortran 90 and Python interfaces.  A call is (name, inputs); its outcome is (ok, value, outputs)."""
import ctypes as C, json, os, sys, subprocess, pickle, struct
import numpy as np
from xr import KERN, KNPAR, IERR, DERR, SOLV
HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, "iftable.json")))
NPAR = list(KNPAR) + [4]
GUARD = -7.125e77; IGUARD = -99
i32, f64, vp = C.c_int, C.c_double, C.c_void_p

class Dims:
    """sizes which the interface definition names, from the creation arguments and the inputs held"""
    def __init__(self, a):
        self.e = dict(a, n_elem=1 if a["n_stokes"] == 1 else 6, n_coef=a["max_coef"], n_out_thetas_2=a["n_out_thetas"] or a["n_quad"],
                      n_coef_layer=[a["max_coef"]] * a["n_layers"])
        self.k = a["kernels"]
    def one(self, d, env):
        if d == "n_coef_layer[i_layer]": return self.e["n_coef_layer"][env["i_layer"]]
        if d.startswith("kernel_n_params"): return NPAR[self.k[env["i_kernel"]]]
        if d == "n_quad + n_umus": return self.e["n_quad"] + self.e["n_out_thetas"]
        if d.endswith("+ 1"): return self.e[d.split()[0]] + 1
        return env[d] if d in env else self.e[d]
    def shape(self, dims, env): return tuple(max(0, self.one(d, env)) for d in dims)

def prepare(dm, name, ins):
    """arguments in order: ["s", type, value] | ["a", type, numpy, io] | ["o", type]; arrays in C order"""
    env, out, it = {}, [], iter(ins)
    for an, t, rank, dims, io, ex in T[name]["args"]:
        if io == "in":
            v = next(it)
            if rank == 0:
                env[an] = v; out.append(["s", t, v, an])
            else:
                sh = dm.shape(dims, env)
                a = np.ascontiguousarray(np.array(v, dtype=np.float64 if t == "double" else np.int32).reshape(sh))
                out.append(["a", t, a, "in"])
        elif rank == 0: out.append(["o", t])
        else:
            a = np.full(dm.shape(dims, env), GUARD if t == "double" else IGUARD, dtype=np.float64 if t == "double" else np.int32)
            out.append(["a", t, a, "out"])
    return out

def tables(a):
    """pointer-to-pointer view of a C-ordered array; returns (pointer, things to keep)"""
    if a.ndim == 1 or a.size == 0 and a.ndim == 1: return a.ctypes.data, [a]
    keep = [a]; base = a.ctypes.data; isz = a.itemsize
    n = int(np.prod(a.shape[:-1])); row = a.shape[-1] * isz
    cur = [base + i * row for i in range(n)]
    for d in range(a.ndim - 2, -1, -1):
        arr = (vp * max(1, len(cur)))(*cur); keep.append(arr)
        m = int(np.prod(a.shape[:d])); st = a.shape[d] * C.sizeof(vp)
        cur = [C.addressof(arr) + i * st for i in range(m)]
    return cur[0], keep

def outcome(args, ok, val, outs):
    return ok, val, outs

class Direct:
    name = "C"
    def __init__(self, lib):
        self.L = lib; self.d = None
    def create(self, a):
        self.L.vx_new.restype = vp
        d = self.L.vx_new()
        k = (i32 * max(1, len(a["kernels"])))(*a["kernels"])
        r = self.L.xrtm_create(vp(d), *[i32(a[q]) for q in "options solvers max_coef n_quad n_stokes n_derivs n_layers n_theta_0s".split()],
                               i32(len(a["kernels"])), i32(a["n_kernel_quad"]), k, i32(a["n_out_levels"]), i32(a["n_out_thetas"]))
        if r: self.L.vx_free(vp(d)); return False
        self.d = d; return True
    def close(self):
        if self.d: self.L.xrtm_destroy(vp(self.d)); self.L.vx_free(vp(self.d)); self.d = None
    def cargs(self, args):
        ca, keep, outs = [], [], []
        for q in args:
            if q[0] == "s": ca.append((i32 if q[1] == "int" else f64)(q[2]))
            elif q[0] == "o":
                b = (i32 if q[1] == "int" else f64)(IGUARD if q[1] == "int" else GUARD); ca.append(C.byref(b)); keep.append(b); outs.append(b)
            else:
                p, k = tables(q[2]); keep += k; ca.append(vp(p))
                if q[3] == "out": outs.append(q[2])
        return ca, keep, outs
    fin = staticmethod(lambda outs: [o.value if not isinstance(o, np.ndarray) else o for o in outs])
    def call(self, name, args):
        f = getattr(self.L, "xrtm_" + name); f.restype = f64 if T[name]["ret"] == "double" else i32
        ca, keep, outs = self.cargs(args)
        r = f(vp(self.d), *ca)
        return judge(name, r, self.fin(outs))

def judge(name, r, outs):
    if T[name]["value"]:
        return (False, None, outs) if r == (DERR if T[name]["ret"] == "double" else IERR) else (True, r, outs)
    return r == 0, None, outs

class Cpp(Direct):
    name = "C++"
    def create(self, a):
        f = self.L.vc_create; f.restype = vp
        k = (i32 * max(1, len(a["kernels"])))(*a["kernels"])
        self.d = f(*[i32(a[q]) for q in "options solvers max_coef n_quad n_stokes n_derivs n_layers n_theta_0s".split()],
                   i32(len(a["kernels"])), i32(a["n_kernel_quad"]), k, i32(a["n_out_levels"]), i32(a["n_out_thetas"]))
        return bool(self.d)
    def close(self):
        if self.d: self.L.vc_destroy(vp(self.d)); self.d = None
    def call(self, name, args):
        f = getattr(self.L, "vc_" + name); f.restype = i32
        ca, keep, outs = self.cargs(args)
        if T[name]["value"]:
            v = f64(GUARD)
            if f(vp(self.d), C.byref(v), *ca): return False, None, self.fin(outs)
            return True, v.value if T[name]["ret"] == "double" else int(v.value), self.fin(outs)
        return f(vp(self.d), *ca) == 0, None, self.fin(outs)

class Dtype(C.Structure):
    _fields_ = [("elem_len", C.c_size_t), ("version", i32), ("rank", C.c_byte), ("type", C.c_byte), ("attribute", C.c_short)]
class Dim(C.Structure):
    _fields_ = [("stride", C.c_ssize_t), ("lb", C.c_ssize_t), ("ub", C.c_ssize_t)]
class Desc(C.Structure):
    _fields_ = [("base", vp), ("offset", C.c_size_t), ("dtype", Dtype), ("span", C.c_ssize_t), ("dim", Dim * 15)]

def desc(a, strided=False):
    """describes a as a Fortran array; strided: as every second element of a longer one"""
    d = Desc()
    if strided:
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), GUARD if a.dtype != np.int32 else IGUARD, dtype=a.dtype); b[..., ::2] = a
    else: b = a
    d.base = b.ctypes.data; d.dtype.elem_len = a.itemsize; d.dtype.rank = a.ndim
    d.dtype.type = 1 if a.dtype == np.int32 else 3; d.span = a.itemsize
    st, off = (2 if strided else 1), 0
    for i, n in enumerate(a.shape[::-1]):
        d.dim[i].stride = st; d.dim[i].lb = 1; d.dim[i].ub = n; off -= st; st *= n
    d.offset = off & (2 ** 64 - 1)
    d.b = b
    return d

class F77(Direct):
    name = "Fortran 77"; bytes = 2280
    def sym(self, n): return "xrtm_%s_f77_" % n.lower()
    def arr(self, a): return vp(a.ctypes.data), a
    def kern(self, k): return (i32 * max(1, len(k)))(*k), None
    def create(self, a):
        self.buf = C.create_string_buffer(self.nbytes() + 64); self.buf[:] = b"\x5a" * len(self.buf)
        e = i32(77); kp, kk = self.kern(a["kernels"])
        f = getattr(self.L, self.sym("create")); f.restype = None
        f(self.buf, *[C.byref(i32(a[q])) for q in "options solvers max_coef n_quad n_stokes n_derivs n_layers n_theta_0s".split()],
          C.byref(i32(len(a["kernels"]))), C.byref(i32(a["n_kernel_quad"])), kp, C.byref(i32(a["n_out_levels"])), C.byref(i32(a["n_out_thetas"])), C.byref(e))
        self.d = e.value == 0
        if self.buf[self.nbytes():] != b"\x5a" * 64: raise AssertionError("%s: writes after the %d bytes which its definitions reserve" % (self.name, self.nbytes()))
        return self.d
    def nbytes(self):
        return self.bytes
    def close(self):
        if self.d:
            e = i32(77); f = getattr(self.L, self.sym("destroy")); f.restype = None; f(self.buf, C.byref(e)); self.d = None
    def call(self, name, args):
        val = T[name]["value"]
        f = getattr(self.L, self.sym(name)); f.restype = (f64 if T[name]["ret"] == "double" else i32) if val else None
        ca, keep, outs = [], [], []
        for q in args:
            if q[0] in "so":
                b = (i32 if q[1] == "int" else f64)(q[2] if q[0] == "s" else IGUARD if q[1] == "int" else GUARD)
                keep.append(b); ca.append(C.byref(b))
                if q[0] == "o": outs.append(b)
            else:
                p, k = self.arr(q[2]); keep.append(k); ca.append(p)
                if q[3] == "out": outs.append(q[2])
        if val: return judge(name, f(self.buf, *ca), self.fin(outs))
        e = i32(77); f(self.buf, *ca, C.byref(e))
        return e.value == 0, None, self.fin(outs)

class F90(F77):
    name = "Fortran 90"
    def sym(self, n): return "__xrtm_int_f90_MOD_xrtm_%s_f90" % n.lower()
    strided = False
    def arr(self, a):
        d = desc(a, self.strided and a.size > 0)
        if d.b is not a: self.back.append((a, d.b))
        return C.byref(d), (d, a)
    def call(self, name, args):
        self.back = []
        r = F77.call(self, name, args)
        for a, b in self.back:
            if (b[..., 1::2] != (GUARD if a.dtype != np.int32 else IGUARD)).any(): raise AssertionError("%s: %s writes between the elements of an array section" % (self.name, name))
            a[...] = b[..., ::2]
        return r
    def kern(self, k):
        a = np.array(k, dtype=np.int32) if k else np.zeros(0, np.int32); d = desc(a); self._k = (d, a); return C.byref(d), None

class Jl(Direct):
    """the extents which the Julia interface's C half gives for each array"""
    name = "Julia"
    def dims(self, d, name, args):
        bad = []
        ins = [q for q in args if q[0] == "s" or q[0] == "a" and q[3] == "in"]
        for q, (an, t, rank, dims, io, ex) in zip(args, T[name]["args"]):
            if q[0] != "a": continue
            f = getattr(self.L, "%s_%s_dims" % (name, an)); f.restype = i32
            sz = (C.c_size_t * 8)(*([12345] * 8))
            ca = [(i32 if u[1] == "int" else f64)(u[2]) if u[0] == "s" else vp(u[2].ctypes.data) for u in ins]
            r = f(vp(d), *ca, sz)
            if r or list(sz) != list(q[2].shape) + [12345] * (8 - q[2].ndim): bad.append((an, list(sz)[:q[2].ndim], list(q[2].shape)))
        return bad

class Py:
    """the Python extension, in a process of its own with the system's Python"""
    name = "Python"; srv = {}
    def __init__(self, sodir):
        key = (os.getpid(), sodir)
        p = self.srv.get(key)
        if p is None or p.poll() is not None:
            p = subprocess.Popen(["/usr/bin/python3", os.path.join(HERE, "pyserver.py"), sodir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
            self.srv[key] = p
        self.p = p; self.key = key; self.d = False; self.form = "C"
    def ask(self, *m):
        b = pickle.dumps(m, 4)
        try:
            self.p.stdin.write(struct.pack("<Q", len(b)) + b); self.p.stdin.flush()
            h = self.p.stdout.read(8)
            if len(h) < 8: raise EOFError
            return pickle.loads(self.p.stdout.read(struct.unpack("<Q", h)[0]))
        except (EOFError, BrokenPipeError):
            self.srv.pop(self.key, None)
            raise AssertionError("Python: the interpreter ended in %r (status %r)" % (m[:2], self.p.wait()))
    def create(self, a):
        from xr import OPT
        names = lambda m, t: [k.lower() for k, v in t.items() if (m & 0xffffffff) & (v & 0xffffffff)]
        self.d = self.ask("create", [names(a["options"], OPT), names(a["solvers"], SOLV), *[a[q] for q in "max_coef n_quad n_stokes n_derivs n_layers n_theta_0s n_kernel_quad".split()],
                          [KERN[k] for k in a["kernels"]], a["n_out_levels"], a["n_out_thetas"]])
        return self.d
    def close(self):
        if self.d: self.ask("close"); self.d = False
    def call(self, name, args):
        ins = []
        for q in args:
            if q[0] == "s": ins.append([k.lower() for k, v in SOLV.items() if v == q[2]][0] if q[3] == "solver" else q[2])
            elif q[0] == "a" and q[3] == "in": ins.append((q[1], q[2].shape, q[2].tobytes()))
        r = self.ask("call", name, ins, self.form)
        if r[0] == "err": return False, None, None
        if r[0] == "exc": raise AssertionError("Python: %s" % r[1])
        v = r[1]
        if T[name]["value"]:
            if name == "get_kernel": v = KERN.index(v) if v in KERN else v
            return True, v, []
        n = sum(1 for q in args if q[0] == "o" or q[0] == "a" and q[3] == "out")
        if n == 0: return True, None, []
        v = [v] if n == 1 else list(v)
        return True, None, [np.frombuffer(x[2], dtype=x[0]).reshape(x[1]) if isinstance(x, tuple) else x for x in v]
