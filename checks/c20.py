"""C20: the language interfaces make the call that the C library makes."""
from scn import *
import gen, api, copy, os, re
import ctypes as C
import numpy as np
import build, langs, c21
from langs import T, GUARD, IGUARD, Dims, prepare
from xr import KERN, OPT, SOLV, OUT, mask, IERR

def sane(i, n): return 0 <= i < n

def translate(op, m, r):
    """an operation of lib/api.py -> (name, inputs) of the interface definition; None if the interfaces do not have it"""
    k = op[0]; nl, nd, mc, ne, nk = m.nl, m.nd, m.mc, m.ne, m.nk
    cut = lambda t, n: [list(e)[:n] + [0.] * (n - len(e)) for e in t]
    if k == "sc": return ["set_" + op[1], [op[2]]]
    if k == "ar" and op[1] == "out_levels" and len(op[2]) != m.s["n_out_levels"]: return None
    if k == "ar": return ["set_" + op[1], [op[2][:m.s["n_out_thetas"]] if op[1] == "out_thetas" else op[2]]]
    if k == "pade": return ["set_pade_params", op[1:]]
    if k == "sos": return ["set_sos_params", op[1:]]
    if k == "sl1": return ["set_%s_l_1" % op[1], op[2:]]
    if k == "sln": return ["set_%s_l_n" % op[1], [op[2][:nd]]]
    if k == "lbl1": return ["set_levels_b_l_1", op[1:]]
    if k == "lbln": return ["set_levels_b_l_n", [[q[:nd] for q in op[1]]]]
    if k == "lay1": return ["set_%s_1" % op[1], op[2:]]
    if k == "layn": return ["set_%s_n" % op[1], [op[2]]]
    if k == "lay_l":
        _, q, f, i, j, w = op
        a = {"11": [i, j, w], "n1": [j, w], "1n": [i, w[:nd] if f == "1n" else 0], "nn": [[q_[:nd] for q_ in w] if f == "nn" else 0]}[f]
        return ["set_%s_l_%s" % (q, f), a]
    if k == "coef1":
        if not 0 <= op[2] <= 64: return None
        return ["set_coef_1", [op[1], op[2], cut(op[3], op[2])]]
    if k == "coefn": return ["set_coef_n", [op[1] or [mc] * nl, [cut(t, mc) for t in op[2]]]]
    if k == "coef_l":
        _, f, i, j, w = op
        if f in ("11", "1n") and not sane(i, nl): return None              # the layer gives the array's extent
        if f == "11": return ["set_coef_l_11", [i, j, cut(w, m.n_coef(i))]]
        if f == "n1": return ["set_coef_l_n1", [j, [cut(t, mc) for t in w]]]
        if f == "1n": return ["set_coef_l_1n", [i, [cut(t, m.n_coef(i)) for t in w][:nd]]]
        return ["set_coef_l_nn", [[[cut(t, mc) for t in q][:nd] for q in w]]]
    if k == "amp": return ["set_kernel_ampfac", op[1:]]
    if k == "par1": return ["set_kernel_params_1", op[1:]]
    if k in ("parn", "par_l") and not sane(op[1] if k == "parn" else op[2], nk): return None
    if k == "parn": return ["set_kernel_params_n", op[1:]]
    if k == "amp_l1": return ["set_kernel_ampfac_l_1", op[1:]]
    if k == "amp_ln": return ["set_kernel_ampfac_l_n", [op[1], op[2][:nd]]]
    if k == "par_l":
        _, f, q, j, p, w = op
        a = {"11": [q, j, p, w], "1n": [q, j, w], "n1": [q, p, w[:nd] if f == "n1" else 0], "nn": [q, w[:nd] if f == "nn" else 0]}[f]
        return ["set_kernel_params_l_" + f, a]
    if k == "update": return ["update_varied_layers", []]
    if k == "solve":
        _, sv, outs, nphi = op
        nt = m.s["n_out_thetas"] or m.s["n_quad"]
        nphi = n = max(0, nphi); ph = [[gen.rf(r.uniform(0, 360), 3) for _ in range(n)] for _ in range(nt)]
        v = SOLV[sv]
        q = r.random()
        if outs == ["RADIANCE"] and q < .5: return ["radiance", [v, nphi, ph]]
        if outs == ["MEAN"] and q < .8: return ["mean_radiance", [v]]
        if outs == ["FLUX"]: return ["flux" if q < .8 else "flux_divergence", [v]]
        return ["solution", [v, mask(outs, OUT) if outs else 0, nphi, ph]]
    if k == "get":
        g = op[1]; q = g[0]
        n = {"sc": lambda: "get_" + g[1], "ar": lambda: "get_" + g[1], "pade": lambda: "get_pade_params", "sos": lambda: "get_sos_params", "sl": lambda: "get_%s_l" % g[1],
             "lbl": lambda: "get_levels_b_l", "lay": lambda: "get_" + g[1], "lay_l": lambda: "get_%s_l" % g[1], "n_coef": lambda: "get_n_coef", "coef": lambda: "get_coef",
             "coef_l": lambda: "get_coef_l", "amp": lambda: "get_kernel_ampfac", "par": lambda: "get_kernel_params", "amp_l": lambda: "get_kernel_ampfac_l",
             "par_l": lambda: "get_kernel_params_l", "kernel": lambda: "get_kernel"}[q]()
        a = g[2:] if q in ("sc", "ar", "sl", "lay", "lay_l") else g[1:]
        return [n, list(a)]
    return None

SIZES = "options solvers max_coef n_quad n_stokes n_derivs n_layers n_kernels n_kernel_quad n_out_levels n_out_thetas n_out_thetas_2".split()
ALWAYS = [["get_" + k, []] for k in SIZES] + [["qx", []], ["qw", []]]

def nbytes(tree, f, default):
    try: mm = re.search(r"N_BYTES_XRTM_TYPE\s*=\s*(\d+)", open(os.path.join(tree, "interfaces", f)).read())
    except OSError: mm = None
    return int(mm.group(1)) if mm else default

class P(Prop):
    id = "C20"
    quick, thorough = 6000, 150000
    cpu_per_case = 120
    builds = [("opt", ("src", "misc", "utils", "interfaces"))]
    rule = "at least ten calls accepted by the C library and a creation accepted by it, each made in every language with the same outcome"
    def worker_setup(self):
        self.L = C.CDLL(build.lib("opt", "libvy.so")); self.tree = os.path.join(build.BUILD, "opt", "tree")
        self.L.vx_sizeof.restype = C.c_size_t; size = self.L.vx_sizeof()
        langs.F77.bytes = nbytes(self.tree, "xrtm_int_f77.inc", size); langs.F90.bytes = nbytes(self.tree, "xrtm_int_f90.f90", size)
        self.size = size
    def gen(self, r, i, tier):
        s = c21.scene(r); m = api.Model(s)
        ops = []
        for op in api.history(r, s, r.choice([4, 8, 15, 30])):
            t = translate(op, m, r)
            if t is not None: ops.append(t)
            if op[0] not in ("get", "func", "clear") and t is not None and m.ok(op): m.apply(op)
        if r.random() < .5:
            # the complete state, read back
            for g in api.all_gets(m):
                if r.random() < .6: ops.append(translate(["get", g], m, r))
        for t in ALWAYS: ops.insert(r.randint(0, len(ops)), t)
        if s["kernels"]: ops += [["kernel_qx", []], ["kernel_qw", []]]
        a = dict((k, s[k]) for k in "max_coef n_quad n_stokes n_derivs n_layers n_out_levels n_out_thetas".split())
        a.update(options=mask(s["options"], OPT), solvers=mask(s["solvers"], SOLV), n_theta_0s=1, n_kernel_quad=r.choice([4, 8]), kernels=[KERN.index(k) for k in s["kernels"]])
        if r.random() < .05:
            k = r.choice("max_coef n_quad n_stokes n_layers n_out_levels".split()); a[k] = r.choice([0, -1]); ops = [] 
        return dict(args=a, ops=ops, form=r.choice(["C", "F", "list", "strided"]), langs=r.sample(["Cpp", "F77", "F90", "Py"], 4 if i % 3 == 0 else 2))
    def check(self, case):
        a = case["args"]; L = self.L
        st = dict(ok=0, refused=0, solved=0)
        D = langs.Direct(L); made = D.create(a)
        others = [getattr(langs, n)(L) if n != "Py" else langs.Py(os.path.join(self.tree, "interfaces")) for n in case["langs"]]
        jl = langs.Jl(L)
        try:
            for o in others:
                if isinstance(o, langs.F77) and o.nbytes() < self.size:
                    raise Fail("%s: its definitions reserve %d bytes for a model, which has %d" % (o.name, o.nbytes(), self.size))
                o.form = case["form"]; o.strided = case["form"] == "strided"
                if o.create(a) != made: raise Fail("%s: creation is %s, by the C library it is %s" % (o.name, *(("refused", "accepted") if made else ("accepted", "refused"))))
            st["made"] = int(made)
            if not made: return st
            dm = Dims(a)
            for t, (name, ins) in enumerate(case["ops"]):
                where = "step %d, %s" % (t, name)
                ok, val, outs = D.call(name, prepare(dm, name, ins))
                st["ok" if ok else "refused"] += 1
                if ok and any(x[0] == "solver" for x in T[name]["args"]): st["solved"] += 1
                for o in others:
                    ok2, val2, outs2 = o.call(name, prepare(dm, name, ins))
                    if ok2 != ok: raise Fail("%s: %s: %s, by the C library %s" % (o.name, where, *(("refused", "accepted") if ok else ("accepted", "refused"))))
                    if val != val2 and not (val != val and val2 != val2): raise Fail("%s: %s: returns %r, the C library returns %r" % (o.name, where, val2, val))
                    if not ok and (o.name == "Python" or o.strided): continue
                    if len(outs) != len(outs2): raise Fail("%s: %s: %d outputs instead of %d" % (o.name, where, len(outs2), len(outs)))
                    names = [q[0] for q in T[name]["args"] if q[4] == "out"]
                    for n, u, v in zip(names, outs, outs2):
                        u, v = np.asarray(u), np.asarray(v)
                        if name in ("qx", "qw") and u.shape == v.shape: u, v = u[:a["n_quad"]], v[:a["n_quad"]]      # the output angles' part is held from their setting on
                        if u.shape != v.shape: raise Fail("%s: %s: output %s has the extents %r instead of %r" % (o.name, where, n, v.shape, u.shape))
                        guard = (u == GUARD) | (u == IGUARD)
                        bad = ~((u == v) | ((u != u) & (v != v)))
                        if o.name == "Python" or (o.name == "Fortran 90" and o.strided): bad &= ~guard                    # not written
                        if bad.any():
                            i = tuple(int(q) for q in np.argwhere(bad)[0]) if bad.ndim else ()
                            raise Fail("%s: %s: output %s%r is %r, by the C library it is %r" % (o.name, where, n, list(i), v[i].item(), u[i].item()))
                if ok and not T[name]["value"]:
                    bad = jl.dims(D.d, name, prepare(dm, name, ins)) if any(q[2] for q in T[name]["args"]) else []
                    for an, got, exp in bad: raise Fail("Julia: %s: the extents of %s are %r, expected %r" % (where, an, got, exp))
                if ok and name == "set_coef_1": dm.e["n_coef_layer"][ins[0]] = ins[1]
                if ok and name == "set_coef_n": dm.e["n_coef_layer"] = list(ins[0])
            return st
        except AssertionError as e: raise Fail(str(e))
        finally:
            for o in others: o.close()
            D.close()
    def nontrivial(self, case, st): return st.get("made") and st["ok"] >= 10
    def shrinks(self, case):
        o = case["ops"]; n = len(o); k = n // 2
        while k >= 1:
            for a in range(0, n, k): yield dict(case, ops=o[:a] + o[a + k:])
            k //= 2
        if len(case["langs"]) > 1:
            for l in case["langs"]: yield dict(case, langs=[l])
    def classify(self, case, st):
        for l in case["langs"]: yield l
        yield "arrays: " + case["form"]
        if st.get("solved"): yield "solved"
        if case["args"]["n_derivs"]: yield "derivatives"
        if not case["args"]["n_out_thetas"]: yield "at quadrature angles"
        if case["args"]["kernels"]: yield "kernels"
        if not st.get("made"): yield "creation refused"
