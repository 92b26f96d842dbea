"""C27: creation accepts exactly the documented configurations; names, indexes and masks agree."""
from scn import *
import ctypes as C
from xr import OPT, SOLV, KERN, IERR, mask

ONAMES, SNAMES = list(OPT), list(SOLV)
OUTN = ["radiance", "radiance_mean", "flux", "flux_divergence"]
MASKS = dict(option=[(n.lower(), m) for n, m in OPT.items()], solver=[(n.lower(), m) for n, m in SOLV.items()],
             output=[(n, 1 << i) for i, n in enumerate(OUTN)])
VALUES = dict(xrtm_kernel=KERN, xrtm_fd_method=["forward", "backward", "central"],
              eigen_solver_gen_real=["asymtx", "eispack", "lapack"], eigen_solver_gen_complex=["eispack", "lapack"])
MAXC = dict(max_coef=24, n_quad=4, n_layers=4, n_derivs=3)

# ------------------------------------------------------------ the documented rules
ONE_OF = [(("FOUR_CONV_OLD", "FOUR_CONV_NEW"), "FOUR_CONV_NEW"), (("OUTPUT_AT_LEVELS", "OUTPUT_AT_TAUS"), None),
          (("PART_SOL_CLASSICAL", "PART_SOL_GREENS"), "PART_SOL_CLASSICAL"),
          (("PHASE_SCALAR", "PHASE_MATRIX_GC", "PHASE_MATRIX_LC"), None),
          (("QUAD_NORM_GAUS_LEG", "QUAD_DOUB_GAUS_LEG", "QUAD_LOBATTO"), "QUAD_DOUB_GAUS_LEG")]
NEVER = [("N_T_TMS", "NO_AZIMUTHAL"), ("SAVE_LAYER_R_T_S", "STACK_REUSE_ADDING"), ("STACK_REUSE_ADDING", "TOP_DOWN_ADDING"),
         ("TOP_DOWN_ADDING", "BOTTOM_UP_ADDING")]
ALL = set(SNAMES)
LOW = {"TWO_STREAM", "FOUR_STREAM", "SIX_STREAM"}
ADDERS = {"DOUB_ADD", "EIG_ADD", "PADE_ADD"}

def defaults(o, c):
    o = set(o)
    if c["n_stokes"] > 1: o.add("VECTOR")
    if "N_T_TMS" in o: o.add("DELTA_M")
    for g, d in ONE_OF:
        if d and not o & set(g): o.add(d)
    if not o & {"PHASE_SCALAR", "PHASE_MATRIX_GC", "PHASE_MATRIX_LC"}:
        o.add("PHASE_MATRIX_GC" if "VECTOR" in o else "PHASE_SCALAR")
    if not o & {"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"}: o |= {"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"}
    return o

def bad_range(c):
    if c["max_coef"] < 0: return "max_coef"
    for k in ("n_quad", "n_layers", "n_theta_0s", "n_out_levels"):
        if c[k] <= 0: return k
    if not 1 <= c["n_stokes"] <= 4: return "n_stokes"
    for k in ("n_derivs", "n_out_thetas"):
        if c[k] < 0: return k
    if c["n_kernels"] < 0: return "n_kernels"
    if c["n_kernels"] > 0:
        if c["n_kernel_quad"] <= 0: return "n_kernel_quad"
        for k in c["kernels"]:
            if not 0 <= k < len(KERN): return "kernel"

def bad_options(o):
    for g, d in ONE_OF:
        if len(o & set(g)) != 1: return "one of " + "/".join(g)
    for a, b in NEVER:
        if a in o and b in o: return a + " with " + b
    if "STACK_REUSE_ADDING" in o and "CALC_DERIVS" not in o: return "STACK_REUSE_ADDING without derivatives"
    if not o & {"UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"}: return "no direction"
    if ("VECTOR" in o) != bool(o & {"PHASE_MATRIX_GC", "PHASE_MATRIX_LC"}): return "VECTOR and phase matrix"

def bad_counts(o, c):
    if ("CALC_DERIVS" in o) != (c["n_derivs"] > 0): return "CALC_DERIVS and n_derivs"
    if "DELTA_M" in o and c["max_coef"] < 2 * c["n_quad"] + 1: return "DELTA_M coefficients"
    if "SFI" in o and c["n_out_thetas"] == 0: return "SFI without angles"
    if o & {"TOP_DOWN_ADDING", "BOTTOM_UP_ADDING"} and c["n_out_levels"] != 1: return "one-way adding levels"
    if c["n_stokes"] > 1 and "VECTOR" not in o: return "n_stokes without VECTOR"

def bad_solvers(o, s, c):
    no = set()
    for n, k in (("TWO_STREAM", 1), ("FOUR_STREAM", 2), ("SIX_STREAM", 3)):
        if c["n_quad"] != k: no.add(n)
    if c["n_theta_0s"] != 1: no |= ALL - {"DOUB_ADD"}
    if c["n_out_levels"] > 2: no |= ADDERS | {"SOS", "TWO_OS"}
    if c["n_out_thetas"] > 0 and "SFI" not in o: no |= LOW
    if "DELTA_M" in o and "N_T_TMS" not in o: no.add("SINGLE")
    if "N_T_TMS" in o: no.add("TWO_OS")
    if "NO_AZIMUTHAL" in o: no.add("SINGLE")
    if "OUTPUT_AT_TAUS" in o: no |= ADDERS | {"SOS"}
    if "QUAD_LOBATTO" in o: no |= ALL
    if "SFI" in o: no |= ADDERS | {"MEM_BVP", "SOS"}
    if "SOURCE_SOLAR" not in o: no |= {"MEM_BVP", "SINGLE", "SOS", "TWO_OS"}
    if "SOURCE_THERMAL" in o: no |= ALL - ADDERS - {"EIG_BVP"}
    if o & {"STACK_REUSE_ADDING", "TOP_DOWN_ADDING", "BOTTOM_UP_ADDING"}: no |= {"EIG_BVP", "MEM_BVP", "SINGLE", "SOS", "TWO_OS"}
    b = set(s) & no
    return "/".join(sorted(b)) if b else None

# ------------------------------------------------------------ generation
def config(r):
    c = dict(max_coef=r.randint(0, 12), n_quad=r.choice([1, 1, 2, 2, 3, 3, 4]), n_stokes=r.choice([1, 1, 1, 2, 3, 4]), n_derivs=0,
             n_layers=r.randint(1, 4), n_theta_0s=1, n_kernels=0, n_kernel_quad=r.choice([0, 4, 8]), n_out_levels=r.choice([1, 1, 2, 2, 3]),
             n_out_thetas=r.choice([0, 0, 1, 3]), kernels=[])
    s = r.sample(SNAMES, r.choice([1, 1, 1, 2, 3]))
    o = set()
    for g, d in ONE_OF:
        if d is None and g[0] != "PHASE_SCALAR": o.add(g[0] if r.random() < .75 else r.choice(g))
        elif r.random() < .3 and g[0] != "PHASE_SCALAR": o.add(r.choice(g[:2]))
    if c["n_stokes"] > 1 and r.random() < .3: o |= {"VECTOR", r.choice(["PHASE_MATRIX_GC", "PHASE_MATRIX_LC"])}
    elif c["n_stokes"] == 1 and r.random() < .3: o.add("PHASE_SCALAR")
    if r.random() < .9: o.add("SOURCE_SOLAR")
    if r.random() < .25: o.add("SOURCE_THERMAL")
    if r.random() < .35: o.add("CALC_DERIVS"); c["n_derivs"] = r.randint(1, 3)
    for n, p in (("DELTA_M", .2), ("N_T_TMS", .15), ("NO_AZIMUTHAL", .12), ("PSA", .2), ("SAVE_LEG_POLYS", .2), ("SAVE_PHASE_MATS", .2),
                 ("SAVE_LOCAL_R_T", .2), ("SAVE_LAYER_R_T_S", .2), ("SAVE_TOTAL_R_T_S", .2), ("SFI", .15), ("STACK_REUSE_ADDING", .15),
                 ("TOP_DOWN_ADDING", .12), ("BOTTOM_UP_ADDING", .12), ("UPWELLING_OUTPUT", .4), ("DOWNWELLING_OUTPUT", .4)):
        if r.random() < p: o.add(n)
    if "DELTA_M" in o or "N_T_TMS" in o: c["max_coef"] = 2 * c["n_quad"] + r.choice([-1, 0, 1, 1, 2, 5])
    if r.random() < .3:
        c["n_kernels"] = r.randint(1, 3); c["n_kernel_quad"] = r.choice([1, 4, 8, 16])
        c["kernels"] = [r.randrange(len(KERN)) for _ in range(c["n_kernels"])]
    def valid():
        d = defaults(o, c)
        return not (bad_range(c) or bad_options(d) or bad_counts(d, c) or bad_solvers(d, s, c))
    if r.random() < .7:                 # repair towards a valid configuration, then sometimes break one thing
        for _ in range(60):
            if valid(): break
            d = defaults(o, c)
            b = bad_options(d)
            if b: o.discard(r.choice(sorted(o)))
            elif bad_counts(d, c):
                if "CALC_DERIVS" in o: c["n_derivs"] = max(1, c["n_derivs"])
                else: c["n_derivs"] = 0
                if "DELTA_M" in d: c["max_coef"] = max(c["max_coef"], 2 * c["n_quad"] + 1)
                if "SFI" in o: c["n_out_thetas"] = max(1, c["n_out_thetas"])
                if o & {"TOP_DOWN_ADDING", "BOTTOM_UP_ADDING"}: c["n_out_levels"] = 1
            elif r.random() < .5: s = r.sample(SNAMES, 1)
            else: o.discard(r.choice(sorted(o))) if o - {"OUTPUT_AT_LEVELS", "OUTPUT_AT_TAUS"} else None
            if not o & {"OUTPUT_AT_LEVELS", "OUTPUT_AT_TAUS"}: o.add("OUTPUT_AT_LEVELS")
        k = r.random()
        if k < .3: o ^= {r.choice(ONAMES)}
        elif k < .45: s = sorted(set(s) ^ {r.choice(SNAMES)}) or ["EIG_BVP"]
        elif k < .65:
            f = r.choice([k for k in c if k != "kernels"])
            c[f] = r.choice([-1, 0, 1, 2, 3, 5, c[f] + 1, c[f] - 1])
            if f == "n_kernels" and c[f] > 0: c["kernels"] = [r.randrange(len(KERN)) for _ in range(c[f])]
        elif k < .68 and c["n_kernels"] > 0: c["kernels"][r.randrange(c["n_kernels"])] = r.choice([-1, -7, len(KERN), 99])
    o.discard("REVERSE_DERIVS")
    if c["n_kernels"] <= 0: c["kernels"] = []
    return dict(kind="create", options=sorted(o, key=ONAMES.index), solvers=sorted(s, key=SNAMES.index), c=c)

def names_case(r):
    t = r.choice(["option", "solver", "output"])
    L = MASKS[t]
    sub = [n for n, m in L if r.random() < r.choice([.05, .3, .7, 1.])]
    return dict(kind="names", table=t, sub=sub, length=r.choice([1, 2, 5, 10, 30, 60, 200, 1024]), nlist=r.choice([1, 2, 3, 5, 40]),
                sep=r.choice([",", ", ", " ", "\t", " , ,"]), order=r.randrange(10**9),
                wrong=r.choice([None, None, "", "x", "Vector", "eig_bv", "eig_bvpp", "flux_", "doub-add", "radianc"]), at=r.random())

def value_case(r):
    t = r.choice(list(VALUES))
    return dict(kind="values", table=t, i=r.randrange(-2, len(VALUES[t]) + 2), wrong=r.choice(["", "x", "Lambertian", "forwar", "ross", "user_defined "]))

class P(Prop):
    id = "C27"
    quick, thorough = 100000, 3000000
    rule = "a configuration whose verdict was compared (about half are to be accepted), or a non-empty set of names converted both ways"
    def worker_setup(self):
        self.lib = the_lib(); L = self.L = self.lib.L
        u = C.c_uint; i = C.c_int; s = C.c_char_p; vp = C.c_void_p
        def sig(n, res, *a):
            f = getattr(L, n); f.restype = res; f.argtypes = list(a)
        for t in MASKS:
            p = "xrtm_%s_" % t
            sig(p + "n", i); sig(p + "max_name_length", i); sig(p + "index_to_name", s, i); sig(p + "name_to_index", i, s)
            sig(p + "index_to_mask", u, i); sig(p + "mask_to_index", i, u); sig(p + "mask_to_index_list", i, u, C.POINTER(i), i)
            sig(p + "name_to_mask", u, s); sig(p + "mask_to_name", s, u); sig(p + "mask_to_name_list", vp, u, vp, i)
            sig(p + "name_list_to_mask", u, vp); sig(p + "mask_to_value_list", i, u, C.POINTER(C.c_long), i)
            sig(p + "value_list_to_mask", u, C.POINTER(C.c_long), i)
        for p in VALUES:
            sig(p + "_n", i); sig(p + "_index_to_name", s, i); sig(p + "_name_to_index", i, s); sig(p + "_index_to_value", i, i)
            sig(p + "_value_to_index", i, i); sig(p + "_name_to_value", i, s); sig(p + "_value_to_name", s, i); sig(p + "_max_name_length", i)
        pk = C.POINTER(i)
        sig("xrtm_check_options", i, i, i)
        sig("xrtm_check_counts", i, i, *([i] * 8), pk, i, i, i)
        sig("xrtm_check_solvers", i, i, i, *([i] * 8), pk, i, i, i)
        sig("xrtm_create2", vp, *([i] * 10), pk, i, i)
    def gen(self, r, i, tier):
        k = r.random()
        return config(r) if k < .8 else names_case(r) if k < .95 else value_case(r)
    def check(self, case):
        return getattr(self, "do_" + case["kind"])(case)
    # ---- creation
    def do_create(self, case):
        L = self.L; c = case["c"]; s = case["solvers"]
        if c["n_theta_0s"] > 1 and s == ["DOUB_ADD"]: return dict(skip=1)
        o = defaults(case["options"], c)
        why = bad_range(c) or bad_options(o) or bad_counts(o, c) or bad_solvers(o, s, c)
        k = (C.c_int * max(1, len(c["kernels"])))(*c["kernels"]) if c["kernels"] else (C.c_int * 1)()
        om, sm = mask(case["options"], OPT), mask(s, SOLV)
        args = [c[x] for x in ("max_coef", "n_quad", "n_stokes", "n_derivs", "n_layers", "n_theta_0s", "n_kernels", "n_kernel_quad")]
        h = L.vx_new()
        rc = L.xrtm_create(h, om, sm, *args, k, c["n_out_levels"], c["n_out_thetas"])
        try:
            if why and rc == 0: raise Fail("accepted although invalid (%s)" % why)
            if why and rc != IERR: raise Fail("invalid (%s), but the result is %d and not the documented error code" % (why, rc))
            if not why and rc: raise Fail("a valid configuration was refused (%d)" % rc)
            if rc == 0:
                for f in ("max_coef", "n_quad", "n_stokes", "n_derivs", "n_layers", "n_kernels", "n_out_levels", "n_out_thetas"):
                    v = getattr(L, "xrtm_get_" + f)(h)
                    if v != c[f]: raise Fail("created with %s %d, getter returns %d" % (f, c[f], v))
                if c["n_kernels"]:
                    v = L.xrtm_get_n_kernel_quad(h)
                    if v != c["n_kernel_quad"]: raise Fail("n_kernel_quad %d, getter returns %d" % (c["n_kernel_quad"], v))
                    for j, q in enumerate(c["kernels"]):
                        if L.xrtm_get_kernel(h, j) != q: raise Fail("kernel %d is %d, getter returns %d" % (j, q, L.xrtm_get_kernel(h, j)))
                if L.xrtm_get_n_elem(h) != (1 if c["n_stokes"] == 1 else 6): raise Fail("n_elem %d" % L.xrtm_get_n_elem(h))
                v = L.xrtm_get_n_out_thetas_2(h)
                if v != (c["n_out_thetas"] or c["n_quad"]): raise Fail("n_out_thetas_2 %d" % v)
                if L.xrtm_get_solvers(h) != sm: raise Fail("solvers %#x, getter returns %#x" % (sm, L.xrtm_get_solvers(h)))
                g = L.xrtm_get_options(h) & 0xffffffff
                e = set(o)
                if c["n_stokes"] == 1 and "VECTOR" in e:        # one Stokes parameter is scalar transport
                    e -= {"VECTOR", "PHASE_MATRIX_GC", "PHASE_MATRIX_LC", "PHASE_SCALAR"}
                    own = 0
                    for n in ("VECTOR", "PHASE_MATRIX_GC", "PHASE_MATRIX_LC", "PHASE_SCALAR"): own |= OPT[n]
                    g &= ~own
                em = mask(sorted(e), OPT) & 0xffffffff
                ok = g == em or ("PHASE_MATRIX_LC" in e and g == em | OPT["SAVE_PHASE_MATS"])
                if not ok: raise Fail("options %s and their defaults are %#x, getter returns %#x" % (sorted(case["options"]), em, g))
                if L.xrtm_destroy(h): raise Fail("destroy failed")
        finally:
            L.vx_free(h)
        # the three public checks, with everything given explicitly
        if not bad_range(c):
            ex = mask(sorted(o), OPT)
            w = bad_options(o); q = L.xrtm_check_options(ex, 0)
            if bool(q) != bool(w): raise Fail("xrtm_check_options returns %d for %s (%s)" % (q, sorted(o), w))
            w = bad_counts(o, c); q = L.xrtm_check_counts(ex, *args, k, c["n_out_levels"], c["n_out_thetas"], 0)
            if bool(q) != bool(w): raise Fail("xrtm_check_counts returns %d (%s)" % (q, w))
            w = bad_solvers(o, s, c); q = L.xrtm_check_solvers(ex, sm, *args, k, c["n_out_levels"], c["n_out_thetas"], 0)
            if bool(q) != bool(w): raise Fail("xrtm_check_solvers returns %d (%s)" % (q, w))
            bare = set(case["options"])
            w = bad_options(bare); q = L.xrtm_check_options(mask(sorted(bare), OPT), 0)
            if bool(q) != bool(w): raise Fail("xrtm_check_options returns %d for %s (%s)" % (q, sorted(bare), w))
        return dict(valid=int(not why), why=why or "")
    # ---- names
    def do_names(self, case):
        import random
        L = self.L; t = case["table"]; T = MASKS[t]; p = "xrtm_%s_" % t; d = dict(T)
        f = lambda n: getattr(L, p + n)
        if f("n")() != len(T): raise Fail("%sn() is %d" % (p, f("n")()))
        if f("max_name_length")() != max(len(n) for n, m in T): raise Fail("max_name_length %d" % f("max_name_length")())
        for i, (n, m) in enumerate(T):
            for got, exp in ((f("index_to_name")(i), n.encode()), (f("name_to_index")(n.encode()), i), (f("index_to_mask")(i), m),
                             (f("mask_to_index")(m), i), (f("name_to_mask")(n.encode()), m), (f("mask_to_name")(m), n.encode())):
                if got != exp: raise Fail("%s entry %d (%s, %#x): got %r for %r" % (t, i, n, m, got, exp))
        for i in (-1, len(T), len(T) + 7):
            if f("index_to_name")(i) is not None: raise Fail("index %d has a name" % i)
            if f("index_to_mask")(i) != 0xffffffff: raise Fail("index %d has a mask" % i)
        sub = case["sub"]; m = 0
        for n in sub: m |= d[n]
        # names of a mask
        full = ",".join(sub).encode(); size = case["length"]
        G = 64
        buf = C.create_string_buffer(b"\xa5" * (size + G), size + G)
        f("mask_to_name_list")(m, C.addressof(buf), size)
        if buf.raw[size:] != b"\xa5" * G: raise Fail("%smask_to_name_list() with a buffer of %d wrote past its end" % (p, size))
        if b"\0" not in buf.raw[:size]: raise Fail("%smask_to_name_list() with a buffer of %d is not terminated" % (p, size))
        if len(full) < size and buf.value != full: raise Fail("names of %#x: %r" % (m, buf.value))
        if len(full) >= size and not full.startswith(buf.value): raise Fail("names of %#x cut to %d: %r" % (m, size, buf.value))
        # lists
        idx = [i for i, (n, mm) in enumerate(T) if mm & m]; k = case["nlist"]
        ib = (C.c_int * (k + 4))(*([-77] * (k + 4))); lb = (C.c_long * (k + 4))(*([-77] * (k + 4)))
        n1 = f("mask_to_index_list")(m, ib, k); n2 = f("mask_to_value_list")(m, lb, k)
        if n1 != min(k, len(idx)) or list(ib[:n1]) != idx[:n1] or any(v != -77 for v in ib[n1:]): raise Fail("index list of %#x limited to %d: %d, %r" % (m, k, n1, list(ib)))
        if n2 != n1 or list(lb[:n2]) != [T[i][1] for i in idx[:n2]] or any(v != -77 for v in lb[n2:]): raise Fail("value list of %#x limited to %d: %d, %r" % (m, k, n2, list(lb)))
        vb = (C.c_long * max(1, len(idx)))(*[T[i][1] for i in idx])
        if f("value_list_to_mask")(vb, len(idx)) != m: raise Fail("value_list_to_mask of %#x" % m)
        # back
        order = list(sub); random.Random(case["order"]).shuffle(order)
        b = C.create_string_buffer(case["sep"].join(order).encode())
        g = f("name_list_to_mask")(C.addressof(b))
        if g != m: raise Fail("%sname_list_to_mask(%r) is %#x, expected %#x" % (p, case["sep"].join(order), g, m))
        w = case["wrong"]
        if w is not None:
            if f("name_to_mask")(w.encode()) != 0xffffffff or f("name_to_index")(w.encode()) != -1: raise Fail("the unknown name %r is accepted" % w)
            if w:
                order.insert(int(case["at"] * (len(order) + 1)), w)
                b = C.create_string_buffer(case["sep"].join(order).encode())
                g = f("name_list_to_mask")(C.addressof(b))
                if g != 0xffffffff: raise Fail("%sname_list_to_mask(%r) is %#x although a name is unknown" % (p, case["sep"].join(order), g))
        return dict(names=len(sub))
    def do_values(self, case):
        L = self.L; p = case["table"]; T = VALUES[p]; i = case["i"]
        f = lambda n: getattr(L, p + "_" + n)
        if p.startswith("eigen"):                            # as many as were built
            n = f("n")()
            T = [x for x in T if x == "lapack" or (n == 3 or x == T[0])][-n:]
        if f("n")() != len(T): raise Fail("%s_n() is %d" % (p, f("n")()))
        if 0 <= i < len(T):
            n = T[i].encode()
            for got, exp in ((f("index_to_name")(i), n), (f("name_to_index")(n), i), (f("index_to_value")(i), i), (f("value_to_index")(i), i),
                             (f("name_to_value")(n), i), (f("value_to_name")(i), n)):
                if got != exp: raise Fail("%s %d: got %r for %r" % (p, i, got, exp))
        else:
            for got, exp in ((f("index_to_name")(i), None), (f("index_to_value")(i), -1), (f("value_to_index")(i), -1), (f("value_to_name")(i), None)):
                if got != exp: raise Fail("%s: invalid index or value %d gives %r" % (p, i, got))
        w = case["wrong"].encode()
        if f("name_to_value")(w) != -1 or f("name_to_index")(w) != -1: raise Fail("%s: the unknown name %r is accepted" % (p, w))
        return dict(names=1)
    def nontrivial(self, case, st): return not st.get("skip") and (case["kind"] == "create" or st.get("names", 0) > 0)
    def shrinks(self, case):
        if case["kind"] == "create":
            for n in case["options"]: yield dict(case, options=[x for x in case["options"] if x != n])
            if len(case["solvers"]) > 1:
                for n in case["solvers"]: yield dict(case, solvers=[n])
            for k, v in (("n_kernels", 0), ("n_out_thetas", 0), ("n_layers", 1), ("max_coef", 1), ("n_stokes", 1), ("n_derivs", 0), ("n_quad", 1)):
                if case["c"][k] != v:
                    c = dict(case["c"]); c[k] = v
                    if k == "n_kernels": c["kernels"] = []
                    yield dict(case, c=c)
        elif case["kind"] == "names":
            for n in case["sub"]: yield dict(case, sub=[x for x in case["sub"] if x != n])
    def classify(self, case, st):
        yield case["kind"]
        if case["kind"] == "create" and not st.get("skip"): yield "to be accepted" if st["valid"] else "to be refused"
        if st.get("why"): yield "refused: " + ("solver" if "/" in st["why"] or st["why"] in SOLV else st["why"].split("/")[0])
