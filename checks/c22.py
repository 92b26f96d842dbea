"""C22: any input ends callxrtm with results or with an error message; a broken statement is always refused."""
from scn import *
import gen, api, xif, c18, c21, math, os, re, subprocess, resource
import build

WORDS = ("options solvers max_coef n_quad n_stokes n_derivs n_layers n_kernels n_kernel_quad kernels n_out_levels n_out_thetas doub_d_tau pade_params sos_params fourier_tol lambda planet_r "
         "levels_z out_levels out_taus out_thetas F_0 theta_0 phi_0 F_iso_top F_iso_top_l F_iso_bot F_iso_bot_l levels_b levels_b_l surface_b surface_b_l g g_l coef coef_l coef_files coef_files_l omega "
         "omega_l ltau ltau_l kernel_ampfac kernel_ampfac_l kernel_params kernel_params_l delta F_iso_top_p F_iso_bot_p levels_b_p surface_b_p g_p coef_p coef_files_p omega_p ltau_p kernel_ampfac_p "
         "kernel_params_p fd").split()
COUNTS = "max_coef n_quad n_stokes n_derivs n_layers n_kernels n_kernel_quad n_out_levels n_out_thetas".split()
TOKEN = re.compile(r"\s+|/\*.*?\*/|//[^\n]*|'[^'\n]*'|\"[^\"\n]*\"|-?[A-Za-z_][-A-Za-z0-9_:/.]*|-?[0-9.]+(?:[eE][-+]?[0-9]+)?|.", re.S)
COUNT_RE = re.compile(r"(" + "|".join(COUNTS) + r")((?:\s|=|/\*.*?\*/|//[^\n]*\n)*)(-?)(\d+)", re.S)

def tame(t):
    """Sizes stay small enough to be solved; a number of any size can still stand anywhere else."""
    lim = {"n_quad": 8, "n_layers": 12, "n_kernel_quad": 60, "max_coef": 60, "n_stokes": 9}
    t = COUNT_RE.sub(lambda m: m.group(1) + m.group(2) + m.group(3) + (m.group(4) if len(m.group(4)) < 3 and int(m.group(4)) <= lim.get(m.group(1), 12) else str(lim.get(m.group(1), 12))), t)
    t = re.sub(r"(sos_params(?:\s|=)*)(\d{4,})", r"\g<1>128", t)
    return t.replace("\0", "?")

NUMS = ["0", "1", "-1", "2", "7", "2147483647", "-2147483648", "99999999999999999999", "0.", "-0.", ".5", "1.5", "-1.e-3", "1.e308", "1.e400", "1.e-320", "1e5", ".", "-", "90.", "89.9999", "180.", "1.e-9"]
def mutate(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.random()
        if k < .6:
            tk = TOKEN.findall(t); ix = [i for i, x in enumerate(tk) if x.strip()]
            if not ix: return t
            i = r.choice(ix); q = r.random()
            if q < .2: tk[i] = ""
            elif q < .3: tk[i] = tk[i] + " " + tk[i]
            elif q < .4: j = r.choice(ix); tk[i], tk[j] = tk[j], tk[i]
            elif q < .5: tk[i] = r.choice(NUMS)
            elif q < .6:
                nx = [k for k in ix if re.match(r"[0-9.]", tk[k])] or ix; tk[r.choice(nx)] = r.choice(NUMS)
            elif q < .75: tk[i] = r.choice(WORDS)
            elif q < .9: tk[i] = r.choice(list("{}[]()=,;:*/'\"%-\\#") + ["/*", "*/", "//", "::", "%s%n", "''", '""', "hg", "hg:", "hg:x", "gc:", "gc:/nonexistent", "gc6:.", "ray", "lc:/dev/null", "none", ":", "[:][:][:][:][:][:][:][:][:]", "hg:.5:.5"])
            else: j = r.choice(ix); tk[i:i] = tk[j:j + r.randint(1, 12)]
            t = "".join(tk)
        elif k < .75 and t:
            i = r.randrange(len(t)); t = t[:i] + r.choice([chr(r.randrange(1, 256)), "", t[i] * 2]) + t[i + 1:]
        elif k < .9: t = t[:r.randrange(len(t) + 1)]
        elif t:
            i, j = sorted((r.randrange(len(t)), r.randrange(len(t)))); t = t[:i] + t[j:]
    return t

def broken(r, s, ops, st, a2):
    """The statements with one thing wrong in one of them: (creation, body, what) ."""
    m = api.Model(s); S = []
    for op in ops: S.append(xif.statement(op, m)); xif.apply(m, op)
    cr = xif.creation(s, st)
    m = api.Model(s)
    kind = r.choice(["short", "long", "index", "range", "word", "type", "name", "equal", "bracket", "p", "comment", "string", "late", "dims", "creation", "kernels"])
    body = None; what = kind
    arr = [i for i, x in enumerate(S) if x[2] == "arr" and isinstance(x[3], list) and len(x[3]) >= 1]
    idx = [i for i, x in enumerate(S) if x[1] and any(isinstance(d, int) for d in x[1])]
    ren = [st.stmt(x) for x in S]
    def put(i, tx): ren[i] = tx
    if kind in ("short", "long") and arr:
        i = r.choice(arr); n, d, k, v = S[i]; w = [x for x in v]
        if kind == "short":
            if len(w) < 2: return None
            w.pop()
        else: w.append(w[-1])
        put(i, st.stmt((n, d, k, w)))
    elif kind == "index" and idx:
        i = r.choice(idx); n, d, k, v = S[i]
        j = r.choice([q for q, x in enumerate(d) if isinstance(x, int)])
        size = dict(ltau=[s["n_layers"]], omega=[s["n_layers"]], coef=[s["n_layers"]], coef_files=[s["n_layers"]], kernel_ampfac=[len(s["kernels"])], kernel_params=[len(s["kernels"]), 0])
        size.update({a + "_l": [s["n_layers"], s["n_derivs"]] for a in ("ltau", "omega", "coef", "coef_files")})
        size["kernel_ampfac_l"] = [len(s["kernels"]), s["n_derivs"]]; size["kernel_params_l"] = [len(s["kernels"]), s["n_derivs"], 0]
        e = list(d); lim = size[n][j]
        if n.startswith("kernel_params") and j == len(size[n]) - 1: lim = len(m.par[d[0]]) if isinstance(d[0], int) else 4
        e[j] = lim + r.choice([0, 0, 1, 5, 10 ** 6]) if r.random() < .7 else -r.choice([1, 2, 10 ** 6])
        if e[j] < 0 and e[j] == -1: e[j] = -2
        if e[j] < -1: what = "negative index"; return None            # a negative index may mean "all"
        put(i, st.stmt((n, e, k, v)))
    elif kind == "range":
        bad = [("omega", [0], "num", r.choice([1.5, -.1])), ("ltau", [0], "num", -1.), ("ltau", [0], "num", -1e-9), ("out_levels", [], "arr", [99] * s["n_out_levels"]) if "OUTPUT_AT_LEVELS" in s["options"] else ("out_taus", [], "arr", [-1.] * s["n_out_levels"]),
               ("doub_d_tau", [], "num", -1.), ("F_iso_top", [], "num", -1.), ("F_iso_bot", [], "num", -1.)]
        bad += [("fourier_tol", [], "num", -1.), ("F_iso_top", [], "num", -1.), ("F_iso_bot", [], "num", -.5)]
        if "DOUB_ADD" in s["solvers"]: bad.append(("doub_d_tau", [], "num", r.choice([0., -1.])))
        if "SOURCE_THERMAL" in s["options"]: bad.append(("lambda", [], "num", r.choice([0., -1.])))
        if "SOURCE_SOLAR" in s["options"]: bad += [("theta_0", [], "num", r.choice([90., -1., 95.])), ("F_0", [], "num", -1.)]
        if s["n_out_thetas"]: bad.append(("out_thetas", [], "arr", [r.choice([90., -1., 91.])] * s["n_out_thetas"]))
        ren.append(st.stmt(r.choice(bad)))
    elif kind == "word": ren.insert(r.randint(0, len(ren)), st.lhs(r.choice(["omegas", "foo", "Ltau", "layers", "x", "hg:.5"])) + "1.")
    elif kind == "type":
        i = [q for q, x in enumerate(S) if x[2] in ("num", "str")]
        if not i: return None
        i = r.choice(i); n, d, k, v = S[i]
        put(i, st.lhs(n, d) + ("3.5" if k == "str" else r.choice(["'abc'", "abc", "="] + (["{1.}"] if not a2 else []))))
    elif kind == "name":
        ren.append(st.stmt(("coef_files", [0], "str", r.choice(["hg:x", "foo:.5", "dhg:.1:.2", "gc:/nonexistent/file", "ray:", "hg_l:.5", "hg:", "x", "gc:/dev/null"]))))
    elif kind == "equal":
        if a2 or not S: return None
        i = r.randrange(len(S)); n, d, k, v = S[i]
        put(i, n + "".join("[%s]" % (":" if x in (None, ":") else x) for x in d) + " " + (st.leaf(v) if k in ("num", "str") else "{" ))
    elif kind == "bracket" and arr and not a2:
        i = r.choice(arr); x = st.stmt(S[i])
        tk = TOKEN.findall(x); p = [q for q, y in enumerate(tk) if y in "{}" and y]
        tk[r.choice(p)] = r.choice(["", "(", ")", "]", ","]); put(i, "".join(tk))
    elif kind == "p": ren.insert(r.randint(0, len(ren)), st.lhs(r.choice(["omega_p", "ltau_p"]), [0, 0]) + "1.")
    elif kind == "comment": pass                                         # added by gen, at the very end
    elif kind == "string": ren.append(st.lhs("coef_files", [0]) + r.choice(["'hg:.5\n", '"hg:.5\n']))
    elif kind == "late": ren.insert(r.randint(min(1, len(ren)), len(ren)), st.lhs(r.choice(COUNTS)) + "1"); body = bool(ops)
    elif kind == "dims":
        n = r.choice(["omega", "coef", "ltau", "kernel_ampfac"])
        ren.append(st.lhs(n, [0] * r.choice([3, 4, 9, 20])) + "1.")
    elif kind == "creation":
        i = r.randrange(len(cr)); q = r.choice(["value", "missing", "name"])
        w = re.search("|".join(sorted(COUNTS + ["options", "solvers", "kernels"], key=len, reverse=True)), re.sub(r"/\*.*?\*/|//[^\n]*", " ", cr[i], flags=re.S)).group(0)
        if q == "missing" and w in ("options", "kernels", "n_kernel_quad", "n_out_thetas", "n_derivs"): return None
        if q == "missing" and a2 and w not in ("max_coef", "solvers"): return None                  # an input string has defaults
        if q == "missing": cr.pop(i)
        elif w in ("options", "solvers", "kernels"): cr[i] = st.lhs(w) + st.lst(["nonsense"])
        else: cr[i] = st.lhs(w) + ("-2" if q == "value" else "abc")
        what += " " + q + " " + w
        if w in ("n_derivs",) and q == "value" : return None
        if w in ("n_kernel_quad",): return None
    elif kind == "kernels":
        cr = [c for c in cr if not re.search(r"-?\bn?_?kernels\b", c)]
        cr += [st.lhs("n_kernels") + "3", st.lhs("kernels") + st.lst(["lambertian", "ross_thin"])]
    else: return None
    if kind == "late" and not body: return None
    return cr, ren, what

class P(Prop):
    id = "C22"
    quick, thorough = 10000, 300000
    cpu_per_case = 120
    builds = [("asan", ("src", "misc", "utils"))]
    rule = "the program was started on the input, ended by itself, and either results or an error message came out"
    def worker_setup(self):
        d = os.path.join(build.BUILD, "tmp"); os.makedirs(d, exist_ok=True)
        self.f = os.path.join(d, "c22.%d" % os.getpid())
        self.exe = os.path.join(build.BUILD, "asan", "tree", "utils", "callxrtm")
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4000", UBSAN_OPTIONS="halt_on_error=1:exitcode=99", LC_ALL="C")
        self.env.pop("LD_PRELOAD", None)
    def gen(self, r, i, tier):
        s = c21.scene(r)
        for _ in range(r.choice([1, 4])):
            ops = xif.operations(r, s, r.choice([0, 2, 5])); m = api.Model(s)
            for op in ops: xif.apply(m, op)
            if m.complete(): break
        a2 = r.random() < .35; st = xif.Style(r.randrange(10 ** 9), a2)
        how = "string" if a2 else r.choice(["file", "file", "stdin"])
        fd = "CALC_DERIVS" not in s["options"] and r.random() < .3
        mode = i % 8
        j = lambda l: "".join(x + (st.ws(True) if a2 else "\n") for x in l)
        if mode == 0 or (mode in (1, 2, 3) and fd): kind = "valid"
        elif mode in (1, 2, 3): kind = "broken"
        else: kind = "mutated"
        outs = r.choice(["", "", "-radiance_mean", "-flux", "-radiance_mean -flux -no_radiance"]).split()
        base = dict(kind=kind, how=how, args=outs, what="")
        if kind == "broken":
            for _ in range(50):
                b = broken(r, s, ops, st, a2)
                if b: break
            else: return dict(base, kind="mutated", text="")
            return dict(base, what=b[2], text=j(b[0]) + (" :: " if a2 else "") + j(b[1]) + (r.choice(["/*", "/* abc *", "/* /", "/**", "/* /* "]) if b[2] == "comment" else ""))
        if fd:
            nd = r.randint(1, 3); s = dict(s, n_derivs=nd)
            extra = [st.lhs("fd") + str(r.randrange(3)), ]
            body = [st.stmt(("delta", [], "arr", [1e-4] * nd))]
            for _ in range(r.randint(0, 4)):
                q = r.choice(["omega_p", "ltau_p"]); body.append(st.stmt((q, [r.randrange(s["n_layers"]), r.randrange(nd)], "num", round(r.uniform(0, .5), 3))))
            outs = []; base["args"] = []
        else: extra = []; body = []
        m = api.Model(s); B = []
        for op in ops: B.append(st.stmt(xif.statement(op, m))); xif.apply(m, op)
        C = xif.creation(s, st) + extra; r.shuffle(C)
        t = j(C) + (" :: " if a2 else "") + j(B + body)
        ok = m.complete() and not fd
        if ok:
            m.updated = True
            ok = m.solve_ok([0, self.first(s), [o for o, a in (("RADIANCE", "-no_radiance" not in outs), ("MEAN", "-radiance_mean" in outs), ("FLUX", "-flux" in outs)) if a], 1])
        if kind == "valid": return dict(base, text=t, complete=bool(ok))
        return dict(base, text=tame(mutate(r, t)))
    def first(self, s): return [k for k in xr.SOLV if k in s["solvers"]][0]
    def run(self, case):
        a = [self.exe]; inp = None
        if case["how"] == "file":
            with open(self.f, "w", encoding="latin-1", errors="replace") as f: f.write(case["text"])
            a += ["-input_file", self.f]
        elif case["how"] == "string": a += ["-input_string", case["text"].encode("latin-1", "replace")]
        else: inp = case["text"].encode("latin-1", "replace")
        a += case["args"]
        p = subprocess.Popen(a, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (60, 60)))
        o, e = p.communicate(inp)
        return p.returncode, o.decode("latin-1"), e.decode("latin-1")
    def check(self, case):
        rc, o, e = self.run(case)
        st = dict(exit=rc, out=len(o), refused=int(rc == 1))
        if rc == -24 or rc == -9: return dict(st, inconclusive=1)
        if "Sanitizer" in e or "runtime error" in e:
            if "allocation-size-too-big" in e or "out of memory" in e.lower(): return dict(st, inconclusive=1)
            l = [x for x in e.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x or "SUMMARY" in x]
            raise Fail("callxrtm: " + " | ".join(l)[:300])
        if rc not in (0, 1): raise Fail("callxrtm ended with %d: %s" % (rc, e[-200:]))
        if rc == 1 and not e.strip() and not o.strip(): raise Fail("callxrtm failed without a message")
        if rc == 1 and "ERROR" not in e + o: raise Fail("callxrtm failed without an error message: %r" % (e + o)[-200:])
        if rc == 0 and "ERROR" in e: raise Fail("callxrtm reported an error and then success: " + e[-300:])
        if case["kind"] == "broken" and rc == 0: raise Fail("an input with a %s error was accepted" % case["what"])
        if case["kind"] == "valid" and case["complete"] and rc: raise Fail("a complete valid input was refused: " + e[-300:])
        if rc == 0 and not o.strip(): raise Fail("callxrtm printed nothing")
        return st
    def nontrivial(self, case, st): return bool(case["text"].strip()) and not st.get("inconclusive")
    def classify(self, case, st):
        yield "%s, %s" % (case["kind"], "results" if st["exit"] == 0 else "refused")
        yield case["how"]
        if st.get("inconclusive"): yield "inconclusive (time or memory)"
        if case["kind"] == "broken": yield "broken: " + case["what"].split(" ")[0]
    def shrinks(self, case):
        tk = TOKEN.findall(case["text"]); n = len(tk); k = n // 2
        if case["kind"] != "mutated": return
        while k >= 1:
            for a in range(0, n, k): yield dict(case, text=tame("".join(tk[:a] + tk[a + k:])))
            k //= 2
