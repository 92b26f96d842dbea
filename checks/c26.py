"""C26: results are a function of an instance's inputs: not of memory contents, other instances or threads."""
from scn import *
import copy, threading, random, subprocess, sys, json, tempfile, re
import c07

def steps(lib, case, out):
    """generator over the case's operations; results go to out"""
    s = copy.deepcopy(case["scene"])
    x = xr.X(lib, s)
    try:
        yield
        x.setup(); dirty = False
        yield
        for o in case["ops"]:
            if o[0] == "solve":
                if dirty and x.nd: x.call("xrtm_update_varied_layers"); dirty = False
                out.append((o[1], x.solve(o[1], o[2], phis=o[3])))
            else:
                c07.do(x, s, o); c07.apply(s, o)
                if o[0].startswith("d_"): dirty = True
            yield
    finally:
        x.close()

def alone(lib, case):
    out = []
    for _ in steps(lib, case, out): pass
    return out

def differ(a, b):
    """largest difference relative to the results' scale; None if identical"""
    w = None
    for n, ((sv, p), (_, q)) in enumerate(zip(a, b)):
        for k in p:
            u, v = np.asarray(p[k]), np.asarray(q[k])
            if u.tobytes() == v.tobytes(): continue
            d = np.abs(u - v); sc = np.nanmax(np.abs(v)) if v.size else 0.
            e = float(np.nanmax(d) / max(sc, 1e-12)) if not (np.isnan(u) ^ np.isnan(v)).any() else float("inf")
            if w is None or e > w[0]: w = (e, "solution %d (%s) %s" % (n, sv, k))
    return w

class Racer:
    """a process with the library built with ThreadSanitizer, to run histories at the same time"""
    def __init__(self):
        self.err = tempfile.TemporaryFile()
        f = subprocess.check_output(["gcc", "-print-file-name=libtsan.so"], text=True).strip()
        e = dict(os.environ, LD_PRELOAD=f, PYTHONMALLOC="malloc", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:history_size=4")
        self.p = subprocess.Popen([sys.executable, os.path.join(build.VERIF, "lib", "race.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, text=True)
        self.ok = self.p.stdout.readline() == "ready\n"
    def run(self, cs):
        try: self.p.stdin.write(json.dumps(cs) + "\n"); self.p.stdin.flush()
        except OSError: pass
        a = self.p.stdout.readline().strip()
        if a: return a
        rc = self.p.wait(); self.err.seek(0); e = self.err.read().decode("latin-1"); self.ok = False
        m = re.findall(r"SUMMARY: ThreadSanitizer: (.*)", e)
        return "%s (exit status %d)" % (m[0].replace(build.VERIF, "") if m else e[-300:], rc)

class P(Prop):
    id = "C26"
    quick, thorough = 6000, 200000
    cpu_per_case = 300
    rule = "at least two solutions that were computed in two environments and compared"
    TOL = 1e-8
    reps = 2
    builds = [("opt", ("src", "misc")), ("auto", ("src", "misc")), ("tsan", ("src", "misc"))]
    racer = None
    def worker_setup(self):
        self.lib = the_lib("opt", "libvxm.so"); self.L = self.lib.L
        self.auto = the_lib("auto", "libvxm.so")
    def gen(self, r, i, tier):
        g = c07.P()
        kind = ["memory", "memory", "instances", "threads", "memory", "memory", "instances", "races"][i % 8]
        n = 1 if kind == "memory" else r.choice([2, 2, 3, 4])
        cs = []
        for k in range(n):
            c = g.gen(r, r.randrange(10**6), "quick"); cs.append(dict(scene=c["scene"], ops=c["ops"]))
        if n > 1 and r.random() < .3: cs[1] = copy.deepcopy(cs[0])
        return dict(kind=kind, cases=cs, order=r.randrange(10**9), fills=r.sample([0, 255, 127, 63, 1], 2))
    def check(self, case):
        cs = case["cases"]; st = dict(solves=0)
        self.L.vxm_fill(-1)
        if case["kind"] == "memory":
            res = []
            for f, lib in zip(case["fills"], (self.lib, self.auto)):
                lib.L.vxm_fill(f)
                try: res.append(alone(lib, cs[0]))
                finally: lib.L.vxm_fill(-1)
            w = differ(res[0], res[1])
            st["solves"] = len(res[0])
            if w and not w[0] <= self.TOL:
                raise Fail("%s depends on the contents of fresh or released memory or of uninitialised variables (relative difference %.3g)" % (w[1], w[0]))
            return st
        if case["kind"] == "races":
            if not self.racer or not self.racer.ok: self.racer = Racer()
            if not self.racer.ok: return dict(st, inconclusive=1)      # no ThreadSanitizer here
            a = self.racer.run(cs)
            if a != "ok": raise Fail("instances in %d threads at once: %s" % (len(cs), a))
            return dict(solves=sum(o[0] == "solve" for c in cs for o in c["ops"]))
        ref = [alone(self.lib, c) for c in cs]
        st["solves"] = sum(len(q) for q in ref)
        outs = [[] for _ in cs]
        if case["kind"] == "instances":
            rr = random.Random(case["order"])
            gs = [steps(self.lib, c, o) for c, o in zip(cs, outs)]
            live = list(range(len(gs)))
            while live:
                k = rr.choice(live)
                for _ in range(rr.choice([1, 1, 2, 5])):
                    try: next(gs[k])
                    except StopIteration: live.remove(k); break
        else:
            errs = []; bar = threading.Barrier(len(cs))
            def run(k):
                try:
                    bar.wait(30)
                    for _ in range(self.reps):           # stops at the first difference
                        outs[k][:] = alone(self.lib, cs[k])
                        w = differ(outs[k], ref[k])
                        if errs or w and not w[0] <= self.TOL: break
                except BaseException as e: errs.append(e)
            ts = [threading.Thread(target=run, args=(k,)) for k in range(len(cs))]
            for t in ts: t.start()
            for t in ts: t.join()
            if errs: raise errs[0]
        for k in range(len(cs)):
            if len(outs[k]) != len(ref[k]): raise Fail("instance %d: %d of %d solutions" % (k, len(outs[k]), len(ref[k])))
            w = differ(outs[k], ref[k])
            if w and not w[0] <= self.TOL:
                raise Fail("%s: instance %d: %s differs from the same history alone by %.3g" % (case["kind"], k, w[1], w[0]))
        return st
    def nontrivial(self, case, st): return st["solves"] >= 2
    def shrinks(self, case):
        cs = case["cases"]
        if len(cs) > 2:
            for k in range(len(cs)): yield dict(case, cases=cs[:k] + cs[k + 1:])
        for k, c in enumerate(cs):
            ops = c["ops"]; n = len(ops); h = n // 2
            while h >= 1:
                for a in range(0, n, h):
                    q = list(cs); q[k] = dict(c, ops=ops[:a] + ops[a + h:]); yield dict(case, cases=q)
                h //= 2
    def classify(self, case, st):
        yield case["kind"]
        for c in case["cases"]:
            for sv in c["scene"]["solvers"]: yield sv
