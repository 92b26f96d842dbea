"""A small property-based testing engine.

A case is a JSON value made from random.Random("seed/prop/index"), so a run is a
pure function of the code under test and VERIF_SEED.  Cases run in forked
workers: the library under test ends the process on internal errors, so a worker
that dies fails its current case and is started again with the next one.
"""
import os, sys, json, time, random, resource, select, signal, struct, traceback, hashlib, copy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))

class Fail(Exception):
    pass

class Prop:
    id = "X00"
    rule = ""
    quick = 400           # cases in the quick tier
    thorough = 20000
    quick_cap = 400.      # wall seconds after which no further case starts (safety)
    thorough_cap = 3600.
    cpu_per_case = 60     # CPU seconds
    builds = [("opt", ("src", "misc"))]
    sanitized = False     # runs with the sanitizers' runtime preloaded
    reps = 1              # runs of a concurrent case
    numeric = False       # confirm failures on perturbed neighbours
    assumptions = []
    level = "exploration"

    def setup(self): pass              # in the parent, after the build
    def worker_setup(self): pass       # in every worker
    def gen(self, r, i, tier): raise NotImplementedError
    def check(self, case): raise NotImplementedError      # raise Fail(msg) or return dict of stats or None
    def nontrivial(self, case, stats): return True
    def shrinks(self, case): return ()
    def perturb(self, case, r): return None
    def classify(self, case, stats): return ()

def rng(*a):
    return random.Random("/".join(str(x) for x in a))

# ------------------------------------------------------------------ execution
def _one(prop, case):
    """Runs in the worker: ('ok', stats) or ('fail', msg)"""
    try:
        st = prop.check(case)
        return "ok", st or {}
    except Fail as e:
        return "fail", str(e)
    except MemoryError:
        return "error", "MemoryError"
    except Exception as e:
        from xr import XErr
        if isinstance(e, XErr):
            return "fail", "a valid call was refused: " + str(e)
        return "error", traceback.format_exc()[-2000:]

def _quiet(path=None):
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    if path: fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    os.dup2(fd, 2)

def _errfile(pid):
    d = os.path.join(VERIF, "build", "log"); os.makedirs(d, exist_ok=True)
    return os.path.join(d, str(pid))

def _report(pid):
    """the sanitizer's words, if any: kind and first frames"""
    p = _errfile(pid)
    try: t = open(p, errors="replace").read()
    except OSError: return ""
    os.unlink(p)
    k = [i for i in (t.find("ERROR: AddressSanitizer"), t.find("runtime error:")) if i >= 0]
    if not k: return ""
    t = t[min(k):]; ls = t.split("\n")
    import re
    fr = [re.sub(r".* in (\S+) .*?([^/]*)$", r"\1 \2", l).strip() for l in ls if l.strip().startswith("#")]
    fr = [f for f in fr if "sanitizer" not in f and "libc" not in f][:4]
    return " [%s | %s]" % (re.sub(r"0x[0-9a-f]+|==\d+==", "", ls[0])[:120], " < ".join(fr)[:300])

def _limit(sec):
    t = resource.getrusage(resource.RUSAGE_SELF)
    used = int(t.ru_utime + t.ru_stime)
    try: resource.setrlimit(resource.RLIMIT_CPU, (used + sec, resource.RLIM_INFINITY))
    except ValueError: pass

def _child(prop, wfd, cases):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    _quiet(_errfile(os.getpid()) if prop.sanitized else None)
    def put(o):
        b = json.dumps(o).encode()
        b = struct.pack("<I", len(b)) + b
        while b:
            n = os.write(wfd, b); b = b[n:]
    try:
        prop.worker_setup()
    except Exception:
        put(["error", -1, traceback.format_exc()[-2000:]]); os._exit(0)
    for i, case in cases:
        try:
            c = case() if callable(case) else case
        except Exception:
            put(["error", i, "generator: " + traceback.format_exc()[-2000:]]); continue
        put(["start", i])
        if prop.sanitized: os.ftruncate(2, 0)
        _limit(prop.cpu_per_case)
        k, v = _one(prop, c)
        extra = None
        if k == "ok":
            try:
                nt = prop.nontrivial(c, v)
                h = hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16] if nt else None
                extra = [h, list(prop.classify(c, v))]
            except Exception:
                k, v = "error", traceback.format_exc()[-2000:]
        put(["done", i, k, v, extra])
    put(["end"])
    if prop.sanitized:
        try: os.unlink(_errfile(os.getpid()))
        except OSError: pass
    os._exit(0)

class Worker:
    def __init__(self, prop, gencases, n_done=0):
        self.prop = prop
        self.rfd, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rfd)
                _child(prop, w, gencases)
            finally:
                os._exit(99)
        os.close(w)
        self.buf = b""; self.cur = None; self.ended = False
        self.t = time.time()
    def msgs(self):
        """reads what is there; returns (list, eof)"""
        try: d = os.read(self.rfd, 1 << 16)
        except OSError: d = b""
        eof = not d
        self.buf += d
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n: break
            out.append(json.loads(self.buf[4:4 + n])); self.buf = self.buf[4 + n:]
        return out, eof
    def reap(self):
        os.close(self.rfd)
        _, st = os.waitpid(self.pid, 0)
        return st
    def kill(self):
        try: os.kill(self.pid, signal.SIGKILL)
        except OSError: pass
        return self.reap()

def death(st, prop, pid=None):
    d = death1(st, prop)
    if d and prop.sanitized and pid: d += _report(pid)
    return d

def death1(st, prop):
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGXCPU: return "did not finish within %d CPU seconds" % prop.cpu_per_case
        if s == signal.SIGKILL: return None
        return "process killed by signal %d" % s
    return "the library ended the process (exit status %d)" % os.WEXITSTATUS(st)

def run_one(prop, case, wall=300.):
    """One case in its own process: ('ok'|'fail'|'error'|'inconclusive', value)"""
    w = Worker(prop, [(0, case)])
    res = None; end = time.time() + wall
    while True:
        r, _, _ = select.select([w.rfd], [], [], max(0, end - time.time()))
        if not r:
            w.kill(); return "inconclusive", "wall time"
        ms, eof = w.msgs()
        for m in ms:
            if m[0] == "done": res = (m[2], m[3])
            if m[0] == "error": res = ("error", m[2])
        if eof: break
    st = w.reap()
    if res is None:
        d = death(st, prop, w.pid)
        return ("fail", d) if d else ("inconclusive", "killed")
    return res

def sweep(prop, seed, tier, n, nw, cap, on_result, start=0):
    """Runs cases start..n-1 on nw workers."""
    t0 = time.time()
    def stream(idx):
        for i in idx:
            if time.time() - t0 > cap: return
            yield i, (lambda i=i: prop.gen(rng(seed, prop.id, i), i, tier))
    nxt = {k: list(range(start + k, n, nw)) for k in range(nw)}
    ws = {}
    for k in nxt:
        if nxt[k]: ws[k] = Worker(prop, stream(nxt[k]))
    stop = False
    while ws:
        r, _, _ = select.select([w.rfd for w in ws.values()], [], [], 5.)
        for k in list(ws):
            w = ws[k]
            if w.rfd not in r: continue
            ms, eof = w.msgs()
            for m in ms:
                if m[0] == "start": w.cur = m[1]
                elif m[0] == "done":
                    w.cur = None; w.last = m[1]
                    on_result(m[1], m[2], m[3], m[4])
                elif m[0] == "error":
                    on_result(m[1], "error", m[2], None)
                elif m[0] == "end": w.ended = True
            if eof:
                st = w.reap(); del ws[k]
                if not w.ended and w.cur is not None:
                    d = death(st, prop, w.pid)
                    on_result(w.cur, "fail" if d else "inconclusive", d or "killed", None)
                    rest = [i for i in nxt[k] if i > w.cur]
                    nxt[k] = rest
                    if rest and not prop.__dict__.get("_stop"): ws[k] = Worker(prop, stream(rest))
                elif not w.ended:
                    on_result(-1, "error", "worker ended without a case, status %d" % st, None)
        if prop.__dict__.get("_stop"):
            for w in ws.values(): w.kill()
            return

# ------------------------------------------------------------------ the driver
def size(c):
    return len(json.dumps(c))

def shrink(prop, case, msg, budget):
    """Greedy: take the first simpler case that still fails."""
    t0 = time.time(); n = 0
    best, bmsg = case, msg
    again = True
    while again and time.time() - t0 < budget:
        again = False
        seen = set()
        for c in prop.shrinks(best):
            if time.time() - t0 > budget: break
            k = json.dumps(c, sort_keys=True)
            if k in seen or c == best: continue
            seen.add(k); n += 1
            st, v = confirm(prop, c, quickly=True)
            if st == "fail" and ("was refused" in v) == ("was refused" in bmsg):
                best, bmsg, again = c, v, True
                break
    return best, bmsg, n

def confirm(prop, case, quickly=False):
    """A failure of a numeric property has to be there on perturbed neighbours
    of the case too, so that a single ill-conditioned point is not reported."""
    st, v = run_one(prop, case)
    if st != "fail": return st, v
    if prop.numeric:
        bad = 0; tot = 0
        for k in range(3 if quickly else 5):
            c = prop.perturb(copy.deepcopy(case), rng("perturb", k, prop.id))
            if c is None: return st, v
            tot += 1
            s2, _ = run_one(prop, c)
            if s2 == "fail": bad += 1
        need = 2 if quickly else 3
        if bad < need:
            return "ill", "failed alone, %d of %d neighbours failed: %s" % (bad, tot, v)
    return st, v

def findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]

def main(prop, argv):
    t0 = time.time()
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    replay = None; n = None; dump = False; only = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == "--replay": replay = a.pop(0)
        elif x == "--cases": n = int(a.pop(0))
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--stats": dump = True
        elif x == "--case": only = int(a.pop(0))
        elif x == "--thorough": tier = "thorough"
    import build
    for v, parts in prop.builds: build.build(v, parts)
    prop.tier = tier
    prop.setup()
    tb = time.time() - t0
    if replay:
        d = json.load(open(replay))
        st, v = run_one(prop, d["case"])
        print("replay %s: %s %s" % (prop.id, st, v))
        sys.exit(1 if st == "fail" else 0 if st == "ok" else 2)
    if only is not None:
        c = prop.gen(rng(seed, prop.id, only), only, tier)
        print(json.dumps(c)); print(confirm(prop, c)); return
    if n is None: n = prop.quick if tier == "quick" else prop.thorough
    cap = prop.quick_cap if tier == "quick" else prop.thorough_cap
    nw = min(os.cpu_count() or 4, n) or 1

    S = dict(done=0, ok=0, inconclusive=0, errors=[], fails=[], hashes=set(), classes={}, stats={}, ill=0, sample=[])
    def on(i, k, v, extra):
        if k == "error":
            S["errors"].append((i, v))
            if len(S["errors"]) > 20: prop._stop = True
            return
        S["done"] += 1
        if k == "ok":
            S["ok"] += 1
            if extra and extra[0]: S["hashes"].add(extra[0])
            for c in (extra[1] if extra else ()): S["classes"][c] = S["classes"].get(c, 0) + 1
            for a_, b_ in v.items():
                if isinstance(b_, (int, float)) and not isinstance(b_, bool):
                    q = S["stats"].setdefault(a_, [])
                    q.append((b_, i))
            if len(S["sample"]) < 3 and extra and extra[0]: S["sample"].append(i)
        elif k == "inconclusive": S["inconclusive"] += 1
        else:
            S["fails"].append((i, v))
            if len(S["fails"]) >= 200 and not dump: prop._stop = True

    known = []
    stale = []
    for f in findings(prop.id):
        if f.get("status") == "fixed": continue
        if "case" not in f: continue
        st, v = run_one(prop, f["case"])
        if st == "fail": known.append((f, v))
        else: stale.append((f, st, v))
    sweep(prop, seed, tier, n, nw, cap, on)

    S["fails"].sort()
    prop.reps *= 20                       # schedules are tried more often once a case has failed
    viol = None; ills = []; flaky = []
    for i, v in S["fails"][:40]:
        c = prop.gen(rng(seed, prop.id, i), i, tier)
        st, v2 = confirm(prop, c)
        if st == "ill": ills.append((i, v2)); continue
        if st != "fail": flaky.append((i, v, st)); continue
        if not all(run_one(prop, c)[0] == "fail" for _ in range(2)):
            flaky.append((i, v, "not 3 of 3")); continue
        viol = (i, c, v2); break
    cov = dict(evaluations=S["done"], distinct_nontrivial=len(S["hashes"]), rule=prop.rule,
               samples=[prop.gen(rng(seed, prop.id, i), i, tier) for i in sorted(S["sample"])[:3]],
               planned=n, passed=S["ok"], failed=len(S["fails"]), inconclusive=S["inconclusive"],
               ill_conditioned=len(ills), not_reproduced=len(flaky), classes=dict(sorted(S["classes"].items())),
               build_s=round(tb, 1))
    st = {}
    for k, q in S["stats"].items():
        q.sort(); m = len(q)
        st[k] = dict(median=q[m // 2][0], p99=q[min(m - 1, int(m * .99))][0], max=q[-1][0], max_case=q[-1][1])
    cov["measured"] = st
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=list(prop.assumptions),
              wall_s=0., violations=1 if viol else 0)
    if dump:
        print(json.dumps(dict(cov, samples=0), indent=1))
        for x in S["fails"][:60]: print("FAIL", x)
        for x in ills[:5]: print("ILL", x)
        for x in flaky[:5]: print("FLAKY", x)
    for f, v in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, f["what"]))
    for f, s, v in stale:
        print("note: listed finding %s no longer fails (%s)" % (f.get("id"), s))
    rc = 0
    if viol:
        i, c, v = viol
        sb = 60. if tier == "quick" else 300.
        sc, sv, tried = shrink(prop, c, v, sb)
        st3 = [run_one(prop, sc)[0] for _ in range(3)]
        if not all(s == "fail" for s in st3): sc, sv = c, v
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-s%d-%d.json" % (prop.id, seed, i))
        with open(path, "w") as f:
            json.dump(dict(property=prop.id, seed=seed, index=i, tier=tier, message=sv, case=sc, original=c, shrink_attempts=tried,
                           replay_cmd="python3-vt run.py %s --replay %s" % (prop.id, path)), f, indent=1)
        cov["violation"] = dict(index=i, message=sv, replay=path)
        print("%s: case %d: %s" % (prop.id, i, sv))
        print("minimal case: %s" % json.dumps(sc)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop.id + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, tmp[:-4])
    if rc == 0 and (S["errors"] or S["done"] < n * .5):
        for e in S["errors"][:3]: print("ERROR in case %s: %s" % e)
        print("%s: no verdict (%d errors, %d of %d cases run)" % (prop.id, len(S["errors"]), S["done"], n))
        rc = 2
    if rc == 0:
        print("%s: held on %d cases (%d distinct non-trivial, %d ill-conditioned, %d inconclusive) in %.1f s"
              % (prop.id, S["done"], len(S["hashes"]), len(ills), S["inconclusive"], time.time() - t0))
    sys.exit(rc)
