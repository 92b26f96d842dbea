"""Runs histories at the same time in threads of this process, with a library built with ThreadSanitizer (which has to be
loaded before Python: see Racer in c26.py).  One JSON list of histories per input line; answers "ok" or the error."""
import os, sys, json, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]
inp, out = os.fdopen(os.dup(0), "r"), os.fdopen(os.dup(1), "w")
n = os.open("/dev/null", os.O_RDWR); os.dup2(n, 1); os.dup2(n, 0)
import build, xr, c26
lib = xr.load(build.lib("tsan"))
out.write("ready\n"); out.flush()
for line in inp:
    cs = json.loads(line); errs = []; bar = threading.Barrier(len(cs))
    def run(c):
        try:
            bar.wait(60); c26.alone(lib, c)
        except BaseException as e: errs.append(repr(e))
    ts = [threading.Thread(target=run, args=(c,)) for c in cs]
    for t in ts: t.start()
    for t in ts: t.join()
    out.write((errs[0].replace("\n", " ") if errs else "ok") + "\n"); out.flush()
os._exit(0)
