"""serves calls to the xrtm Python module; run by /usr/bin/python3"""
import sys, os, pickle, struct
inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
n = os.open("/dev/null", os.O_RDWR); os.dup2(n, 1); os.dup2(n, 0)
sys.path.insert(0, sys.argv[1])
import numpy as np
import xrtm
x = None
def pack(v):
    if isinstance(v, np.ndarray): return (v.dtype.str, v.shape, v.tobytes())
    return v
def shaped(a, form):
    if form == "F": return np.asfortranarray(a)
    if form == "list" and 0 not in a.shape: return a.tolist()
    if form == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype); b[..., ::2] = a; return b[..., ::2]
    return a
while True:
    h = inp.read(8)
    if len(h) < 8: break
    m = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
    if m[0] == "create":
        x = None
        try: x = xrtm.xrtm(*m[1]); r = True
        except xrtm.error: r = False
    elif m[0] == "close": x = None; r = True
    else:
        args = [np.frombuffer(a[2], dtype=np.float64 if a[0] == "double" else np.int32).reshape(a[1]) if isinstance(a, tuple) else a for a in m[2]]
        args = [shaped(a, m[3]) if isinstance(a, np.ndarray) else a for a in args]
        try:
            v = getattr(x, m[1])(*args)
            q = None
            for w in (v if isinstance(v, tuple) else (v,)):
                if isinstance(w, np.ndarray):
                    c = sys.getrefcount(w) - (2 if isinstance(v, tuple) else 3)
                    if c > 2 - 1: q = "%s keeps its output array alive (%d)" % (m[1], c)
            w = None
            r = ("exc", q) if q else ("ok", tuple(pack(w) for w in v) if isinstance(v, tuple) else pack(v))
            v = None
        except xrtm.error: r = ("err",)
        except Exception as e: r = ("exc", "%s raises %s: %s" % (m[1], type(e).__name__, e))
    b = pickle.dumps(r, 4); out.write(struct.pack("<Q", len(b)) + b); out.flush()
