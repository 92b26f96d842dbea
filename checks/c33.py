"""C33: text that the tools read and write: numbers, lists, names and masks, tokens; and the sorting and list helpers."""
from scn import *
import ctypes as C, mmap, math, os, re, struct
from xr import vp, i32, f64
libc = C.CDLL(None, use_errno=True); PG = mmap.PAGESIZE
L_ = C.c_long
LIM = dict(us=(0, 2**16 - 1, C.c_ushort), s=(-2**15, 2**15 - 1, C.c_short), ui=(0, 2**32 - 1, C.c_uint), i=(-2**31, 2**31 - 1, i32), l=(-2**63, 2**63 - 1, L_), ll=(-2**63, 2**63 - 1, C.c_int64))
WS = " \t\n\v\f\r"

class Page:
    """places bytes right before a page that may not be touched"""
    def __init__(self):
        self.m = mmap.mmap(-1, 17 * PG); self.a = C.addressof(C.c_char.from_buffer(self.m)); assert libc.mprotect(vp(self.a + 16 * PG), PG, 0) == 0
    def put(self, b):
        o = 16 * PG - len(b); self.m[o:16 * PG] = b; self.at = o; return vp(self.a + o)
    def text(self, s): return self.put(s.encode("latin-1") + b"\0")
    def read(self): b = self.m[self.at:16 * PG]; return b[:b.index(0)].decode("latin-1")

def word(r): return "".join(r.choice("abcXYZ_.-/09") for _ in range(r.randint(1, 9)))
def integer(r): return r.choice([r.randint(-9, 99), r.randint(-40000, 70000), r.randint(-2**33, 2**33), r.choice([2**15, 2**16, 2**31, 2**32, 2**63]) * r.choice([1, -1]) + r.randint(-2, 1), r.randint(-2**65, 2**65)])
def number(r): return r.choice([r.uniform(-2, 2), float(r.randint(-99, 99)), r.uniform(-1, 1) * 10.**r.randint(-290, 290), r.choice([1e-300, -1e300, 0., 5e-8])])
def spoil(r, s):
    k = r.randint(0, 5)
    return [s + r.choice(["x", " ", "e", "..", "_1"]), "x" + s, "", r.choice(["+", "-", ".", "--1", "1e", "e5", "0x"]), s[:1] + r.choice("zq:") + s[1:], "1,"[:r.randint(1, 2)] + s][k]

def as_int(s, base10=True):
    """what strtol takes, or None"""
    m = re.fullmatch(r"[ \t\n\v\f\r]*([+-]?)(\d+|0[xX][0-9a-fA-F]+)", s)
    if not m or (base10 and m.group(2)[1:2] in "xX" and len(m.group(2)) > 1): return None
    d = m.group(2); b = 10 if base10 else 16 if d[:2] in ("0x", "0X") else 8 if d[0] == "0" else 10
    try: v = int(d, b)
    except ValueError: return None
    return -v if m.group(1) == "-" else v
def as_num(s):
    return float(s) if re.fullmatch(r"[ \t\n\v\f\r]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s) else None

class P(Prop):
    id = "C33"
    quick, thorough = 120000, 3000000
    rule = "a number of at least two digits, a list of at least two entries, a text of at least three tokens or at least twelve values to sort"
    KINDS = ["num", "num", "bool", "list1", "list1", "list2", "bad", "full", "names", "tokens", "quotes", "trim", "case", "sort", "sort", "chain", "fields"]
    def worker_setup(self): self.L = the_lib().L; self.pg = Page(); self.pg2 = Page()
    def gen(self, r, i, tier):
        k = self.KINDS[i % len(self.KINDS)]; c = dict(k=k)
        if k == "num":
            c["t"] = r.choice(list(LIM) + ["d", "d"]); s = repr(number(r)) if c["t"] == "d" else str(integer(r))
            c["s"] = r.choice(["", "", " ", "\t\n", "+" if s[0] != "-" else ""]) + s if r.random() < .75 else spoil(r, s)
        elif k == "bool": c["s"] = r.choice(["", " ", "\t "]) + (r.choice(["0", "1", "t", "f", "T", "F"]) if r.random() < .4 else "".join(x.upper() if r.random() < .3 else x for x in r.choice(["true", "false"]))); c["s"] = c["s"] if r.random() < .6 else r.choice([c["s"][:-1], c["s"] + r.choice("e1 "), c["s"].replace("l", "k").replace("u", "v"), "", "yes"])
        elif k in ("list1", "list2", "bad", "full"):
            t = c["t"] = r.choice("sid" if k != "bad" else "id"); m = 1 if k == "list1" or k == "bad" else r.randint(1, 5); n = r.choice([0, 1, 2, 3, r.randint(1, 30)]) if k in ("list1",) else r.choice([1, 2, 3, r.randint(1, 12)])
            c["v"] = [[word(r) if t == "s" else r.randint(-2**31, 2**31 - 1) if t == "i" else number(r) for _ in range(n)] for _ in range(m)]
            c["pad"] = [r.choice(["", "", " ", "\n", ","]) for _ in range(7)]; c["two"] = k == "list2" or (k == "full" and r.random() < .5)
            if k == "bad": j = r.randint(0, n - 1); s = str(c["v"][0][j]); c["bad"] = [j, r.choice([s + "x", "x" + s, str(2**31 + r.randint(0, 2**33)) if t == "i" else s + "e", s + ".5.5", "-" + s + "-"])]
            if k == "full": c["room"] = r.random()
            if k == "list2" and m > 1 and r.random() < .3:
                q = c["v"][r.randint(0, m - 1)]
                if n > 1 and r.random() < .5: q.pop()
                else: q.append(c["v"][0][0])
        elif k == "names": c["n"] = r.randint(1, 12); c["m"] = [r.random() < .4 for _ in range(c["n"])]; c["w"] = [word(r) + "%d" % j for j in range(c["n"])]; c["ask"] = r.randint(-1, c["n"]); c["room"] = r.choice([0, 0, 0, r.randint(1, 20)]); c["len"] = r.randint(0, c["n"] + 1); c["neg"] = r.randint(0, 3)
        elif k in ("tokens", "quotes", "trim", "case"):
            a = "ab,; \tC" + ("'\"" if k == "quotes" else ""); c["s"] = "".join(r.choice(a) for _ in range(r.choice([0, 1, 3, r.randint(0, 40)]))); c["d"] = r.choice([",", " ", ", ", " \t", ",;"]); c["side"] = r.randint(0, 2); c["n"] = r.randint(1, 5); c["s2"] = "".join(x.swapcase() if r.random() < .3 else x if r.random() < .95 else "z" for x in c["s"])[:r.choice([0, 2, 99, 99])]
        elif k == "sort": n = r.choice([0, 1, 2, 3, 5, 9, 10, 11, 12, 20, r.randint(0, 300)]); d = r.choice([1, 3, 20, 10**9]); c["t"] = r.choice("id"); c["v"] = [r.randint(-d, d) if c["t"] == "i" else r.randint(-d, d) / 8. for _ in range(n)]; c["how"] = r.choice(["data", "index", "pointer"]); c["q"] = r.random() < .7; c["dec"] = r.random() < .3; c["pre"] = r.choice([0, 0, 1, 2])
        if k == "sort" and c["pre"]: c["v"].sort(reverse=c["pre"] == 2)
        if k == "chain": c["ops"] = [[r.choice(["append", "append", "unique", "insert", "find"]), r.randint(0, 5)] for _ in range(r.randint(1, 12))]
        if k == "fields": c["size"] = r.randint(1, 12); c["n"] = r.randint(1, 6); c["off"] = r.randint(0, 5); c["t"] = r.choice(["int", "long", "float", "double"]); c["v"] = [r.randint(-10 ** min(8, c["size"] - 1) + 1, 10 ** min(9, c["size"]) - 1) for _ in range(c["n"])]; c["v"] = [v if len(str(v)) <= c["size"] else 0 for v in c["v"]]
        return c
    def f(self, name, res=i32):
        g = getattr(self.L, name, None)
        if g is None: raise Gone(name)
        g.restype = res; return g
    def check(self, c):
        try: getattr(self, "do_" + c["k"])(c)
        except Gone as e: return dict(absent=str(e))
        return {}
    def do_num(self, c):
        t, s = c["t"], c["s"]
        if t == "d":
            v = as_num(s); x = f64(0)
            if v is not None and (math.isinf(v) or 0 < abs(v) < 1e-300 or (v == 0 and re.search("[1-9]", s.lower().split("e")[0]))): v = None
            if v is None and re.fullmatch(r"[ \t\n\v\f\r]*[+-]?0[xX].*", s): return
        else:
            v = as_int(s); x = LIM[t][2](0)
            if v is not None and not LIM[t][0] <= v <= LIM[t][1]: v = None
        e = self.f("gstrto" + t)(self.pg.text(s), C.byref(x))
        if (e == 0) != (v is not None) or (v is not None and x.value != v): raise Fail("gstrto%s of %r: %s" % (t, s, "refused" if e else "gives %r" % x.value))
    def do_bool(self, c):
        w = c["s"].lstrip(WS).lower(); x = i32(7); e = self.f("gstrtob")(self.pg.text(c["s"]), C.byref(x)); v = {"0": 0, "1": 1, "t": 1, "f": 0, "true": 1, "false": 0}.get(w)
        if (e == 0) != (v is not None) or (v is not None and x.value != v): raise Fail("gstrtob of %r: %d, %d" % (c["s"], e, x.value))
        if v is not None and self.f("gbtostr", C.c_char_p)(i32(v)) != [b"false", b"true"][v]: raise Fail("gbtostr")
    def arr(self, t, v): return ((i32 if t == "i" else f64) * max(1, len(v)))(*v) if t != "s" else (C.c_char_p * max(1, len(v)))(*[x.encode() for x in v])
    def row(self, t, p, n): return [x.decode() if t == "s" else x for x in C.cast(p, C.POINTER(C.c_char_p if t == "s" else i32 if t == "i" else f64))[:n]]
    def put(self, c, room=None):
        """the values as text, with so many bytes of room"""
        t, v = c["t"], c["v"]; fm = (C.c_char_p(b"%.17g"),) if t == "d" else (); size = room or 1 + 40 * (1 + sum(map(len, v)))
        b = self.pg2.put(b"#" * min(size, 16 * PG)); size = min(size, 16 * PG)
        if c["two"]:
            rows = [self.arr(t, x) for x in v]; a = (vp * len(rows))(*[C.cast(x, vp) for x in rows]); n = self.f("put_value_list2_" + t)(a, i32(len(v)), i32(len(v[0])), b, i32(size), *fm)
        else: n = self.f("put_value_list_" + t)(self.arr(t, v[0]), i32(len(v[0])), b, i32(size), *fm)
        raw = self.pg2.m[self.pg2.at:16 * PG]
        if 0 not in raw: raise Fail("put_value_list_%s: no end of the text within its length" % t)
        return self.pg2.read(), n
    def want(self, c): return ";".join(",".join(x if c["t"] == "s" else "%.17g" % x if c["t"] == "d" else str(x) for x in r) for r in c["v"])
    def do_list1(self, c):
        t, v, p = c["t"], c["v"][0], c["pad"]; s, w = "", self.want(c)
        if v:
            s, n = self.put(c)
            if s != w or n != len(w): raise Fail("put_value_list_%s: %r (%d) instead of %r" % (t, s, n, w))
        s = p[0] + "".join(x if x != "," else "," + p[1 + j % 6] for j, x in enumerate(s)) + p[1]; a = vp()
        n = self.f("get_value_list_" + t)(b"values", self.pg.text(s), C.byref(a))
        if n != len(v) or (n and self.row(t, a, n) != v): raise Fail("get_value_list_%s of %r: %d entries, %r" % (t, s, n, self.row(t, a, n) if n else None))
        if n: libc.free(a)
    def do_list2(self, c):
        t, v = c["t"], c["v"]; same = len({len(x) for x in v}) == 1; w = self.want(c); s = w
        if same:
            s, n = self.put(c)
            if s != w or n != len(w): raise Fail("put_value_list2_%s: %r (%d) instead of %r" % (t, s, n, w))
        a, m, n = vp(), i32(-5), i32(-5); e = self.f("get_value_list2_" + t)(b"values", self.pg.text(s), C.byref(a), C.byref(m), C.byref(n))
        if (e == 0) != same: raise Fail("get_value_list2_%s of %r: %d" % (t, s, e))
        if same:
            g = [self.row(t, C.cast(a, C.POINTER(vp))[j], n.value) for j in range(m.value)]
            if g != v: raise Fail("get_value_list2_%s of %r: %r" % (t, s, g))
    def do_full(self, c):
        w = self.want(c); room = max(1, int(c["room"] * (len(w) + 2)))
        s, n = self.put(c, room)   # the page behind the text is the oracle, and what is there is the beginning
        if not w.startswith(s): raise Fail("put_value_list_%s with %d bytes: %r is not the beginning of %r" % (c["t"], room, s, w))
    def do_bad(self, c):
        x = [str(y) for y in c["v"][0]]; x[c["bad"][0]] = c["bad"][1]; s = ",".join(x); t = c["t"]
        if (as_int(c["bad"][1], False) if t == "i" else as_num(c["bad"][1])) is not None and not (t == "i" and abs(as_int(c["bad"][1], False)) > 2**31): return
        g = self.f("get_value_list_" + t); pid = os.fork()
        if not pid:
            try: a = vp(); g(b"values", self.pg.text(s), C.byref(a)); os._exit(0)
            finally: os._exit(7)
        st = os.waitpid(pid, 0)[1]
        if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1): raise Fail("get_value_list_%s takes %r" % (t, s))
    def do_names(self, c):
        n = c["n"]; val = (L_ * n)(*[1 << (2 * j) for j in range(n)]); nm = (C.c_char_p * n)(*[x.encode() for x in c["w"]]); k = c["ask"]; inside = 0 <= k < n
        mask = sum(v for v, m in zip(val, c["m"]) if m); ch = [j for j in range(n) if c["m"][j]]; d = b"thing"
        def same(x, w, what):
            if x != w: raise Fail("%s: %r instead of %r" % (what, x, w))
        same(self.f("index_to_name", C.c_char_p)(i32(k), nm, i32(n), d), nm[k] if inside else None, "index_to_name")
        same(self.f("index_to_value", L_)(i32(k), val, i32(n), d), val[k] if inside else -1, "index_to_value")
        q = nm[k] if inside else [b"", b"zzz", b"~" + nm[0][:-1], nm[0] + b"~"][c["neg"]]; v = val[k] if inside else [0, 2, -1, 3][c["neg"]]
        same(self.f("name_to_index")(C.c_char_p(q), nm, i32(n), d), k if inside else -1, "name_to_index"); same(self.f("name_to_value", L_)(C.c_char_p(q), val, nm, i32(n), d), v if inside else -1, "name_to_value")
        same(self.f("value_to_index")(L_(v), val, i32(n), d), k if inside else -1, "value_to_index"); same(self.f("value_to_name", C.c_char_p)(L_(v), val, nm, i32(n), d), q if inside else None, "value_to_name")
        same(self.f("max_name_length")(nm, i32(n)), max(map(len, c["w"])), "max_name_length")
        w = ",".join(c["w"][j] for j in ch); room = c["room"] or len(w) + 1; b = self.pg2.put(b"#" * room); self.f("mask_to_name_list", vp)(L_(mask), val, i32(n), nm, b, i32(room)); same(self.pg2.read(), w[:room - 1], "mask_to_name_list")
        t = w.replace(",", [",", ", ", "\t", " ,"][c["neg"]]); same(self.f("name_list_to_mask", L_)(self.pg.text(t), val, nm, i32(n), d), mask, "name_list_to_mask"); same(self.f("name_list_to_mask", L_)(self.pg.text(t + ",zzz"), val, nm, i32(n), d), -1, "name_list_to_mask of a wrong name")
        if c["len"]:
            a = (i32 * (n + 1))(*[-7] * (n + 1)); same(self.f("mask_to_index_list")(L_(mask), val, i32(n), a, i32(c["len"])), min(len(ch), c["len"]), "mask_to_index_list"); same(list(a), (ch[:c["len"]] + [-7] * (n + 1))[:n + 1], "mask_to_index_list's list")
            a = (L_ * (n + 1))(*[-7] * (n + 1)); same(self.f("mask_to_value_list")(L_(mask), val, i32(n), a, i32(c["len"])), min(len(ch), c["len"]), "mask_to_value_list"); same(list(a), ([val[j] for j in ch][:c["len"]] + [-7] * (n + 1))[:n + 1], "mask_to_value_list's list")
        a = (L_ * max(1, len(ch)))(*[val[j] for j in ch]); same(self.f("value_list_to_mask", L_)(a, i32(len(ch))), mask, "value_list_to_mask")
    def split(self, s, d):
        out, i = [], 0
        while i < len(s):
            q = d
            while i < len(s):
                if s[i] in "'\"": q = s[i]; i += 1; break
                if s[i] not in d: break
                i += 1
            if i >= len(s): break
            j = next((j for j in range(i, len(s)) if s[j] in q), len(s)); out.append(s[i:j]); i = j + 1
        return out
    def do_tokens(self, c):
        s, d = c["s"], c["d"]; w = self.split(s, d); dd = C.c_char_p(d.encode())
        if c["k"] == "tokens":
            assert w == [x for x in re.split("[%s]" % d, s) if x]
            if self.f("count_tokens")(self.pg.text(s), dd) != len(w): raise Fail("count_tokens of %r at %r" % (s, d))
        a = (C.c_char_p * (len(s) + 2))(); n = self.f("tokenize")(self.pg.text(s), a, dd); g = [x.decode() for x in a[:n]]
        if g != w: raise Fail("tokenize of %r at %r: %r" % (s, d, g))
        if w:
            last = vp(); x = self.f("get_token_init", C.c_char_p)(self.pg.text(s), i32(c["n"]), dd, C.byref(last)); q = w[c["n"] - 1].encode() if len(w) >= c["n"] else None
            if x != q: raise Fail("get_token_init of %r: token %d is %r" % (s, c["n"], x))
            if len(w) > c["n"]:
                x = self.f("get_token", C.c_char_p)(i32(1), dd, C.byref(last))
                if x != w[c["n"]].encode(): raise Fail("get_token of %r after %d: %r" % (s, c["n"], x))
    do_quotes = do_tokens
    def do_trim(self, c):
        s = c["s"]; self.pg.text(s); self.f("trimm_string", None)(vp(self.pg.a + self.pg.at)); g = self.pg.read()
        if g != s.strip(" \t"): raise Fail("trimm_string of %r: %r" % (s, g))
        g = self.f("remove_pad", C.c_char_p)(self.pg.text("x" + s)if c["side"] == 1 else self.pg.text(s + "x"), i32(c["side"])).decode(); w = ("x" + s).rstrip(" ") if c["side"] == 1 else (s + "x").lstrip(" ")
        if g != w: raise Fail("remove_pad of %r, side %d: %r" % (s, c["side"], g))
        self.f("str_replace_char", None)(self.pg.text(s), C.c_char(b","), C.c_char(b"#"))
        if self.pg.read() != s.replace(",", "#"): raise Fail("str_replace_char of %r: %r" % (s, self.pg.read()))
    def do_case(self, c):
        a, b, n = c["s"], c["s2"], c["n"]; A, B = self.pg.text(a), self.pg2.text(b); sg = lambda x: (x > 0) - (x < 0); cmp = lambda x, y: (x > y) - (x < y)
        for f, args, w in (("ncscmp", (A, B), cmp(a.lower(), b.lower())), ("ncsncmp", (A, B, i32(n)), cmp(a.lower()[:n], b.lower()[:n])), ("mincmp", (A, B), cmp(a[:len(b)], b[:len(a)])), ("minncmp", (A, B, i32(n)), cmp(a[:n][:len(b)], b[:n][:len(a)]))):
            g = sg(self.f(f)(*args))
            if g != w: raise Fail("%s of %r and %r (%d): %d" % (f, a, b, n, g))
        for f, w in (("strtolower", a.lower()), ("strtoupper", a.upper())):
            B = self.pg2.put(b"#" * (len(a) + 1)); self.f(f, None)(A, B)
            if self.pg2.read() != w: raise Fail("%s of %r: %r" % (f, a, self.pg2.read()))
    def do_sort(self, c):
        v, t = c["v"], c["t"]; ty = i32 if t == "i" else f64; n = len(v); a = (ty * max(1, n))(*v); cm = C.cast(getattr(self.L, "cmp_%sp_%s" % ("dec_" if c["dec"] else "", t)), vp); z = C.c_size_t(C.sizeof(ty)); w = sorted(v, reverse=c["dec"]); f = ("quick_sort_" if c["q"] else "insertion_sort_") + c["how"]
        if c["how"] == "data": self.f(f)(a, i32(n), z, cm); g = list(a)[:n]
        elif c["how"] == "index":
            ix = (i32 * max(1, n))(*range(n)); self.f(f, None)(a, ix, i32(n), z, cm); g = [v[j] for j in list(ix)[:n]]
            if list(a)[:n] != v or sorted(list(ix)[:n]) != list(range(n)): raise Fail("%s: the values or the set of indexes changed" % f)
        else:
            p = (vp * max(1, n))(*[C.addressof(a) + j * z.value for j in range(n)]); self.f(f, None)(p, i32(n), z, cm); g = [v[(x - C.addressof(a)) // z.value] for x in list(p)[:n]]
            if list(a)[:n] != v or len(set(list(p)[:n])) != n: raise Fail("%s: the values or the set of pointers changed" % f)
        if g != w: raise Fail("%s of %r: %r" % (f, v, g))
    def do_chain(self, c):
        E = [(vp * 3)() for _ in range(40)]; ks = []; model = []; h = E[0]; self.f("list_init", None)(h); ad = C.addressof
        def same(x, w, what):
            if x != w: raise Fail("%s: %r instead of %r" % (what, x, w))
        for j, (op, k) in enumerate(c["ops"]):
            nm = C.create_string_buffer(b"n%d" % k); ks.append(nm); e = E[j + 1]; e[0] = ad(nm)
            hit = next((x for x, y in model if y == k), None)
            if op == "find": same(self.f("list_find", vp)(h, nm), hit, "list_find")
            elif op == "insert": self.f("list_insert", None)(h, e); model.insert(0, (ad(e), k))
            else:
                x = self.f("list_append", vp)(h, e, i32(op == "unique")); w = None if op == "unique" and hit else ad(e); same(x, w, "list_append")
                if w: model.append((w, k))
            same(self.f("list_count")(h), len(model), "list_count"); same(bool(self.f("list_is_empty")(h)), not model, "list_is_empty")
            if model:
                same(self.f("list_last_elem", vp)(h), model[-1][0], "list_last_elem")
                for p, (x, _) in enumerate(model): same(bool(self.f("list_is_first_elem")(h, vp(x))), p == 0, "list_is_first_elem"); same(bool(self.f("list_is_last_elem")(h, vp(x))), p == len(model) - 1, "list_is_last_elem")
            for way, seq in ((2, model), (1, model[::-1])):
                x, g = h[way], []
                while x != ad(h) and len(g) < 50: g.append(x); x = C.cast(x, C.POINTER(vp))[way]
                same(g, [y for y, _ in seq], "the elements in order")
    def do_fields(self, c):
        t, z, n, o = c["t"], c["size"], c["n"], c["off"]; ty = dict(int=i32, long=L_, float=C.c_float, double=f64)[t]; a = (ty * n)(); s = " " * o + "".join(str(v).rjust(z) for v in c["v"])
        self.f("extract_" + t, None)(self.pg.put(s.encode()), a, i32(o), i32(z), i32(n)); w = [ty(v).value for v in c["v"]]
        if list(a) != w: raise Fail("extract_%s of %r: %r" % (t, s, list(a)))
    def nontrivial(self, c, st):
        k = c["k"]
        if "absent" in st: return False
        if k in ("num", "bool"): return len(c["s"]) >= 2
        if k in ("list1", "list2", "bad", "full"): return sum(map(len, c["v"])) >= 2
        if k in ("tokens", "quotes", "trim", "case"): return len(c["s"]) >= 3
        if k == "sort": return len(c["v"]) >= 12
        return k != "chain" or len(c["ops"]) >= 2
    def classify(self, c, st):
        yield c["k"] + (":" + c["t"] if "t" in c else "")
        if "absent" in st: yield "absent: " + st["absent"]
    def shrinks(self, c):
        for k in ("s", "s2", "ops"):
            for j in range(len(c.get(k, ()))): yield dict(c, **{k: c[k][:j] + c[k][j + 1:]})
        if c["k"] == "sort":
            for j in range(len(c["v"])): yield dict(c, v=c["v"][:j] + c["v"][j + 1:])
class Gone(Exception): pass
