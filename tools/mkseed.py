#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}: makes seeded/ID from a text replacement (used while planting)."""
import sys, json, subprocess, os, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, edits, needs, breaks, demo, kind="c", files={}):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed.")
    out = ""
    for f, old, new in edits:
        src = open("/repo/" + f).read() if not os.path.exists(t + "/b/" + f) else open(t + "/b/" + f).read()
        assert src.count(old) == 1, (f, src.count(old), old)
        os.makedirs(os.path.dirname(t + "/a/" + f), exist_ok=True); os.makedirs(os.path.dirname(t + "/b/" + f), exist_ok=True)
        if not os.path.exists(t + "/a/" + f): open(t + "/a/" + f, "w").write(src)
        open(t + "/b/" + f, "w").write(src.replace(old, new))
    p = subprocess.run(["diff", "-ruN", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    lines = []
    for l in p.split("\n"):
        if l.startswith("diff "): continue
        if l.startswith("--- ") or l.startswith("+++ "): l = l.split("\t")[0]
        lines.append(l)
    open(d + "/patch.diff", "w").write("\n".join(lines))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if kind == "c":
        shutil.copy(V + "/tools/demo/d.h", d); shutil.copy(V + "/tools/demo/demo.sh", d)
        open(d + "/demo.c", "w").write('#include "d.h"\n' + demo.strip() + "\n")
    elif kind == "sh":
        open(d + "/demo.sh", "w").write(demo.strip() + "\n")
    for n, c in files.items(): open(d + "/" + n, "w").write(c.lstrip())
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(t)
