#!/usr/bin/env python3
"""Regenerates the "fixed" entries of known_findings.json from the fix: commits in /repo (development helper)."""
import json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (start of the commit subject after "fix: ", property)
 ("mean radiance and flux use the direct beam", "C02"), ("MEM_BVP applies the isotropic", "C01"), ("SOS includes boundary", "C01"),
 ("thermal emission is unpolarized in the layer", "C01"), ("EIG_BVP includes the thermal source for output", "C02"),
 ("SFI surface emission derivative", "C05"), ("single scattering U changes sign", "C02"), ("EIG_BVP with SFI computes", "C02"),
 ("single scattering rotation at the zenith", "C02"), ("DOUB_ADD thermal emission", "C01"), ("mu_0 is not moved beyond one", "C02"),
 ("SINGLE initializes the output", "C05"), ("BRDF kernels without parameters", "C05"), ("BRDF kernels return the derivatives", "C05"),
 ("surface emission derivative uses", "C05")]
try: extra = json.load(open(V + "/tools/fixed_map.json"))
except OSError: extra = []
MAP += [tuple(x) for x in extra]
p = V + "/known_findings.json"
k = json.load(open(p)) if os.path.exists(p) else dict(findings=[])
keep = [f for f in k["findings"] if f.get("status") != "fixed"]
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
    m = re.match(r"(\w+) fix: (.*)", l)
    if not m: continue
    pr = [q for s, q in MAP if m.group(2).startswith(s)]
    assert pr, l
    out.append(dict(property=pr[0], status="fixed", what="fixed: property=%s %s %s" % (pr[0], m.group(1), m.group(2)), commit=m.group(1)))
json.dump(dict(findings=keep + out), open(p, "w"), indent=1); open(p, "a").write("\n")
print(len(keep), "open,", len(out), "fixed")
