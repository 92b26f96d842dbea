#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
P = sorted(props.P, key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in P:
    if p.get("na"): continue
    assert os.path.exists(V + "/checks/%s.py" % p["id"].lower()), p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3-vt run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3-vt run.py %s --thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p.get("na")])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(checks), "checks")

import glob
o = open(HERE + "/design_head.md").read()
o += "\n## Properties\n"
for p in P:
    o += "\n### %s %s\n\n%s\n\nDecided by: %s. %s\n" % (p["id"], p["title"], p["statement"], p["technique"], p["design"])
    if p.get("na"): o += "\nNot claimed: %s\n" % p["na"]
o += "\n" + (open(HERE + "/design_tail.md").read() if os.path.exists(HERE + "/design_tail.md") else "")
k = json.load(open(V + "/known_findings.json"))["findings"]
o += "\n## Known findings\n\n"
for f in k:
    if f.get("status") != "fixed": o += "* %s (%s): %s\n" % (f.get("id", ""), f["property"], f["what"])
o += "\nRepaired defects (`fix:` commits in /repo):\n\n"
for f in k:
    if f.get("status") == "fixed": o += "* %s\n" % f["what"]
try: caught = json.load(open(V + "/tools/caught.json"))
except OSError: caught = {}
o += "\n## Planted bugs (`seeded/`) and the checks that catch them\n\nMeasured with `tools/plant.sh` at VERIF_SEED=1, quick tier.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    o += "| %s | %s | %s | %s |\n" % (i, j["property"], j["needs"], caught.get(i, "?"))
open(V + "/DESIGN.md", "w").write(o)
