#!/usr/bin/env python3
"""addfix.py "subject prefix" Cxx ... : maps fix commits to properties and regenerates the fixed entries."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/fixed_map.json"; m = json.load(open(p)); a = sys.argv[1:]
m += [a[i:i + 2] for i in range(0, len(a), 2)]
json.dump(m, open(p, "w"), indent=1); subprocess.check_call(["python3", V + "/tools/fixed.py"])
