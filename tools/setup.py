#!/usr/bin/env python3
"""Checks that what the framework needs is there and builds once (each check builds again from /repo's current tree)."""
import os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
for t in ("gcc", "make", "rsync", "gfortran"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
import numpy, scipy
import build
build.build("opt", ("src", "misc", "utils"))
print("ready")
