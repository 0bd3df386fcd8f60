#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "tlc", "tla-sany", "java"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["tla-sany", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(V, "spec"))
    if r.returncode:
        print(f, r.stdout.decode()[-800:])
        bad = 1
sys.exit(bad)
