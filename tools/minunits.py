#!/usr/bin/env python3
"""minunits.py HARNESS [lib...]: smallest list of CORE units that links (needs everything built)."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
h = sys.argv[1]; libs = sys.argv[2:]
exe = B.build(h, B.CORE, libs=libs)
r = subprocess.run(["g++", "-pthread", os.path.join(B.BUILD, "std", [f for f in os.listdir(B.BUILD + "/std") if f.endswith(h.replace("/", "_") + ".o")][0]), exe + ".a", "-o", "/dev/null", "-Wl,-t", *libs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
got = []
for u in B.CORE:
    n = (B.REPO + "/src/ossia/" + u + ".cpp").replace("/", "_").lstrip("_") + ".o"
    if n in r.stdout: got.append(u)
print(" ".join(got))
