#!/usr/bin/env python3
"""units.py PROP: the units its check builds"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/checks", V + "/tools"]
import vp
vp.main = lambda *a: None
u = __import__(sys.argv[1]).UNITS
print(u if isinstance(u, str) else " ".join(u))
