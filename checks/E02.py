#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, exec_common as x

def run(c):
    sc = [vp.cmds(s) for s in c.mc("ExecStateMC", "ExecStateMCR.cfg" if c.quick else "ExecStateMCRdeep.cfg", workers=8, timeout=3000)]
    behs = c.rng.sample(sc, min(len(sc), 4000 if c.quick else 60000))
    head = ["inlet 1 1 3 1", "inlet 2 /[ac] 3 1", "dev 1 1", "begin"]
    behs = [head + reads(b) for b in behs]
    behs += [x.gen(c.rng, c.rng.choice([10, 25, 60]), True) for _ in range(2500 if c.quick else 50000)]
    exe = c.build("exec.cpp", x.UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("ExecStateTrace", runs, exe=exe)
    c.samples(behs)

def reads(b):
    """Both inlets are read whenever a tick begins."""
    r = []
    for k in b:
        r.append(k)
        if k == "begin": r += ["read 1", "read 2"]
    return r + ["begin", "read 1", "read 2"]
vp.main("E02", run)
