#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, exec_common as x

def run(c):
    sc = [vp.cmds(s) for s in c.mc("ExecStateMC", "ExecStateMCE.cfg" if c.quick else "ExecStateMCEdeep.cfg", workers=8, timeout=3000)]
    behs = c.rng.sample(sc, min(len(sc), 4000 if c.quick else 60000))
    behs = [b + ["commit plain"] for b in behs]
    behs += [x.gen(c.rng, c.rng.choice([10, 25, 60]), False) for _ in range(2500 if c.quick else 50000)]
    exe = c.build("exec.cpp", x.UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("ExecStateTrace", runs, exe=exe)
    # the execution state shared by the threads of a parallel graph
    par = c.build("exec.cpp", x.UNITS, variant="par", lazy=True)
    some = c.rng.sample(behs, len(behs) // 5)
    c.validate("ExecStateTrace", c.run_parallel(par, some, tag="par"), exe=par)
    c.samples(behs)

vp.main("E01", run)
