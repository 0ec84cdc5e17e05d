#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, graph_common as g

def run(c):
    sc = c.mc("GraphMC", "GraphMC.cfg" if c.quick else "GraphMCdeep.cfg", workers=8, timeout=3000)
    sc = [vp.cmds(s) for s in sc]
    behs = c.rng.sample(sc, min(len(sc), 2000 if c.quick else 30000))
    # the three nodes of the model, with ports of each kind, on every scheduler
    types = [["v"], ["m"], ["a"], ["v"], ["v"]]
    out = []
    for i, b in enumerate(behs):
        t = types[i % len(types)][0]
        a = 1 if t == "v" else 0
        out.append(["graph " + g.KINDS[i % len(g.KINDS)], "node 1 %s 0 %d" % (t, a), "node 2 %s 0 0" % t, "node 3 %s %d 0" % (t, a)] + b)
    out += [g.gen(c.rng, c.rng.choice([10, 20, 40]), g.KINDS, data=True) for _ in range(1800 if c.quick else 30000)]
    exe = c.build("graph.cpp", g.UNITS, lazy=True)
    c.validate("GraphTrace", c.run_parallel(exe, out), exe=exe)
    c.samples(out)

vp.main("G02", run)
