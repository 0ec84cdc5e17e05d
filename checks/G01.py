#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, graph_common as g

def run(c):
    sc = c.mc("GraphMC", "GraphMC.cfg" if c.quick else "GraphMCdeep.cfg", workers=8, timeout=3000)
    sc = [vp.cmds(s) for s in sc]
    nodes = ["node 1 v 0 1", "node 2 v 0 0", "node 3 v 1 0"]
    behs = c.rng.sample(sc, min(len(sc), 3000 if c.quick else 30000))
    behs = [["graph " + k] + nodes + b for i, b in enumerate(behs) for k in [g.KINDS[i % len(g.KINDS)]]]
    behs += [g.gen(c.rng, c.rng.choice([6, 15, 30]), g.KINDS) for _ in range(1000 if c.quick else 20000)]
    exe = c.build("graph.cpp", g.UNITS, lazy=True)
    c.validate("GraphTrace", c.run_parallel(exe, behs, tag="seq"), exe=exe)
    # several threads: no address, as writers of one parameter are not ordered
    pb = c.rng.sample(sc, min(len(sc), 600 if c.quick else 10000))
    noaddr = ["node 1 v 0 0", "node 2 v 0 0", "node 3 v 0 0"]
    pb = [["graph " + k] + noaddr + b for i, b in enumerate(pb) for k in [g.PAR[i % len(g.PAR)]]]
    pb += [g.gen(c.rng, c.rng.choice([10, 25]), g.PAR, par=True) for _ in range(600 if c.quick else 10000)]
    pexe = c.build("graph.cpp", g.UNITS, variant="par", lazy=True)
    c.validate("GraphTrace", c.run_parallel(pexe, pb, tag="par"), exe=pexe)
    c.samples(behs + pb)

vp.main("G01", run)
