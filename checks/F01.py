#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp


def msg(rng, big):
    k = rng.random()
    if big and k < .3:
        return "[%d*%d,%d,%d*%d]" % (rng.choice([7, 192, 219]), rng.randint(900, 1100), rng.randint(0, 255), rng.choice([1, 219]), rng.randint(1, 300))
    n = rng.choice([0, 1, 1, 2, 3, 4, 8, rng.randint(1, 60)])
    al = rng.choice([[192, 219, 220, 221, 0, 1], [0, 1, 127, 128, 255], list(range(256))])
    return "[" + ",".join(str(rng.choice(al)) for _ in range(n)) + "]"


def gen(rng, kind, big=False):
    b = []
    if kind == "slip" and rng.random() < .3:
        b.append("noise [%s]" % ",".join(str(rng.choice([192, 219, 220, 3, 200])) for _ in range(rng.randint(1, 6))))
    for _ in range(rng.randint(2, 8)):
        b.append("send " + msg(rng, big))
        for _ in range(rng.randint(0, 4)):
            b.append("recv %d" % rng.choice([1, 1, 2, 3, 4, 5, 7, 100, 1023, 1024, 1025]))
    return b + ["recv 10000", "send [1,2]", "recv 1", "recv 10000"]


def run(c):
    for kind in ("slip", "size"):
        sc = c.mc("FramingMC", "FramingMC_%s%s.cfg" % (kind, "" if c.quick else "_deep"), workers=8, heap="8g")
        behs = [vp.cmds(s) for s in sc]
        if c.quick and len(behs) > 6000:
            behs = c.rng.sample(behs, 6000)
        behs += [gen(c.rng, kind) for _ in range(800 if c.quick else 30000)]
        behs += [gen(c.rng, kind, True) for _ in range(16 if c.quick else 200)]
        exe = c.build("framing.cpp", ["detail/instantiations"] if False else [])
        runs = c.run_parallel(exe, behs, args=(kind,))
        c.validate("FramingTrace", runs, cfg="FramingTrace_%s.cfg" % kind, exe=exe, run_args=(kind,))
        c.samples(behs, 2)


vp.main("F01", run)
