#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/extended_types network/common/path network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/local/local network/value/value""".split()
PATHS = ["/", "/a", "/a/b", "/a/c", "/a/b/d", "/e"]
TYPES = ["INT", "FLOAT", "BOOL", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]


def gen(rng, n):
    b, pars, protos, dev = [], {}, set(), False
    for _ in range(n):
        x = rng.random()
        if x < .10:
            p = rng.randint(1, 3)
            if p in protos: continue
            if rng.random() < .1: b.append("refuse %d" % p)
            else: b.append("expose %d %d" % (p, rng.random() < .8)); protos.add(p)
        elif x < .15 and protos:
            p = rng.choice(sorted(protos)); protos.discard(p); b.append("unexpose %d" % p)
        elif x < .16: b.append("clear"); protos.clear()
        elif x < .18: b.append("stop")
        elif not dev:
            if x > .6: b.append("device"); dev = True
        elif x < .22: b.append("echo %d" % (rng.random() < .7))
        elif x < .34 or not pars:
            p = rng.choice(PATHS)
            if p in pars: continue
            t = rng.choice(TYPES); b.append("new %s %s" % (p, t)); pars[p] = [t, 0]
        else:
            p = rng.choice(sorted(pars)); t = pars[p][0]
            v = lambda: vp.tok(valgen.value(rng, 2, t if rng.random() < .6 else rng.choice(TYPES)))
            if x < .37: b.append("del %s" % p); del pars[p]
            elif x < .48: b.append("listen %s" % p); pars[p][1] += 1
            elif x < .56:
                if pars[p][1]: b.append("unlisten %s" % p); pars[p][1] -= 1
            elif x < .68: b.append("%s %s %s" % (rng.choice(["push", "pushr"]), p, v()))
            elif x < .71: b.append("pushcur %s" % p)
            elif x < .76: b.append("send %s %s" % (p, v()))
            elif x < .80: b.append("raw %s %s" % (p, v()))
            elif x < .84: b.append("bundle " + " ".join(rng.sample(sorted(pars), rng.randint(0, len(pars)))))
            elif x < .87: b.append("rawbundle " + " ".join("%s %s" % (q, v()) for q in rng.sample(sorted(pars), rng.randint(0, len(pars)))))
            elif x < .98: b.append("%s %s %s" % (rng.choice(["incoming", "incomingq"]), p, v()))
            else: b.append("pull %s" % p)
    return b


def run(c):
    sc = c.mc("MuxMC", "MuxMC.cfg" if c.quick else "MuxMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    if len(behs) > 60000:
        behs = c.rng.sample(behs, 60000)
    behs += [gen(c.rng, c.rng.choice([15, 40, 80])) for _ in range(1000 if c.quick else 20000)]
    exe = c.build("mux.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("MuxTrace", runs, exe=exe)
    c.samples(behs)


vp.main("U01", run)
