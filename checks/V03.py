#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen


def gen(rng):
    b = []
    for _ in range(20):
        x, y = valgen.value(rng), valgen.value(rng)
        k = rng.random()
        if k < .35:
            b.append("conv %s %s" % (vp.tok(x), rng.choice(valgen.TYPES)))
        elif k < .6:
            b.append("cconv %s %s" % (vp.tok(x), vp.tok(y)))
        else:
            if rng.random() < .3:
                y = valgen.near(rng, x)
            b.append("cmp %s %s" % (vp.tok(x), vp.tok(y)))
    return b


def run(c):
    sc = c.mc("ValueMC", "ValueMC.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs = [sum(behs[i:i + 40], []) for i in range(0, len(behs), 40)]
    behs += [gen(c.rng) for _ in range(600 if c.quick else 15000)]
    exe = c.build("value.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("ValueTrace", runs, exe=exe)
    c.samples(behs)


UNITS = """context detail/instantiations network/base/name_validation network/base/node network/base/node_attributes
network/base/osc_address network/base/parameter network/common/extended_types network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/value/value""".split()
vp.main("V03", run)
