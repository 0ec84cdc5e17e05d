#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen

UNITS = """context detail/instantiations editor/expression/expression editor/expression/expression_atom editor/expression/expression_bool
 editor/expression/expression_composition editor/expression/expression_generic editor/expression/expression_not editor/expression/expression_pulse
 network/base/device network/base/name_validation network/base/node network/base/node_attributes network/base/osc_address
 network/base/parameter network/base/protocol network/common/complex_type network/common/extended_types
 network/dataspace/dataspace_visitors network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device
 network/generic/generic_node network/generic/generic_parameter network/value/value""".split()
V = valgen.V
TYPES = {1: "INT", 2: "FLOAT", 3: "BOOL", 4: "VEC3F", 5: "STRING", 6: "LIST"}


def small(rng, t):
    if t == "INT": return V(t, 4 * rng.randint(-1, 2))
    if t == "FLOAT": return V(t, rng.randint(-4, 8))
    if t == "BOOL": return V(t, 4 * rng.randint(0, 1))
    if t == "VEC3F": return V(t, l=[small(rng, "FLOAT") for _ in range(3)])
    if t == "STRING": return V(t, 0, rng.choice(["", "a", "ab", "b", "1"]))
    if t == "LIST": return V(t, l=[small(rng, rng.choice(["INT", "FLOAT", "STRING"])) for _ in range(2)])
    return V(t)


def js(v): return json.dumps(v, separators=(",", ":"))


def operand(rng):
    if rng.random() < .6:
        p = rng.choice([1, 1, 1, 2, 2, 3, 4, 4, 5, 6])
        i = {4: rng.choice([0, 1, 2, 3]), 6: rng.choice([0, 1, 2])}.get(p, 0)
        return "d %d %d" % (p, i)
    return "v " + js(small(rng, rng.choice(["INT", "INT", "FLOAT", "BOOL", "VEC3F", "STRING", "LIST", "IMPULSE"])))


def expr(rng, depth):
    k = rng.random()
    if depth == 0 or k < .15:
        k = rng.random()
        if k < .1: return rng.choice("TF")
        if k < .35: return "P %d" % rng.choice([1, 1, 2, 3, 4])
        return "A %s %s %s" % (rng.choice(["eq", "ne", "gt", "lt", "ge", "le"]), operand(rng), operand(rng))
    if k < .35: return "N " + expr(rng, depth - 1)
    return "%s %s %s" % (rng.choice(["and", "or", "xor"]), expr(rng, depth - 1), expr(rng, depth - 1))


def gen(rng, n):
    b, live, cbs, last = [], {}, set(), None
    for _ in range(n):
        r = rng.random()
        x = rng.randint(1, 3)
        if x not in live or r < .08:
            # sometimes the same again, to compare
            e = rng.choice(list(live.values())) if live and rng.random() < .3 else expr(rng, rng.choice([0, 1, 1, 2, 3]))
            b.append("make %d %s" % (x, e)); live[x] = e
            cbs = {c for c in cbs if c[0] != x}
        elif r < .11: b.append("destroy %d" % x); del live[x]; cbs = {c for c in cbs if c[0] != x}
        elif r < .25:
            c = (x, rng.randint(1, 2))
            if c in cbs and rng.random() < .6: cbs.discard(c); b.append("uncb %d %d" % c)
            elif c not in cbs: cbs.add(c); b.append("cb %d %d" % c)
        elif r < .35: b.append("update %d" % x)
        elif r < .4 and live: b.append("equal %d %d" % (x, rng.choice(list(live))))
        elif r < .47: p = rng.randint(1, 6); b.append("remote %d %s" % (p, js(small(rng, TYPES[p]) if rng.random() < .8 else V("NONE"))))
        else: p = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6]); b.append("set %d %s" % (p, js(small(rng, TYPES[p]))))
    return b


def run(c):
    sc = [vp.cmds(s) for s in c.mc("ExprMC", "ExprMC.cfg" if c.quick else "ExprMCdeep.cfg", workers=8, timeout=3000)]
    behs = c.rng.sample(sc, min(len(sc), 5000 if c.quick else 60000))
    behs += [gen(c.rng, c.rng.choice([15, 30, 60])) for _ in range(2500 if c.quick else 50000)]
    exe = c.build("expr.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("ExprTrace", runs, exe=exe)
    c.samples(behs)


if __name__ == "__main__":
    vp.main("X01", run)
