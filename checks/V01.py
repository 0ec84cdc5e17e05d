#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen, domgen

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/extended_types network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/value/value""".split()
FLAGS = ["recallSafe", "zombie", "hidden"]
ATTRS = {"description": ["one", "two", ""], "tags": ["a,b", "a", ""], "priority": ["1.5", "2", ""], "refreshRate": ["10", "0", ""], "recallSafe": ["1", ""],
         "valueStepsize": ["0.25", "2", ""], "zombie": ["1", ""], "hidden": ["1", ""], "appName": ["x", ""], "appVersion": ["1.2", ""], "appCreator": ["me", ""],
         "instanceBounds": ["0-5", "1-2", ""]}
UNIT = ["color.argb", "color.rgb", "color.hsv", "position.cart2D", "position.cart3D", "orientation.euler", "orientation.quaternion", "gain.db", "gain.linear",
        "distance.m", "angle.degree", "speed.m/s", "time.midinote", "position.polar", "color.rgba8", '""']


def gen(rng, n):
    b, live, cbs, types = [], {}, {0: [], 1: []}, {}
    via = lambda: " node" if rng.random() < .3 else ""
    ncb = 0
    for _ in range(n):
        i = rng.choice([0, 0, 0, 1])
        k = rng.random()
        if not live.get(i):
            types[i] = rng.choice(valgen.TYPES)
            b.append("new %d %s" % (i, types[i])); live[i] = True
            continue
        # values that do not fit a char are not specified
        v = valgen.value(rng, 1)
        if rng.random() < .4 and types[i] != "any":
            v = valgen.value(rng, 1, types[i])
        while types[i] == "CHAR" and not (v["t"] in ("CHAR", "BOOL", "IMPULSE", "STRING", "NONE") and len(v["s"]) < 2):
            v = valgen.value(rng, 0)
        v = vp.tok(v)
        if k < .40:
            op = rng.choice(["set", "set", "setr", "setr", "push", "push", "pushr", "pushr", "quiet", "quietr", "pushquiet", "incoming", "incomingq", "pushcur", "setself", "pushself"])
            if op in ("pushcur", "setself", "pushself"): b.append("%s %d" % (op, i))
            elif op[:2] == "in" and '"NONE"' in v: pass
            else: b.append("%s %d %s" % (op, i, v))
        elif k < .50:
            if cbs[i] and rng.random() < .4:
                x = rng.choice(cbs[i]); cbs[i].remove(x); b.append("rmcb %d %s" % (i, x))
            else:
                ncb += 1; cbs[i].append(str(ncb)); b.append("cb %d %d" % (i, ncb))
        elif k < .57:
            types[i] = rng.choice(valgen.TYPES); b.append("type %d %s%s" % (i, types[i], via()))
        elif k < .63:
            u = rng.choice(UNIT); b.append("unit %d %s%s" % (i, u, via()))
            if u != '""': types[i] = "any"
        elif k < .71:
            d = domgen.domain(rng, None)
            # bounds that do not fit a char, and lists of domains (where 1 = 1.0) are left out
            if d[0] in ("LIST", "ANY") or types[i] == "CHAR": continue
            b.append("dom %d %s%s" % (i, " ".join(vp.tok(x) for x in d), via()))
        elif k < .75: b.append("bounding %d %s%s" % (i, rng.choice(domgen.MODES), via()))
        elif k < .79: b.append("access %d %s%s" % (i, rng.choice(["BI", "GET", "SET"]), via()))
        elif k < .86: b.append("%s %d %d%s" % (rng.choice(["rep", "rep", "disabled", "muted", "critical"]), i, rng.randint(0, 1), via()))
        elif k < .91:
            a = rng.choice(list(ATTRS)); b.append("attr %d %s %s %d" % (i, a, rng.choice(ATTRS[a]) or '""', rng.randint(0, 1)))
        elif k < .92: b.append("def %d %s" % (i, vp.tok(valgen.value(rng, 0, rng.choice(["INT", "STRING"])))))
        elif k < .95: b.append("filter %d %s" % (i, v))
        elif k < .98: b.append("at %d %s" % (i, " ".join(str(rng.randint(0, 3)) for _ in range(rng.randint(0, 2)))))
        elif k < .99: b.append("echo %d" % rng.randint(0, 1))
        else:
            b.append("del %d" % i); live[i] = False; cbs[i] = []
    return b


def run(c):
    sc = c.mc("ParameterMC", "ParameterMC.cfg" if c.quick else "ParameterMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    if len(behs) > 60000:
        behs = c.rng.sample(behs, 60000)
    behs += [gen(c.rng, c.rng.choice([8, 20, 40])) for _ in range(700 if c.quick else 20000)]
    exe = c.build("parameter.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    # several threads pushing on one parameter, data races reported
    tsan = c.build("parameter.cpp", UNITS, variant="tsan", lazy=True)
    conc = [["new 0 STRING", "cb 0 1", "rmcb 0 1", "conc 0 %d" % (200 if c.quick else 2000)]] * (4 if c.quick else 40)
    runs += c.run_parallel(tsan, conc, tag="s", env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})
    c.validate("ParameterTrace", runs, exe=exe)
    c.samples(behs)


vp.main("V01", run)
