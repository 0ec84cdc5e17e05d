#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/extended_types network/common/path network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/value/value preset/preset preset/exception""".split()
NODES = [(0, "a"), (1, "b"), (2, "c"), (1, "x.1"), (1, "x.2"), (1, "x.10"), (0, "b_c"), (0, "d"), (8, "Mid"), (8, "z"), (0, "e"),
         (0, "e.0"), (12, "k"), (0, "f"), (14, "g"), (15, "h"), (0, "g"), (17, "g"), (11, "k")]
ALL = "paths " + " ".join("%d:%s" % x for x in NODES)
MC = "paths 0:a 1:b 0:e 0:e.0"
TYPES = ["INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]
STRINGS = valgen.STRINGS + [" lead", "trail ", 'a"b', "back\\", '\\"', "tab\there", "two\nlines", "\u00c3\u00a9", "'", "{}", "[1, 2]", "a,b", 'string: "x"', "#", "%"]
NOT_IN_LISTS = ("IMPULSE", "NONE")


def tok(v):
    return json.dumps(v, separators=(",", ":"), sort_keys=True).replace(" ", "\\u0020")


def value(rng, t, depth=2):
    if t == "STRING":
        return valgen.V(t, 0, rng.choice(STRINGS))
    if t == "CHAR":
        return valgen.V(t, 4 * rng.choice([32, 39, 34, 44, 48, 91, 93, 97, 122, rng.randint(33, 126)]))
    if t == "LIST":
        return valgen.V(t, l=[value(rng, rng.choice([x for x in TYPES if x not in NOT_IN_LISTS and (depth or x != "LIST")]), depth - 1)
                              for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5]))] if rng.random() < .6 else
                        [valgen.V("FLOAT", rng.choice([0, 0, 4, 6, -2])) if rng.random() < .85 else value(rng, rng.choice(["INT", "STRING", "CHAR", "BOOL"]), 0)
                         for _ in range(rng.choice([2, 3, 4]))])
    if t[:3] == "VEC":
        return valgen.V(t, l=[valgen.V("FLOAT", rng.choice([0, 4, rng.randint(-40, 40)])) for _ in range(int(t[3]))])
    return valgen.value(rng, depth, t)


def up(i):
    return NODES[i - 1][0]


def below(n, i):
    while i:
        i = up(i)
        if i == n: return True
    return False


def gen(rng, n):
    b, tree, par = [ALL], {}, {}
    docs = rng.random() < .5      # names without instances
    leaves = rng.random() < .5    # only leaves have a parameter
    us = [i for i in range(1, len(NODES) + 1) if not docs or not any("." in NODES[j - 1][1] for j in range(1, len(NODES) + 1) if j == i or below(j, i))]
    slots, jss = {}, set()
    while len(b) < n:
        x = rng.random()
        at = lambda: rng.choice([0, 0, 0] + sorted(tree))
        if x < .2 or not par:
            i = rng.choice(us)
            if i in par or (leaves and rng.random() < .9 and any(below(i, j) for j in us)): continue
            t = rng.choice(TYPES); b.append("new %d %s" % (i, t)); par[i] = t
            if t == "CHAR": b.append("set %d %s" % (i, tok(value(rng, t))))
            while i: tree[i] = 1; i = up(i)
        elif x < .48:
            i = rng.choice(sorted(par)); b.append("set %d %s" % (i, tok(value(rng, par[i] if rng.random() < .9 or par[i] in ("CHAR", "STRING") else rng.choice(["INT", "FLOAT", "BOOL"])))))
        elif x < .51:
            i = rng.choice(sorted(tree)); b.append("drop %d" % i)
            for j in list(tree):
                if j == i or below(i, j): tree.pop(j); par.pop(j, 0)
        elif x < .54: b.append("access %d %s" % (rng.choice(sorted(par)), rng.choice(["BI", "GET", "SET"])))
        elif x < .57: b.append("safe %d %d" % (rng.choice(sorted(tree)), rng.random() < .6))
        elif x < .61: b.append("prio %d %d" % (rng.choice(sorted(tree)), rng.randint(-1, 3)))
        elif x < .67: k, i = rng.randint(1, 2), at(); b.append("make %d %d" % (k, i)); slots[k] = i
        elif x < .72: k, i = rng.randint(1, 2), at(); b.append("makejson %d %d" % (k, i)); jss.add(k)
        elif x < .80 and jss: b.append("applyjson %d %d" % (rng.choice(sorted(jss)), at()))
        elif x < .81 and jss: b.append("badjson %d %d" % (rng.choice(sorted(jss)), rng.randint(0, 99)))
        elif slots:
            k = rng.choice(sorted(slots))
            if x < .85: b.append("text %d" % k)
            elif x < .88:
                if docs: b.append("doc %d %d" % (k, rng.random() < .5))
            elif x < .94: b.append("applytext %d %d" % (k, at()))
            elif slots[k] == 0:
                mk = rng.random() < .5
                b.append("%s %d %d" % (rng.choice(["applymem", "applyleaf"]), k, mk))
                if mk:
                    b += ["make 1 0"]; slots[1] = 0
                    return b  # the tree may be another one now
    return b


def run(c):
    sc = c.mc("PresetMC", "PresetMC.cfg" if c.quick else "PresetMCdeep.cfg", workers=8)
    mc = [[MC] + vp.cmds(s) for s in sc]
    if len(mc) > 40000: mc = c.rng.sample(mc, 40000)
    behs = [gen(c.rng, c.rng.choice([15, 30, 60])) for _ in range(1500 if c.quick else 30000)]
    exe = c.build("preset.cpp", UNITS, lazy=True)
    c.validate("PresetTrace", c.run_parallel(exe, behs), exe=exe)
    c.validate("PresetTrace", c.run_parallel(exe, mc, tag="m"), cfg="PresetTraceMC.cfg", tag="m", exe=exe)
    c.samples(behs + mc)


vp.main("R01", run)
