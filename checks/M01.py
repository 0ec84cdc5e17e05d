#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node network/base/node_attributes
 network/base/osc_address network/base/parameter network/base/protocol network/common/complex_type network/common/extended_types
 network/dataspace/dataspace_visitors network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device
 network/generic/generic_node network/generic/generic_parameter network/value/value editor/state/state editor/state/message
 editor/state/state_element""".split()
V = valgen.V
NONE = V("NONE")


def js(v): return json.dumps(v, separators=(",", ":"))
def num(rng): return V("INT", 4 * rng.randint(-9, 9))
def flt(rng): return V("FLOAT", rng.randint(-9, 20))
def vec(rng, n): return V("VEC%dF" % n, l=[flt(rng) for _ in range(n)])


def single(rng, p): return {1: num, 2: flt, 3: lambda r: V("STRING", 0, r.choice(["", "a", "bc"]))}[p](rng)


def lst(rng):
    # the second element, if any, is a list (as in the parameter)
    n = rng.choice([1, 2, 3, 4])
    return V("LIST", l=[V("LIST", l=[num(rng), num(rng)]) if i == 1 else num(rng) for i in range(n)])


def holes(rng, l): return V("LIST", l=[NONE if rng.random() < .4 else x for x in l["l"]])


def element(rng, focus, depth=2):
    if depth and rng.random() < .08:
        n = rng.randint(0, 3)
        return " ".join(["st %d" % n] + [element(rng, focus, depth - 1) for _ in range(n)])
    p = focus if rng.random() < .7 else rng.randint(1, 6)
    r = rng.random()
    if p <= 3:
        if p == 3 or r < .4: return "msg %d 0 %s" % (p, js(single(rng, p)))
        if r < .75: return "msg %d 1 %d %s" % (p, rng.choice([0, 0, 1, 2]), js(single(rng, p)))
        return "pw %d %s" % (p, js(V("LIST", l=[NONE if rng.random() < .3 else single(rng, p) for _ in range(rng.randint(1, 3))])))
    if p == 4:
        if r < .3: return "msg 4 0 %s" % js(lst(rng))
        if r < .55: return "msg 4 1 %d %s" % (rng.choice([0, 2, 3, 4]), js(num(rng)))
        if r < .75: return "msg 4 2 1 %d %s" % (rng.randint(0, 2), js(num(rng)))
        return "pw 4 %s" % js(holes(rng, lst(rng)))
    n = p - 3
    if r < .25: return "msg %d 0 %s" % (p, js(vec(rng, n)))
    if r < .55: return "msg %d 1 %d %s" % (p, rng.randint(0, n - (rng.random() < .8)), js(flt(rng)))
    if r < .75: return "msg %d 1 %d %s" % (p, rng.randint(0, n - (rng.random() < .8)), js(vec(rng, n)))
    return "vec %d %s %s" % (p, " ".join(str(rng.randint(0, 1)) for _ in range(n)), js(vec(rng, n)))


def gen(rng, n):
    focus = rng.randint(1, 6)
    mode = {s: rng.choice(["raw", "merge", "filter", "mixed"]) for s in (1, 2, 3)}
    b, els = [], {1: [], 2: [], 3: []}
    size = {1: 0, 2: 0, 3: 0}
    for _ in range(n):
        s, r = rng.randint(1, 3), rng.random()
        m = mode[s]
        if r < .5:
            e = element(rng, focus)
            op = m if m in ("merge", "filter") else "add" if m == "raw" else rng.choice(["add", "merge", "filter"])
            # merging over nested states is a different thing (it does not look into them)
            if m == "mixed": e = element(rng, focus, 0)
            if m == "raw" and els[s] and rng.random() < .2: e = rng.choice(els[s])
            size[s] += 3
            if op == "add": b.append("add %d %s" % (s, e)); els[s].append(e)
            else: b.append("%s %d %s %s" % (op, s, rng.choice("cm"), e))
        elif r < .57 and m == "raw": e = rng.choice(els[s]) if els[s] and rng.random() < .8 else element(rng, focus, 1); b.append("remove %d %s" % (s, e))
        elif r < .64:
            t = rng.choice([x for x in (1, 2, 3) if x != s])
            if size[s] + size[t] > 60: continue
            if m in ("merge", "filter") or mode[t] == m: size[s] += size[t]
            if m in ("merge", "filter"):
                mv = rng.choice("cm")
                b.append("%sst %d %d %s" % (m, s, t, mv))
                if mv == "m": els[t] = []; size[t] = 0
            elif m == "raw" and mode[t] == "raw": b.append("addst %d %d" % (s, t))
        elif r < .67:
            t = rng.choice([x for x in (1, 2, 3) if x != s])
            if mode[t] == m: b.append("copy %d %d" % (s, t)); els[s] = list(els[t]); size[s] = size[t]
        elif r < .7: b.append("equal %d %d" % (s, rng.choice([x for x in (1, 2, 3) if x != s])))
        elif r < .72: b.append("clear %d" % s); els[s] = []; size[s] = 0
        elif r < .77:
            p = rng.randint(1, 6)
            b.append("set %d %s" % (p, js(lst(rng) if p == 4 else single(rng, p) if p < 4 else vec(rng, p - 3))))
        else: b.append("launch %d" % s)
    return b


def run(c):
    sc = [vp.cmds(s) for s in c.mc("StateMergeMC", "StateMergeMC.cfg" if c.quick else "StateMergeMCdeep.cfg", workers=8, timeout=3000)]
    behs = c.rng.sample(sc, min(len(sc), 6000 if c.quick else 60000))
    # every one ends in two launches of the state, over other values
    behs = [b + ["launch 2", "launch 1", "launch 1"] for b in behs]
    behs += [gen(c.rng, c.rng.choice([10, 30, 60])) for _ in range(3000 if c.quick else 50000)]
    exe = c.build("statemerge.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("StateMergeTrace", runs, exe=exe)
    c.samples(behs)


if __name__ == "__main__":
    vp.main("M01", run)
