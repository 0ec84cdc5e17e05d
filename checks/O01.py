#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen, domgen
from valgen import V

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/path network/common/extended_types network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/domain/clamp network/domain/clamp_max network/domain/clamp_min network/domain/detail/domain_impl network/domain/domain_base network/domain/fold network/domain/wrap network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/osc/detail/osc_messages network/osc/osc network/value/value network/zeroconf/zeroconf""".split()
KINDS = ["old", "10c", "10s", "11c", "11s", "exc", "exs"]
PATHS = ["/a", "/a/x", "/a/y", "/a/xy", "/b/x", "/b/y", "/c", "/b/long.name", "/d/e/f"]
PATTERNS = ["/a/*", "/*/x", "/a/?", "/[ab]/x", "/a/{x,y}", "/*/*", "/a/x*", "/{a,c}", "/b/[xyz]", "/z/*", "/a/?y", "/*/{y,nope}", "/*", "/d/*/f", "/*/*/*"]
UNKNOWN = ["/q", "/a/q", "/a/x/y", "/b", "/aa/x", "/d/e/f/g", "/A/x"]
FREE = ["/e/n1", "/e/n2", "/n3", "/a/n4", "/a/x/n5", "/e/g/n6"]
TYPES = ["INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]


def none_in(v):
    return v["t"] == "NONE" or any(none_in(x) for x in v["l"])


def value(rng, t, depth=2):
    while True:
        v = valgen.value(rng, depth, t)
        if t == "LIST" and (none_in(v) or not v["l"]):
            continue
        return v


def arg(rng, arrays=True):
    g = rng.choice("iiifffssTFIcchdtSbrN" + ("[" if arrays else ""))
    if g == "[":
        r = [("[", V("NONE"))]
        for _ in range(rng.randint(0, 3)):
            r += arg(rng, rng.random() < .3)
        return r + [("]", V("NONE"))]
    if g in "ih": v = V("INT", 4 * rng.choice([0, 1, -1, rng.randint(-60, 60), rng.randint(-100000, 100000)]))
    elif g == "t": v = V("INT", 4 * rng.choice([0, 1, rng.randint(0, 60)]))
    elif g in "fd": v = V("FLOAT", rng.choice([0, 2, 4, -4, rng.randint(-240, 240), rng.randint(-40000, 40000)]))
    elif g == "c": v = valgen.value(rng, 0, "CHAR")
    elif g in "sSb": v = valgen.value(rng, 0, "STRING")
    elif g == "r": v = V("VEC4F", l=[V("FLOAT", 4 * rng.choice([0, 1, 7, 127, 128, 255])) for _ in range(4)])
    else: v = V("NONE")
    return [(g, v)]


def args(rng, t=None):
    """arguments for a parameter of the type t, mostly suitable ones"""
    if t in ("VEC2F", "VEC3F", "VEC4F"):
        n = int(t[3])
        if t == "VEC4F" and rng.random() < .3:
            return [("r", V("VEC4F", l=[V("FLOAT", 4 * rng.choice([0, 3, 200, 255])) for _ in range(4)]))]
        n = n if rng.random() < .8 else rng.choice([0, 1, n - 1, n + 1])
        return [x for _ in range(n) for x in arg(rng, False) if x[0] != "r"] if n > 1 else [x for _ in range(n) for x in arg(rng, False)]
    if t == "CHAR":
        while True:
            a = arg(rng, False)
            if a[0][0] in "cTFsSNI" or (a[0][0] in "ihfdt" and 160 <= a[0][1]["q"] <= 480):
                return a
    if t is None or t == "LIST":
        return [x for _ in range(rng.choice([0, 1, 1, 2, 3, 4])) for x in arg(rng)]
    if rng.random() < .1:
        return []
    return [x for _ in range(rng.choice([1, 1, 1, 2])) for x in arg(rng, False)]


def show(a):
    return " ".join("%s %s" % (g, vp.tok(v)) for g, v in a)


def gen(rng, n):
    k = rng.choice(KINDS)
    b = ["cfg %s%s" % (k, " echo" if rng.random() < .3 else "")]
    s, r, blob, listed, get, rgba = {}, {}, set(), {}, set(), set()
    learn = ever = False
    free = list(FREE)
    for p in rng.sample(PATHS, rng.randint(2, 6)):
        t = rng.choice(TYPES)
        s[p] = t; b.append("new s %s %s" % (p, t))
        if rng.random() < .9:
            r[p] = t if rng.random() < .8 else rng.choice(TYPES)
            b.append("new r %s %s" % (p, r[p]))
        if t == "VEC4F" and rng.random() < .4:
            b.append("attr s %s unit color.rgba8" % p); rgba.add(p)
            if r.get(p) == "VEC4F": b.append("attr r %s unit color.rgba8" % p)
        if t == "STRING" and rng.random() < .3:
            b.append("attr s %s blob 1" % p)
        if p in r and rng.random() < .5:
            b.append("listen %s 1" % p)
    ok = lambda p, v: not (r.get(p) == "CHAR" and v["t"] not in ("CHAR", "BOOL", "IMPULSE"))
    for _ in range(n):
        x = rng.random()
        p = rng.choice(list(s))
        t = s[p]
        v = value(rng, t) if rng.random() < .85 or t == "CHAR" else valgen.value(rng, 1)
        if v["t"] != t and (none_in(v) or v["t"] == "LIST" and t == "LIST"): v = value(rng, t)
        if p in rgba: v = V("VEC4F", l=[V("FLOAT", 4 * rng.choice([0, 1, 100, 128, 254, 255])) for _ in range(4)])
        # numbers that do not fit a char are not specified
        if r.get(p) == "CHAR" and t != "CHAR": x = .45 + x / 2
        if x < .33: b.append("%s %s %s" % (rng.choice(["push", "pushr"]), p, vp.tok(v)))
        elif x < .36: b.append("pushcur %s" % p)
        elif x < .40: b.append("raw %s %s %s" % (p, vp.tok(value(rng, t) if p not in rgba else v), vp.tok(value(rng, t) if p not in rgba else v)))
        elif x < .45:
            ps = [q for q in rng.sample(list(s), rng.randint(1, len(s))) if not (k == "old" and q in get) and not (r.get(q) == "CHAR" and s[q] != "CHAR") and not (q in rgba)]
            if rng.random() < .2 and ps: ps.append(ps[0])
            if rng.random() < .5: b.append("bundle " + " ".join(ps))
            else: b.append("rawbundle " + " ".join("%s %s" % (q, vp.tok(value(rng, s[q]))) for q in ps))
        elif x < .70:
            def one():
                y = rng.random()
                if y < .6 and r:
                    q = rng.choice(list(r)); return "%s %s" % (q, show(args(rng, r[q])))
                if y < .85 and not learn:
                    # (of a type every parameter can take)
                    pat = rng.choice(PATTERNS)
                    return "%s %s" % (pat, show(args(rng, "CHAR") if "CHAR" in r.values() else [a for a in args(rng, "INT")]))
                if learn and free:
                    # the address is a parameter from now on (of the type of what it received)
                    return "%s %s" % (free.pop(), show(args(rng)))
                if learn: return "%s %s" % (rng.choice(list(r) or ["/zz"]), show(args(rng, "CHAR")))
                return "%s %s" % (rng.choice(UNKNOWN), show(args(rng)))
            if rng.random() < .7: b.append(("msg " + one()).strip())
            else: b.append("%s %s" % (rng.choice(["msgs", "nested"]), " / ".join(one().strip() for _ in range(rng.randint(1, 4)))))
        elif x < .76:
            kind = rng.choice(["cut", "odd", "tag", "nocomma", "noend", "element", "tail", "header", "inner", "array", "empty"])
            b.append("bad %s %s i %s" % (kind, rng.choice(list(r) or ["/q"]), vp.tok(V("INT", 4 * rng.randint(1, 99)))))
        elif x < .82:
            d, q = rng.choice([("s", p)] + ([("r", rng.choice(list(r)))] if r else []))
            tt = (s if d == "s" else r)[q]
            f = rng.choice(["dom", "dom", "bm", "bm"] + (["acc", "rep", "dis", "mut"] if d == "s" else []))
            if f == "dom" and tt in ("INT", "FLOAT", "VEC2F", "VEC3F", "VEC4F", "STRING"):
                D = domgen.domain(rng, tt)
                b.append("attr %s %s dom %s" % (d, q, " ".join(vp.tok(y) for y in D)))
            elif f == "bm": b.append("attr %s %s bm %s" % (d, q, rng.choice(domgen.MODES)))
            elif f == "acc": get.add(q); b.append("attr %s %s acc %s" % (d, q, rng.choice(["BI", "GET", "SET"])))
            elif f in ("rep", "dis", "mut"): b.append("attr %s %s %s %d" % (d, q, f, rng.randint(0, 1)))
        elif x < .88 and r:
            q = rng.choice(list(r)); b.append("listen %s %d" % (q, rng.randint(0, 1)))
        elif x < .91 and r:
            q = rng.choice(list(r)); under = [y for y in r if y == q or y.startswith(q + "/")]
            if rng.random() < .5:
                b.append("drop %s" % q)
                for y in under: del r[y]
            else:
                b.append("droppar %s" % q); del r[q]
        elif x < .94 and r:
            q = rng.choice(list(r)); m = "ren%d" % len(b); new = q.rsplit("/", 1)[0] + "/" + m
            b.append("rename %s %s" % (q, m))
            for y in [y for y in r if y == q or y.startswith(q + "/")]: r[new + y[len(q):]] = r.pop(y)
        elif x < .96 and not p in r and not ever:
            # (not on a path which may have been learnt)
            r[p] = t; b.append("new r %s %s" % (p, t))
        elif x < .98: learn = not learn; ever = True; b.append("learn %d" % learn)
        else:
            q = [y for y in s if s[y] == r.get(y) and s[y] in ("STRING", "LIST")]
    return b


def big(rng):
    b = ["cfg %s" % rng.choice(KINDS), "new s /t STRING", "new r /t STRING", "new s /l LIST", "new r /l LIST"]
    old = "old" in b[0]
    for _ in range(4):
        k = rng.choice(["text", "ints", "texts"])
        if k == "text": b.append("big text /t %d" % (rng.choice([0, 3, 4, 1000, 1020, 16300, 16383, 16384, 20000, 40000, 60000, 65000]) + rng.randint(0, 5)))
        elif k == "ints": b.append("big ints /l %d" % rng.choice([1, 100, 204, 2000, 5000, 6500, 7000, 10000, 12000, 13000]))
        else: b.append("big texts /l %d" % rng.choice([1, 100, 150, 1000, 3000, 4000, 6000]))
        if rng.random() < .5: b.append("bundle /t /l")
    return b


def run(c):
    sc = c.mc("OscMC", "OscMC.cfg" if c.quick else "OscMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    n = 5000 if c.quick else 60000
    if len(behs) > n:
        behs = c.rng.sample(behs, n)
    behs += [gen(c.rng, c.rng.choice([8, 20, 40])) for _ in range(700 if c.quick else 15000)]
    behs += [big(c.rng) for _ in range(28 if c.quick else 400)]
    exe = c.build("osc.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("OscTrace", runs, exe=exe)
    c.samples(behs)


vp.main("O01", run)
