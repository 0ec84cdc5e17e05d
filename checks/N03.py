#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp
from tree_common import UNITS, enc


def C(x): return {"t": "c", "x": x}
def toks(s): return [C(x) for x in s]


NAMES = ["a", "ab", "abc", "a.1", "a.2", "a.12", "ab1", "a_1", "b", "b.1", "b2", "foo", "foo.1", "foo.bar", "foo-1", "a=b", "a:b", "(a)",
         "a(1)", "bar", "baz", "~", "A", "Ab", "x.y.z", "x.y", "10", "-1"]


def cls(rng, alnum=False):
    if rng.random() < .5:
        a, b = sorted(rng.sample("abcdefxyz" if rng.random() < .6 else "0123456789", 2))
        return {"t": "cls", "w": a + "-" + b, "x": "".join(chr(i) for i in range(ord(a), ord(b) + 1))}
    s = "".join(sorted(rng.sample("abcfoxyz0123AB", rng.randint(1, 4))))
    return {"t": "cls", "w": s, "x": s}


def rngtok(rng):
    a, b = rng.randint(-3, 12), rng.randint(-3, 12)
    by = rng.choice([1, 1, 1, 2, 3, 5, -1, -2])
    return {"t": "rng", "lo": a, "hi": b, "by": by}


def part(rng, create=False, depth=0):
    base = rng.choice(NAMES)
    p = toks(base)
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randint(0, len(p))
        k = rng.random()
        if create:
            t = cls(rng) if k < .3 else rngtok(rng) if k < .55 else alt(rng, True, depth)
        else:
            t = ({"t": "star"} if k < .3 else {"t": "any"} if k < .5 else cls(rng) if k < .65 else
                 {"t": "inst"} if k < .78 else alt(rng, False, depth) if k < .9 else rngtok(rng))
        cut = rng.choice([0, 0, 1, 1, 2])
        p = p[:i] + [t] + p[i + cut:]
    return p


def alt(rng, create, depth):
    n = rng.randint(2, 3)
    o = []
    for _ in range(n):
        if depth < 1 and rng.random() < .3:
            o.append(part(rng, create, depth + 1))
        else:
            o.append(toks(rng.choice(NAMES)) if rng.random() < .7 else [])
    if not any(o):
        o[0] = toks("a")
    return {"t": "alt", "o": o}


def render(p):
    def rt(k):
        t = k["t"]
        if t == "c": return k["x"]
        if t == "cls": return "[" + k["w"] + "]"
        if t == "alt": return "{" + ",".join(rp(o) for o in k["o"]) + "}"
        if t == "rng": return "{%d..%d%s}" % (k["lo"], k["hi"], "" if k["by"] == 1 else "..%d" % k["by"])
        return {"any": "?", "star": "*", "inst": "!", "up": ".."}[t]
    rp = lambda ts: "".join(map(rt, ts))
    return (rp(p["dev"]) + ":" if p["dev"] else "") + ("//" if p["deep"] else "/" if p["abs"] else "") + "/".join(map(rp, p["parts"]))


def mayempty(ts):
    return all(t["t"] in ("any", "star", "inst") or (t["t"] == "alt" and any(mayempty(o) for o in t["o"])) for t in ts)


def special(p):
    return any(c in render(p) for c in "?*[]{}!")


def pattern(rng, create=False):
    while True:
        n = rng.choice([1, 1, 2, 2, 3])
        parts = []
        for _ in range(n):
            k = rng.random()
            if not create and k < .12: parts.append([{"t": "up"}])
            elif k < .3: parts.append(toks(rng.choice(NAMES)))
            else: parts.append(part(rng, create))
        p = {"dev": [], "deep": not create and rng.random() < .3, "abs": True, "parts": parts}
        if not p["deep"] and rng.random() < .3:
            p["abs"] = False
        if not create and rng.random() < .12:
            p["abs"] = True
            p["dev"] = rng.choice([toks("dev"), toks("d") + [{"t": "star"}], toks("de") + [cls(rng)], [{"t": "star"}], toks("other")])
        if any(mayempty(x) for x in parts) and create:
            continue
        if any(not x for x in parts):
            continue
        # written forms that would read as something else
        if any(render({"dev": [], "deep": False, "abs": False, "parts": [x]}) == ".." for x in parts if x[0]["t"] != "up"):
            continue
        if not p["abs"] and ":" in render({"dev": [], "deep": False, "abs": False, "parts": parts[:1]}):
            continue
        if create and not special(p):
            continue
        return p


def J(x):
    return json.dumps(x, separators=(",", ":"))


def gen(rng):
    pool = rng.sample(NAMES, rng.randint(3, 7))
    b = []
    for _ in range(rng.randint(2, 12)):
        b.append("fnode @%d %s" % (rng.choice([0, 0, rng.randint(0, 9)]), J([enc(rng.choice(pool)) for _ in range(rng.choice([1, 1, 2, 3]))])))
    for _ in range(rng.randint(5, 20)):
        if rng.random() < .2:
            p = pattern(rng, True)
            if n_exp(p) > 40:
                continue
            b.append("cnodes @%d %s %s" % (rng.choice([0, 0, rng.randint(0, 9)]), enc(render(p)), J(p)))
        else:
            p = pattern(rng)
            b.append("pat @%d %s %s" % (rng.choice([0, 0, 0, rng.randint(0, 9)]), enc(render(p)), J(p)))
    return b


def n_exp(p):
    def nt(k):
        if k["t"] == "cls": return len(k["x"])
        if k["t"] == "alt": return sum(np(o) for o in k["o"])
        if k["t"] == "rng": return abs(k["hi"] - k["lo"]) // abs(k["by"]) + 1
        return 1
    def np(ts):
        r = 1
        for t in ts: r *= nt(t)
        return r
    r = 1
    for x in p["parts"]: r *= np(x)
    return r


def run(c):
    sc = c.mc("PatternMC", "PatternMC.cfg" if c.quick else "PatternMCdeep.cfg", workers=8, heap="8g")
    trees = {}
    for s in sc:
        mk, pat, ast = json.loads(s)
        key = J(mk)
        trees.setdefault(key, []).append("pat @0 %s %s" % (enc(pat), J(ast)))
    behs = []
    for mk, pats in sorted(trees.items()):
        pre = ["cnode [] " + J([enc(x) for x in m[2]]) for m in json.loads(mk)]
        for i in range(0, len(pats), 50):
            behs.append(pre + pats[i:i + 50])
    behs += [gen(c.rng) for _ in range(600 if c.quick else 25000)]
    exe = c.build("tree.cpp", UNITS)
    runs = c.run_parallel(exe, behs)
    c.validate("PatternTrace", runs, exe=exe)
    c.samples(behs)


vp.main("N03", run)
