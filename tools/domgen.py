"""Random domains in the encoding of spec/Domain.tla."""
import valgen
from valgen import V
MODES = ["FREE", "CLIP", "WRAP", "FOLD", "LOW", "HIGH"]
NONE = V("NONE")


def num(rng, t):
    if t == "INT":
        return V(t, 4 * rng.randint(-30, 30))
    if t == "CHAR":
        return V(t, 4 * rng.randint(48, 91))
    return V(t, rng.randint(-120, 120))


def bounds(rng, t):
    a, b = num(rng, t), num(rng, t)
    if a["q"] > b["q"]:
        a, b = b, a
    k = rng.random()
    if k < .15:
        a = NONE
    elif k < .3:
        b = NONE
    elif k < .35:
        a = b = NONE
    elif k < .4:
        b = a
    return a, b


def domain(rng, t=None):
    """(kind, min, max, values)"""
    t = t or rng.choice(["INT", "FLOAT", "CHAR", "INT", "FLOAT", "BOOL", "STRING", "IMPULSE", "LIST", "VEC2F", "VEC3F", "VEC4F", "ANY", "NONE"])
    if t in ("INT", "FLOAT", "CHAR"):
        a, b = bounds(rng, t)
        vs = [num(rng, t) for _ in range(rng.randint(1, 4))] if rng.random() < .2 else []
        return t, a, b, V("LIST", l=vs)
    if t == "BOOL":
        return t, V("BOOL"), V("BOOL", 4), V("LIST")
    if t == "IMPULSE":
        return t, V(t), V(t), V("LIST")
    if t == "STRING":
        return t, NONE, NONE, V("LIST", l=[V(t, 0, s) for s in rng.sample(valgen.STRINGS, rng.randint(0, 4))])
    if t == "NONE":
        return t, NONE, NONE, V("LIST")
    if t == "ANY":
        a, b = bounds(rng, rng.choice(["INT", "FLOAT", "CHAR"]))
        vs = [valgen.value(rng, 0, rng.choice(["INT", "FLOAT", "STRING"])) for _ in range(3)] if rng.random() < .3 else []
        return t, a, b, V("LIST", l=vs)
    n = int(t[3]) if t != "LIST" else rng.randint(0, 3)
    mn, mx, vs = [], [], []
    for _ in range(n):
        ct = "FLOAT" if t != "LIST" else rng.choice(["INT", "FLOAT"])
        a, b = bounds(rng, ct)
        mn.append(a)
        mx.append(b)
        vs.append(V("LIST", l=[num(rng, ct) for _ in range(rng.randint(1, 3))] if rng.random() < .15 else []))
    if t == "LIST":
        if rng.random() < .2 and mn:
            mn.pop()
        if rng.random() < .2 and mx:
            mx.pop()
        if rng.random() < .6:
            vs = []
    return t, V("LIST", l=mn), V("LIST", l=mx), V("LIST", l=vs)


def value_for(rng, dom):
    t = dom[0]
    k = rng.random()
    if t in ("INT", "FLOAT", "CHAR", "ANY") and k < .7:
        if dom[3]["l"] and rng.random() < .5:
            return rng.choice(dom[3]["l"])
        v = num(rng, rng.choice(["INT", "FLOAT"]) if t == "ANY" else t)
        if rng.random() < .25:
            m = rng.choice([dom[1], dom[2]])
            if m["t"] == v["t"]:
                v["q"] = m["q"] + rng.choice([0, 0, 4, -4])
        elif t != "CHAR" and rng.random() < .3:
            v["q"] *= 8
        return v
    if t == "LIST" and k < .8:
        return V("LIST", l=[num(rng, rng.choice(["INT", "FLOAT"])) for _ in range(rng.randint(0, 4))])
    if t[:3] == "VEC" and k < .8:
        return valgen.value(rng, 0, t)
    return valgen.value(rng, 1)
