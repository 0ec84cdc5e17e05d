"""Random values in the encoding of spec/Value.tla."""
TYPES = ["INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]
STRINGS = ["", "0", "1", "3", "-7", "2.5", "12ab", "ab", "abc", "b", "true", "false", "+4", "-", "0.25", "A", "hello", "-3.75", "99"]


def V(t, q=0, s="", l=()):
    return dict(l=list(l), q=q, s=s, t=t)


def value(rng, depth=2, t=None):
    t = t or rng.choice(TYPES + ["INT", "FLOAT", "LIST"] + (["NONE"] if rng.random() < .3 else []))
    if t == "INT":
        return V(t, 4 * rng.choice([0, 1, -1, 2, 3, rng.randint(-127, 127), rng.randint(-100000, 100000)]))
    if t == "FLOAT":
        return V(t, rng.choice([0, 1, 4, -4, rng.randint(-500, 500), rng.randint(-4000000, 4000000)]))
    if t == "BOOL":
        return V(t, 4 * rng.randint(0, 1))
    if t == "CHAR":
        return V(t, 4 * rng.choice([rng.randint(48, 91), rng.randint(93, 122)]))
    if t == "STRING":
        return V(t, 0, rng.choice(STRINGS))
    if t == "LIST":
        if depth == 0:
            return V(t)
        return V(t, l=[value(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))])
    if t[:3] == "VEC":
        return V(t, l=[V("FLOAT", rng.randint(-40, 40)) for _ in range(int(t[3]))])
    return V(t)


def near(rng, x):
    """a value close to x: same, wrapped in a list, or one element changed"""
    k = rng.random()
    if k < .3:
        return x
    if k < .5:
        return V("LIST", l=[x])
    if x["l"]:
        l = [near(rng, e) if rng.random() < .5 else e for e in x["l"]]
        if x["t"] == "LIST" and rng.random() < .3:
            l.append(V("INT", 4))
        if x["t"] != "LIST":
            l = [e if e["t"] == "FLOAT" else V("FLOAT", 4) for e in l]
        return dict(x, l=l)
    if x["t"] in ("INT", "FLOAT"):
        return V(rng.choice(["INT", "FLOAT"]), x["q"] + 4 if x["q"] % 4 == 0 else x["q"] - x["q"] % 4)
    return x
