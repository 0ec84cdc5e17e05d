import graph_common as g
UNITS = g.UNITS + ["network/base/node_functions", "network/common/path"]
POL = ["plain", "plain", "merged", "ordered", "priorized"]


def val(rng, p, small=False):
    r = lambda: rng.randint(1, 3 if small else 99)
    return "%d/%d/%d" % (r(), r(), r()) if p == 4 else str(r())


def samples(rng, full=False):
    ch = lambda n: "/".join(str(rng.randint(-9, 9)) for _ in range(n))
    if full: return ch(4) + "," + ch(4)
    return ",".join(rng.choice([ch(4), ch(4), ch(2), "_"]) for _ in range(rng.choice([1, 2, 2, 3]))) or "-"


def insertion(rng, b, ts):
    p = rng.choice([1, 1, 2, 3, 4, 4, 5, 6])
    small = rng.random() < .3
    def mess():
        i = rng.choice([0, 0, 1, 2, 3]) if p == 4 else 0
        return (str(rng.randint(1, 3 if small else 99)) if i else val(rng, p, small)), i
    t = lambda: rng.randint(0, ts)
    k = rng.random()
    if k < .45:
        v, i = mess()
        b.append("tv %d %s %d %d %d" % (p, v, i, t(), rng.random() < .5))
    elif k < .8:
        i = rng.choice([0, 0, 1, 2, 3]) if p == 4 else 0
        rep = 0 if i else rng.random() < .4
        vs = ",".join("%s:%d" % (str(rng.randint(1, 9)) if i else val(rng, p, small), t()) for _ in range(rng.choice([0, 1, 2, 3])))
        b.append("port %d %s %d %d %d" % (p, vs or "-", i, rep, rng.random() < .5))
    else:
        ms = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            p = rng.randint(1, 6)
            v, i = mess()
            ms.append("%d:%s:%d" % (p, v, i))
        b.append("state %s %d" % (",".join(ms), rng.random() < .5))


def gen(rng, n, recv):
    """Ticks with insertions, readings and a commit; with registrations too when recv."""
    b = []
    T = ["1", "2", "4", "5", "6", "/[ab]/", "/[ae]/", "/[abc]/", "/[bev]/"]
    T = [t[:-1] if t[0] == "/" else t for t in T]
    for i in range(1, 6):
        b.append("inlet %d %s %d %d" % (i, rng.choice(T), rng.choice([1, 2, 3, 3, 3]) if not recv else rng.choice([2, 3]), rng.random() < (.9 if recv else .2)))
    known = {1: False, 2: False}
    for d in (1, 2):
        if rng.random() < .85: b.append("dev %d 1" % d); known[d] = True
    b.append("begin")
    reg = set()
    ts = rng.choice([0, 2, 9])
    for _ in range(n):
        r = rng.random()
        if recv:
            if r < .18:
                i = rng.randint(1, 5)
                if i in reg and rng.random() < .7: b.append("unreg %d" % i); reg.discard(i)
                else: b.append("reg %d" % i); reg.add(i)
            elif r < .48:
                p = rng.choice([1, 1, 1, 2, 3, 4, 5, 6])
                b.append("in %d %s" % (p, val(rng, p)))
            elif r < .62: b.append("begin")
            elif r < .64:
                d = rng.choice([1, 2]); known[d] = not known[d]; b.append("dev %d %d" % (d, known[d]))
            elif r < .72: insertion(rng, b, ts)
            elif r < .78: b.append("commit " + rng.choice(POL))
            elif r < .80: b.append("out %s %s:0 %d" % (rng.choice(["1", "2", "5"]), rng.randint(1, 99), rng.choice([1, 2, 3])))
            else: b.append("read %d" % rng.randint(1, 5))
            continue
        if r < .5: insertion(rng, b, ts)
        elif r < .56: b.append("audio %d %s" % (rng.randint(1, 2), samples(rng)))
        elif r < .58: b.append("aset %d %s" % (rng.randint(1, 2), samples(rng, True)))
        elif r < .62: b.append("aread %d %d" % (rng.randint(1, 2), rng.choice([1, 2, 3, 3])))
        elif r < .66: b.append("out %s %s %d" % (rng.choice(["1", "2", "5", "/[ab]", "/[ae]", "/[ef]"]), ",".join("%d:%d" % (rng.randint(1, 99), rng.randint(0, ts)) for _ in range(rng.choice([0, 1, 2]))) or "-", rng.choice([0, 1, 2, 3, 3])))
        elif r < .72: b.append("read %d" % rng.randint(1, 5))
        elif r < .75: b.append("scope %d" % rng.randint(1, 6))
        elif r < .79: b.append("prio %d %d" % (rng.randint(1, 6), rng.choice([-10, 3, 4, 6, 10, 14])))
        elif r < .83:
            p = rng.randint(1, 6); b.append("in %d %s" % (p, val(rng, p)))
        elif r < .84: b.append("begin")
        elif r < .85:
            d = rng.choice([1, 2]); known[d] = not known[d]; b.append("dev %d %d" % (d, known[d]))
        else:
            b.append("commit " + rng.choice(POL))
            if rng.random() < .7: b.append("begin")
    return b
