#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, json
from scenario_common import UNITS


def J(x):
    return json.dumps(x, separators=(",", ":"))


def sigs(rng):
    if rng.random() < .08: return []
    d, m = (0 if rng.random() < .85 else rng.randint(1, 40)), []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        m.append([d, rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12]), rng.choice([1, 2, 4, 4, 8, 16])])
        d += rng.choice([1, rng.randint(1, 30), rng.randint(20, 400)])
    return m


def curve(rng):
    d, y, c = 0, rng.choice([2, 4, 8, 8, 10, 16, 32]), []
    c.append([0, y])
    for _ in range(rng.choice([0, 1, 2, 4])):
        n = rng.choice([1, 2, 4, 8, 16])
        d += n
        y = max(0, y + n * rng.choice([-1, 0, 1, 2]))
        y = min(y, 64)
        if (y - c[-1][1]) % n: y = c[-1][1]
        c.append([d, y])
    return c


def level(rng):
    hs, ht = rng.random() < .6, rng.random() < .45
    return {"q": rng.choice([1, 2, 4, 16, 64]), "speed": rng.choice([8, 8, 8, 4, 16, 12, 0]), "hs": hs, "ht": ht, "sig": sigs(rng) if hs else [],
            "tempo": curve(rng) if ht else [[0, 0]]}


def beh(rng):
    n = rng.choice([1, 2, 3])
    b = ["levels " + J([level(rng) for _ in range(n)]), "start"]
    pos = rng.randint(0, 500)
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if x < .85:
            nxt = pos + rng.randint(0, 300)
            r = [rng.choice([4096, 4096, 4096, 8192, 2048, 0]), 4096 * rng.choice([4, 8, 8, 9, 20]), rng.choice([2, 3, 4, 7]), rng.choice([2, 4, 8]),
                 pos // 2, pos - rng.randint(0, 60), pos, nxt - rng.randint(0, 60), nxt]
            pos = nxt
            d = rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randint(1, 60), rng.randint(1, 400)])
            if rng.random() < .6: b.append("tick %d %d %s" % (d, rng.choice([1, 1, 1, 2, 4]), " ".join(map(str, r))))
            else: b.append("ticko %d %d %s" % (d, rng.choice([0, 0, 3, 50]), " ".join(map(str, r))))
            continue
        k = rng.randint(1, n)
        if x < .88: b.append("speed %d %d" % (k, rng.choice([0, 4, 8, 12, 16])))
        elif x < .92: b.append("sig %d %s" % (k, "0 []" if rng.random() < .3 else "1 " + J(sigs(rng))))
        elif x < .96: b.append("tempo %d %s" % (k, "0 []" if rng.random() < .3 else "1 " + J(curve(rng))))
        else: b.append("fixed %d %d" % (k, rng.choice([-1, 0, 4, 8, 11, 16])))
    return b


def phys(rng):
    b = []
    for _ in range(30):
        f = rng.choice([0, rng.randint(0, 50), rng.randint(0, 100000)])
        t = max(0, f + rng.choice([0, 1, rng.randint(0, 64), rng.randint(-50, 2000)]))
        b.append("phys %d %d %d %d %d %d %d %d %d" % (f, t, rng.choice([0, 0, 1, rng.randint(0, 300)]), rng.choice([0, 8, 64]) if t % 8 == 0 else 0,
                 rng.choice([2, 4, 8, 16, 32]), rng.choice([4, 8, 16, 32]), rng.choice([f, t, rng.randint(max(0, f - 20), f + 300)]), rng.randint(0, 600), rng.choice([64, 512, 1000])))
    return b


def run(c):
    sc = c.mc("MusicalMC", "MusicalMC.cfg" if c.quick else "MusicalMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs += [beh(c.rng) for _ in range(2500 if c.quick else 40000)] + [phys(c.rng) for _ in range(60 if c.quick else 2000)]
    exe = c.build("musical.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("MusicalTrace", runs, exe=exe)
    c.samples(behs)


vp.main("T03", run)
