#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp

B = 1 << 20
INFMIN = (1 << 60) - 1


def limbs(n):
    return "[%d,%d,%d]" % (n >> 40, (n >> 20) & (B - 1), n & (B - 1))


def val(rng, inf=True, lo=-INFMIN):
    k = rng.random()
    if k < .35:
        n = rng.randint(-6, 6)
    elif k < .6:
        n = rng.randint(-705600000 * 100, 705600000 * 100)
    elif k < .7:
        n = INFMIN - rng.randint(1, 5)
    elif k < .8 and inf:
        n = rng.choice([INFMIN, INFMIN + 1, INFMIN + rng.randint(0, 1 << 59), (1 << 62) - 1])
    else:
        n = rng.randint(-(1 << rng.randint(1, 59)), 1 << rng.randint(1, 59))
    return n


def gen(rng):
    x = val(rng)
    b = ["set " + limbs(x)]
    for _ in range(rng.randint(3, 12)):
        k = rng.random()
        if k < .3:
            b.append("cmp " + limbs(val(rng)))
            continue
        op = rng.choice(["add", "addeq", "sub", "subeq", "norm"] * 2 + ["addi", "subi", "addieq", "subieq", "addu", "subu", "addd",
                        "subd", "neg", "abs"])
        y = val(rng, inf=op in ("add", "addeq", "sub", "subeq", "norm"))
        if op[-1] == "d" and op != "add":
            y = rng.randint(-(1 << 50), 1 << 50)
        if op in ("addu", "subu"):
            y = abs(y)
        b.append(op + " " + limbs(0 if op in ("neg", "abs") else y))
        # restart from somewhere in the range: what is below is unspecified
        if rng.random() < .7:
            b.append("set " + limbs(val(rng)))
            if rng.random() < .2:
                b[-1] = "set " + limbs(rng.randint(-1000000, 1000000))
                b.append("mul %d %d" % (rng.randint(0, 900), rng.randint(0, 3)))
    return b


def run(c):
    sc = c.mc("TimeValueMC", "TimeValueMC.cfg" if c.quick else "TimeValueMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    # one process start per behaviour is not needed: group them
    behs = [sum(behs[i:i + 40], []) for i in range(0, len(behs), 40)]
    behs += [gen(c.rng) for _ in range(4000 if c.quick else 100000)]
    exe = c.build("timevalue.cpp")
    runs = c.run_parallel(exe, behs)
    c.validate("TimeValueTrace", runs, exe=exe)
    c.samples(behs)


vp.main("T01", run)
