#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp

U = 48
RATES = [(1, 4), (1, 2), (1, 1), (2, 1), (3, 1), (4, 1), (6, 1), (8, 1), (12, 1), (16, 1)]


def ticks(rng):
    """A tempo-constant performance cut into ticks: bars of one signature."""
    bar = rng.choice([4 * U, 4 * U, 3 * U, 6 * U // 2, 5 * U, 2 * U])
    sig = rng.choice([0, 0, 2, 5]) * bar
    per = rng.choice([1, 2, 5, 50])  # date units per musical unit
    pos = sig + rng.choice([0, 0, bar, rng.randint(0, 6 * bar)])
    b = []
    for _ in range(rng.randint(5, 30)):
        end = pos + rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, bar - 1)])
        bar0 = sig + (pos - sig) // bar * bar
        bar1 = sig + (end - sig) // bar * bar
        args = "%d %d %d %d %d %d %d %d" % (pos * per, end * per, rng.choice([0, 0, 7]), pos, end, bar0, bar1, sig)
        for n, d in rng.sample(RATES, 3):
            # within a bar, divisions that do not divide the bar restart at the bar
            if n > d and bar0 != bar1 and bar % (4 * U * d // n):
                continue
            # boundaries that binary fractions cannot express are left out
            if n % 3 == 0 and any((x - bar0) % (4 * U * d // n) == 0 for x in (pos, end)):
                continue
            b.append("quant %s %d %d" % (args, n, d))
        if rng.random() < .1:
            b.append("quant %s 0 1" % args)
        b.append("metro " + args)
        pos = end
    return b


def loops(rng):
    b = []
    for _ in range(30):
        n = rng.choice([1, 2, 3, 7, 100, rng.randint(1, 1000), 1000000])
        f = rng.choice([0, n, n - 1, rng.randint(0, 3 * n)])
        t = f + rng.choice([0, 1, n, n - 1, n + 1, 2 * n, rng.randint(0, 4 * n), -1])
        b.append("loop %d %d %d %d %d" % (f, max(0, t), rng.choice([0, 0, 11]), rng.choice([0, 0, 3, 50, n]), n))
        b.append("range %d %d %d %d" % (f, max(0, t), rng.choice([0, 5]), rng.choice([f, max(0, t), f - 1, f + 1, rng.randint(0, 5000)])))
    return b


def run(c):
    sc = c.mc("TokenMC", "TokenMC.cfg" if c.quick else "TokenMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs = [sum(behs[i:i + 40], []) for i in range(0, len(behs), 40)]
    n = 700 if c.quick else 20000
    behs += [ticks(c.rng) for _ in range(n)] + [loops(c.rng) for _ in range(n // 2)]
    exe = c.build("token.cpp")
    runs = c.run_parallel(exe, behs)
    c.validate("TokenTrace", runs, exe=exe)
    c.samples(behs)


vp.main("T02", run)
