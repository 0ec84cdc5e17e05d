#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen, domgen

UNITS = """context detail/instantiations network/base/name_validation network/base/node network/base/node_attributes
network/base/osc_address network/base/parameter network/common/extended_types network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/value/value network/domain/clamp network/domain/clamp_max
network/domain/clamp_min network/domain/domain_base network/domain/fold network/domain/wrap network/domain/detail/domain_impl""".split()


def nested(v):
    return v["t"] == "LIST" and any(x["t"] == "LIST" for x in v["l"])


def odd(d, v):
    """combinations left out: nested lists; sets of a list domain compared with values that have no order with them"""
    if nested(v):
        return True
    if d[0] == "LIST" and any(s["l"] for s in d[3]["l"]):
        return any(x["t"] not in ("INT", "FLOAT", "BOOL", "CHAR") for x in v["l"])
    return False


def safe_type(d):
    # float bounds do not fit a char
    return [t for t in valgen.TYPES if t != "CHAR" or d[0] not in ("INT", "FLOAT")]


def gen(rng):
    b = []
    for _ in range(6):
        d = domgen.domain(rng)
        k = rng.random()
        if k < .8:
            b.append("dom " + " ".join(vp.tok(x) for x in d))
            if rng.random() < .15:
                m = rng.choice(["setmin", "setmax"])
                v = domgen.value_for(rng, d)
                # keep the bounds in order
                if d[0] in ("STRING", "IMPULSE", "BOOL", "NONE") and v["t"] not in ("NONE", "LIST", "ANY"):
                    b.append("%s %s" % (m, vp.tok(v)))
            if rng.random() < .1:
                b.append("convd " + rng.choice(safe_type(d)))
                continue
            for _ in range(rng.randint(1, 6)):
                v = domgen.value_for(rng, d)
                if not odd(d, v):
                    b.append("apply %s %s" % (rng.choice(domgen.MODES), vp.tok(v)))
        else:
            lo = rng.choice([0, -10, 5, rng.randint(-100000, 100000)])
            hi = lo + rng.choice([0, 1, 20, 127, rng.randint(0, 1000000)])
            for m in ("CLIP", "WRAP", "FOLD", "LOW", "HIGH"):
                n = rng.choice([2147483647, -2147483648, 2147483600, lo, hi, lo - (hi - lo), hi + (hi - lo), lo - 1, hi + 1,
                                rng.randint(-2147483648, 2147483647), rng.randint(lo, hi)])
                b.append("num %s %d %d %d" % (m, n, lo, hi))
    return b


def run(c):
    sc = c.mc("DomainMC", "DomainMC.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs = [sum(behs[i:i + 60], []) for i in range(0, len(behs), 60)]
    behs += [gen(c.rng) for _ in range(1500 if c.quick else 40000)]
    exe = c.build("domain.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("DomainTrace", runs, exe=exe)
    c.samples(behs)


vp.main("V02", run)
