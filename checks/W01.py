#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/extended_types network/common/path network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/rate_limiting_protocol network/value/value""".split()
PATHS = ["/a", "/b", "/c", "/a/x", "/d"]
TYPES = ["INT", "FLOAT", "STRING", "LIST", "VEC2F"]


def gen(rng, n):
    # between two "settle" no value is pushed twice on a parameter: it shows which one was sent
    b, pars, held, used = [], {}, None, set()

    def fresh(p):
        for _ in range(100):
            v = vp.tok(valgen.value(rng, 2, pars[p]))
            if (p, v) not in used: break
        else: settle()
        used.add((p, v))
        return v

    def settle():
        nonlocal held
        if held: b.append("release"); held = None
        b.append("settle"); used.clear()
    if rng.random() < .4: b.append("cfg %d" % rng.choice([0, 1, 1, 3, 5]))
    while len(b) < n:
        x = rng.random()
        if x < .12 or not pars:
            p = rng.choice(PATHS)
            if p in pars: continue
            t = rng.choice(TYPES); b.append("new %s %s" % (p, t)); pars[p] = t
            continue
        p = rng.choice(sorted(pars))
        v = lambda p: vp.tok(valgen.value(rng, 2, pars[p]))
        if x < .18:
            if held == p: continue
            b.append("%s %s" % (rng.choice(["del", "delnode"]) if not any(q != p and q.startswith(p + "/") for q in pars) else "del", p))
            del pars[p]; held = None
        elif x < .58:
            for _ in range(rng.choice([1, 1, 2, 5])):
                w = fresh(p); b.append("%s %s %s" % (rng.choice(["push", "pushr", "pushq"]), p, w))
        elif x < .62:
            settle(); b.append("bundle " + " ".join(rng.sample(sorted(pars), rng.randint(0, len(pars))))); settle()
        elif x < .70:
            if held: b.append("release"); held = None
            else: w = fresh(p); b.append("hold %s %s" % (p, w)); held = p
        elif x < .76:
            settle()
        elif x < .78: b.append("duration %d" % rng.choice([0, 1, 2, 4]))
        elif x < .80: b.append("answer %d" % (rng.random() < .5))
        elif x < .96:
            o = rng.choice(["pull", "raw", "observe", "observeq", "echo", "update", "updateasync", "pullasync", "request",
                            "connected", "connect", "start", "stopexec", "stop", "logger"])
            if o in ("raw", "echo"): b.append("%s %s %s" % (o, p, v(p)))
            elif o in ("observe", "observeq"): b.append("%s %s %d" % (o, p, rng.random() < .5))
            elif o in ("pull", "pullasync", "request"): b.append("%s %s" % (o, p))
            else: b.append(o)
    if rng.random() < .8: settle()
    elif held: b.append("release")
    return b


def conc(rng, n):
    b = ["cfg %d" % rng.choice([0, 1, 2])] + ["new %s" % p for p in PATHS]
    for _ in range(rng.randint(1, 3)):
        T = rng.randint(2, 4)
        b.append("conc %d %d %s" % (T, n, " ".join(rng.sample(PATHS, rng.randint(1, T + 1)))))
        if rng.random() < .6: b.append("settle")
        if rng.random() < .3: b.append("duration %d" % rng.choice([0, 1, 3]))
    return b + ["settle"]


def run(c):
    sc = c.mc("RateMC", "RateMC.cfg" if c.quick else "RateMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs = [b + ["settle"] for b in c.rng.sample(behs, min(len(behs), 3000 if c.quick else 30000))]
    behs += [gen(c.rng, c.rng.choice([15, 40, 80])) for _ in range(500 if c.quick else 10000)]
    exe = c.build("rate.cpp", UNITS, variant="asan", lazy=True)
    runs = c.run_parallel(exe, behs, nproc=24)
    c.validate("RateTrace", runs, exe=exe)
    tb = [conc(c.rng, 100) for _ in range(48 if c.quick else 1000)]
    texe = c.build("rate.cpp", UNITS, variant="tsan", lazy=True)
    env = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}
    truns = c.run_parallel(texe, tb, env=env, tag="t")
    c.validate("RateTrace", truns, exe=texe, tag="c", run_env=env)
    c.samples(behs + tb)


vp.main("W01", run)
