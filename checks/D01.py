#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/extended_types network/common/path network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/domain/detail/domain_impl network/domain/domain_base network/exceptions network/value/value
protocols/midi/midi_device protocols/midi/midi_node protocols/midi/midi_parameter protocols/midi/midi_protocol""".split()
KINDS = ["on", "off", "control", "program", "pitchbend"]
STATUS = dict(on=0x90, off=0x80, control=0xB0, program=0xC0, pitchbend=0xE0)


def gen(rng, n):
    b = ["log"] if rng.random() < .3 else []
    chans = rng.sample(range(1, 17), 2)
    if rng.random() < .5: chans[0] = rng.choice([1, 16])
    nums = rng.sample(range(128), 2) + [0, 127]
    nodes, cbs = dict(i=set(), o=set()), {}
    wire, learn = 0, False
    full = dict(i=False, o=False)
    maybe = set()

    def legal(p):
        q = p.strip("/").split("/") if p != "/" else []
        return (len(q) < 1 or q[0].isdigit() and 1 <= int(q[0]) <= 16) and (len(q) < 2 or q[1] in KINDS) and \
               (len(q) < 3 or q[1] != "pitchbend" and q[2].isdigit() and int(q[2]) < 128)

    def params(d): return ["/"] + sorted(p for p in nodes[d] if p.count("/") > 1)

    def message():
        c = rng.choice(chans) - 1
        if rng.random() < .08: return rng.choice([[0xA0 + c, 5, 6], [0xD0 + c, 7], [0xF8], [0xFE]])
        k = rng.choice(KINDS)
        if k == "pitchbend": return [STATUS[k] + c, rng.randrange(128), rng.randrange(128)]
        if k == "program": return [STATUS[k] + c, rng.choice(nums)]
        return [STATUS[k] + c, rng.choice(nums), rng.choice([0, 1, 64, 127, rng.randrange(128)])]

    def learnt(m):
        k = [x for x in KINDS if STATUS[x] == m[0] & 0xF0]
        if m[0] >= 0xF0: return
        if not k: return maybe.add("/%d" % (m[0] % 16 + 1))
        c = "/%d" % (m[0] % 16 + 1)
        nodes["i"].add(c); nodes["i"].add(c + "/" + k[0])
        if k[0] != "pitchbend": nodes["i"].add("%s/%s/%d" % (c, k[0], m[1]))

    def val(p):
        q = p.strip("/").split("/")
        if p == "/": return " ".join(map(str, message()))
        if q[1] == "pitchbend": return str(rng.choice([0, 127, 128, 8192, 16383, rng.randrange(16384)]))
        if q[1] == "program": return "" if len(q) == 3 else str(rng.randrange(128))
        if len(q) == 3: return str(rng.randrange(128))
        return "%d %d" % (rng.choice(nums), rng.randrange(128))

    def drop(d, p):
        for s in [x for x in cbs if x[0] == d and (p == "/" or x[1] == p or x[1].startswith(p + "/"))]: del cbs[s]
    for _ in range(n):
        d = rng.choice("io")
        x = rng.random()
        if x < .22:
            p = rng.choice(["/"] + sorted(nodes[d]))
            if p == "/": s = str(rng.choice(chans + [0, 17] if rng.random() < .2 else chans))
            elif p.count("/") == 1: s = rng.choice(KINDS + (["note"] if rng.random() < .1 else []))
            else: s = str(rng.choice(nums + [128, 255, 256, 300, -1, "x"] if rng.random() < .2 else nums))
            q = ("" if p == "/" else p) + "/" + s
            if q in nodes[d] or d == "i" and q in maybe or p.count("/") > 2 or (full[d] and legal(q)): continue
            b.append("mk %s %s %s" % (d, p, s))
            if legal(q): nodes[d].add(q)
        elif x < .25 and nodes[d]:
            p = rng.choice(sorted(nodes[d]))
            b.append("rm %s %s" % (d, p)); drop(d, p)
            nodes[d] = {q for q in nodes[d] if not (q == p or q.startswith(p + "/"))}
            if full[d]: full[d] = "part"
        elif x < .252 and not full[d]:
            b.append("full " + d); drop(d, "/"); full[d] = True
            nodes[d] = {"/%d" % c for c in chans} | {"/%d/%s" % (c, k) for c in chans for k in KINDS} | \
                       {"/%d/%s/%d" % (c, k, m) for c in chans for k in KINDS[:4] for m in nums}
        elif x < .36:
            p = rng.choice(params(d)); b.append("listen %s %s" % (d, p)); cbs[(d, p)] = cbs.get((d, p), 0) + 1
        elif x < .42:
            c = [k for k in cbs if cbs[k]]
            if c:
                k = rng.choice(sorted(c)); b.append("unlisten %s %s" % k); cbs[k] -= 1
        elif x < .58:
            d = rng.choice("ooi"); p = rng.choice(params(d)[1:] or ["/"])
            op = rng.choice(["push", "pushr", "push", "assign"])
            b.append("%s %s %s %s" % (op, d, p, val(p))); wire += d == "o" and op != "assign"
        elif x < .60:
            p = rng.choice(params("o")); b.append("get o " + p)
            if p != "/" : b.append("push o %s %s" % (p, val(p))); b.append("pushcur o " + p); wire += 2
        elif x < .61:
            p = [q for q in nodes[d] if q.count("/") == 2 and q.split("/")[2] in KINDS[:3]]
            if p: b.append("pushbad %s %s %s" % (d, rng.choice(sorted(p)), rng.choice(["", "5"])))
        elif x < .78:
            m = message(); b.append("in " + " ".join(map(str, m)))
            if learn: learnt(m)
        elif x < .86:
            if wire and not learn: b.append("relay"); wire -= 1
        elif x < .88: learn = not learn; b.append("learn %d" % learn)
        elif x < .885: b.append("register")
        elif x < .91: b.append("collect")
        elif x < .96: b.append("get %s %s" % (d, rng.choice(params(d))))
        else: b.append("pull %s %s" % (d, rng.choice(params(d))))
    return b


def run(c):
    sc = c.mc("MidiMC", "MidiMC.cfg" if c.quick else "MidiMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    if len(behs) > (30000 if c.quick else 200000):
        behs = c.rng.sample(behs, 30000 if c.quick else 200000)
    # every message and every value, both ways
    for ch in range(1, 17):
        b = ["full i", "full o"]
        for k in KINDS:
            p = "/%d/%s" % (ch, k)
            b += ["listen i " + p]
            for n in ([0, 1, 2, 5, 60, 63, 64, 65, 100, 126, 127] if c.quick else range(128)):
                if k == "pitchbend": b += ["push o %s %d" % (p, n), "relay", "push o %s %d" % (p, 16383 - 97 * n), "relay"]
                elif k == "program": b += ["listen i %s/%d" % (p, n), "push o %s %d" % (p, n), "relay", "push o %s/%d" % (p, n), "relay"]
                else: b += ["listen i %s/%d" % (p, n), "push o %s %d %d" % (p, n, 127 - n), "relay", "push o %s/%d %d" % (p, n, n), "relay"]
        behs.append(b)
    behs += [gen(c.rng, c.rng.choice([20, 60, 120])) for _ in range(1200 if c.quick else 20000)]
    exe = c.build("midi.cpp", UNITS, variant="asan", lazy=True)
    runs = c.run_parallel(exe, behs, env={"ASAN_OPTIONS": "detect_leaks=0"})
    c.validate("MidiTrace", runs, exe=exe, run_env={"ASAN_OPTIONS": "detect_leaks=0"})
    c.samples(behs)


vp.main("D01", run)
