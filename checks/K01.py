#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen
from valgen import V

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/path network/common/extended_types network/dataspace/dataspace network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/domain/clamp network/domain/clamp_max network/domain/clamp_min network/domain/detail/domain_impl
network/domain/domain_base network/domain/fold network/domain/wrap network/exceptions network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/minuit/detail/minuit_impl network/minuit/minuit network/osc/detail/osc_messages network/value/value
network/zeroconf/zeroconf""".split()
PATHS = ["/a", "/a/x", "/a/x/y", "/b", "/b/z", "/c.1", "/d/e"]
TYPES = ["INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]
ATTRS = ["value", "type", "dataspace", "repetitionsFilter", "service", "priority", "rangeBounds", "rangeClipmode", "dataspaceUnit",
         "description", "valueStepsize"]
UNITS_OF = {"distance": ["m", "cm", "km", "mm"], "gain": ["linear", "db", "midigain"], "time": ["second", "ms", "bpm"], "angle": ["radian", "degree"]}


def value(rng, t):
    if t == "LIST":
        return V("LIST", l=[valgen.value(rng, 0, rng.choice(["INT", "FLOAT", "STRING"])) for _ in range(rng.randint(1, 4))])
    return valgen.value(rng, 1, t)


def text(s):
    return "s " + vp.tok(V("STRING", s=s))


class Gen:
    def __init__(self, rng):
        self.rng, self.b = rng, []
        self.s = {}                # the server: path -> [type, has a unit] or None
        self.m, self.upd, self.busy = {}, False, 0
        self.types = {}

    def add(self, p, x):
        q = ""
        for k in p.split("/")[1:]:
            q += "/" + k
            self.s.setdefault(q, None)
        if x: self.s[p] = x

    def flush(self):
        self.b.append("flush")
        if self.upd:
            self.m, self.upd = {p: x for p, x in self.s.items()}, False
        self.busy = 0

    def edit(self):
        r = self.rng
        x, ps = r.random(), sorted(p for p in self.s if self.s[p])
        if x < .35 or not ps:
            p = r.choice(PATHS)
            if r.random() < .25:
                self.b.append("node " + p); self.add(p, None)
            elif not self.s.get(p):
                # (the mirror may still know a parameter that has gone: it comes back with the same type)
                t = self.types.setdefault(p, r.choice(TYPES)); self.b.append("new %s %s" % (p, t)); self.add(p, [t, False])
            return
        p = r.choice(ps); t = self.s[p][0]
        if x < .42:
            # a request about a node that has gone meanwhile is never answered: the next update waits for it
            self.flush()
            self.b.append("drop " + p)
            for q in [q for q in self.s if q == p or q.startswith(p + "/")]: del self.s[q]
        elif x < .60: self.b.append("quiet %s %s" % (p, vp.tok(value(r, t))))
        else:
            f = r.choice(["dom", "bm", "acc", "rep", "unit", "prio", "desc", "step"])
            if f == "dom":
                if t not in ("INT", "FLOAT"): return
                lo = r.randint(-20, 10); hi = lo + r.randint(1, 30)
                self.b.append("attr %s dom %s %s %s %s" % (p, t, vp.tok(V(t, 4 * lo)), vp.tok(V(t, 4 * hi)), vp.tok(V("LIST"))))
            elif f == "bm": self.b.append("attr %s bm %s" % (p, r.choice(["FREE", "CLIP", "WRAP", "FOLD", "LOW", "HIGH"])))
            elif f == "acc": self.b.append("attr %s acc %s" % (p, r.choice(["BI", "GET", "SET"])))
            elif f == "rep": self.b.append("attr %s rep %d" % (p, r.random() < .7))
            elif f == "unit":
                if t != "FLOAT": return
                d = r.choice(sorted(UNITS_OF)); self.b.append("attr %s unit %s %s" % (p, d, r.choice(UNITS_OF[d])))
            elif f == "prio": self.b.append("attr %s prio %d" % (p, r.randint(-3, 9)))
            elif f == "desc": self.b.append("attr %s desc %s" % (p, r.choice(["word", "x", "two.words"])))
            else: self.b.append("attr %s step %d" % (p, r.randint(1, 5)))

    def raw(self):
        r = self.rng
        d = "s" if r.random() < .75 or self.upd else "m"
        tree = self.s if d == "s" else self.m
        ps = sorted(tree) or ["/a"]
        p = r.choice(ps) if r.random() < .85 else r.choice(PATHS + ["/nope", "/a/nope"])
        n = r.choice(["srv", "mir", "other", "x"])
        x = r.random()
        if d == "s" or x < .5:
            y = r.random()
            # (nobody but the mirror asks for a namespace: what the mirror says would become the server's)
            if y < .30 and (self.upd or d == "m"): return
            elif y < .30: self.b.append("raw %s %s?namespace %s" % (d, n, text(p if r.random() < .8 else "/")))
            elif y < .36: self.b.append("raw %s %s?listen %s %s" % (d, n, text(p), text("enable")))
            elif y < .42: self.b.append("raw %s %s" % (d, r.choice([n + "?get", n + "?namespace", n + "?get i " + vp.tok(V("INT", 4)), n + ":get", n + ":namespace",
                                                                    n + ":namespace " + text("/a"), n + "!namespace " + text("/a"), n, n + "?what " + text("/a"),
                                                                    n + "?get " + text(p + ":nonsense"), n + "?get " + text(p + ":tags")])))
            elif y < .80: self.b.append("raw %s %s?get %s" % (d, n, text(p + (":" + r.choice(ATTRS) if r.random() < .9 else ""))))
            else:
                t = (tree.get(p) or ["INT"])[0]
                v = value(r, r.choice([t, "INT", "FLOAT"]))
                g = {"INT": "i", "FLOAT": "f", "STRING": "s"}.get(v["t"])
                if t in ("INT", "FLOAT", "BOOL", "STRING", "LIST") and g: self.b.append("raw %s %s %s %s" % (d, p, g, vp.tok(v)))
        else:
            t = (tree.get(p) or ["INT"])[0]
            o = r.choice(["get", "listen"])
            y = r.random()
            if y < .5 and t in ("INT", "FLOAT", "BOOL"):
                self.b.append("raw m %s:%s %s i %s" % (n, o, text(p + r.choice(["", ":value"])), vp.tok(V("INT", 4 * r.randint(0, 9)))))
            elif y < .8:
                f = r.choice(["service " + text(r.choice(["parameter", "return", "message"])), "rangeClipmode " + text(r.choice(["none", "both", "wrap", "fold", "low", "high"])),
                              "priority i " + vp.tok(V("INT", 4 * r.randint(-2, 5))), "repetitionsFilter i " + vp.tok(V("INT", 4 * r.randint(0, 1))),
                              "description " + text("hello")])
                a, b = f.split(" ", 1)
                self.b.append("raw m %s:%s %s %s" % (n, o, text(p + ":" + a), b))
            else: self.b.append("raw m %s!get %s" % (n, text(p + ":value")))

    def step(self):
        r = self.rng
        x = r.random()
        ms = sorted(p for p in self.m if self.m[p] and self.s.get(p) and self.s[p][0] == self.m[p][0])
        ss = sorted(p for p in self.s if self.s[p])
        if x < .06 and not self.upd:
            self.flush(); self.b.append("update"); self.upd = True
        elif x < .25 and self.upd:
            if r.random() < .5: self.flush()
        elif x < .50 and not self.upd: self.edit()
        elif x < .68 and ss:
            p = r.choice(ss); self.b.append("push %s %s" % (p, vp.tok(value(r, self.s[p][0])))); self.busy += 1
        elif x < .80: self.raw()
        elif self.upd or not ms: return
        elif x < .88:
            p = r.choice(ms); t = self.m[p][0]
            t = "STRING" if t == "CHAR" else "LIST" if t[:3] == "VEC" else t
            self.b.append("pushm %s %s" % (p, vp.tok(value(r, t))))
        elif x < .92:
            p = r.choice(ms); self.flush(); self.b.append("pull " + p); self.b.append("push %s %s" % (p, vp.tok(value(r, self.s[p][0]))))
            if r.random() < .6: self.flush()
        elif x < .94: self.b.append("request " + r.choice(ms))
        elif x < .96: self.b.append("observe %s %d" % (r.choice(ms), r.random() < .5))
        else: self.flush()


def gen(rng):
    g = Gen(rng)
    for _ in range(rng.randint(1, 8)): g.edit()
    for _ in range(rng.choice([8, 15, 30])): g.step()
    g.flush()
    return g.b


def interleave(rng, b):
    """some of the deliveries one by one: try... delivers only what is there"""
    out = []
    for c in b:
        out.append(c)
        if c != "flush" and rng.random() < .5:
            out += ["try" + rng.choice("sm") for _ in range(rng.randint(1, 6))]
    return out


def run(c):
    sc = c.mc("MinuitMC", "MinuitMC.cfg" if c.quick else "MinuitMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) + ["flush"] for s in sc]
    behs += [interleave(c.rng, gen(c.rng)) for _ in range(700 if c.quick else 12000)]
    exe = c.build("minuit.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("MinuitTrace", runs, exe=exe)
    c.samples(behs)


vp.main("K01", run)
