#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, valgen, domgen
from valgen import V

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter
network/base/protocol network/common/complex_type network/common/extended_types network/common/path network/common/debug
network/dataspace/dataspace network/dataspace/dataspace_visitors network/dataspace/detail/dataspace_impl
network/domain/clamp network/domain/clamp_max network/domain/clamp_min network/domain/detail/domain_impl
network/domain/domain_base network/domain/fold network/domain/wrap network/exceptions network/generic/generic_device
network/generic/generic_node network/generic/generic_parameter network/osc/detail/osc_messages
network/oscquery/detail/attributes network/oscquery/detail/html_writer network/oscquery/detail/json_reader_detail
network/oscquery/detail/json_writer_detail network/oscquery/detail/osc_writer network/oscquery/detail/query_parser
network/oscquery/detail/typetag network/oscquery/oscquery_mirror network/oscquery/oscquery_server network/value/value
network/zeroconf/zeroconf""".split()
TYPES = ["INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"]
NAMES = ["a", "b", "c", "x.1"]
WORDS = ["hello", "x", "a b", "1", "caf'e", "q\"uote", "back\\slash", "tab;", "{}", "[1,2]", "null"]
KEYS = ["VALUE", "TYPE", "ACCESS", "DESCRIPTION", "TAGS", "RANGE", "CLIPMODE", "CRITICAL", "PRIORITY",
        "DEFAULT_VALUE", "HIDDEN", "REFRESH_RATE", "VALUE_STEPSIZE", "DISABLED", "REPETITION_FILTER", "ZORK"]
UNIT_OF = {"FLOAT": ["gain.linear", "gain.db", "time.second", "time.millisecond", "angle.degree", "speed.m/s", "distance.cm", "-"],
           "VEC2F": ["position.cart2D", "position.polar", "-"], "VEC3F": ["position.cart3D", "color.rgb", "color.hsv", "-"],
           "VEC4F": ["color.rgba", "color.argb", "orientation.quaternion", "-"]}


class Tree:
    """what the generator has to know of the server's tree"""
    def __init__(self):
        self.n = {(): None}  # path -> type or None

    def kids(self, p):
        return [q for q in self.n if q[:len(p)] == p]

    def par(self):
        return [q for q in self.n if self.n[q]]


def P(p):
    return "/" + "/".join(p)


def value(rng, t):
    if t == "LIST":
        return V(t, l=[valgen.value(rng, 0, rng.choice(["INT", "FLOAT", "STRING", "BOOL"])) for _ in range(rng.choice([5, 5, 6]))])
    if t == "CHAR":
        return V(t, 4 * rng.randint(97, 122))
    return valgen.value(rng, 1, t)


def attr(rng, t, st, extra):
    """one attribute of a node with a parameter of type t (or without): its words, or None"""
    k = rng.choice(["desc", "tags", "prio", "ref", "step", "inst", "hid", "app", "ver", "maker"] +
                   (["acc", "bnd", "rep", "crit", "crit", "dis", "unit", "dom", "dom", "type", "def", "ext"] if t else []))
    un = rng.random() < .2
    if k in ("desc", "app", "ver", "maker"):
        return "%s %s" % (k, "-" if un else rng.choice(WORDS))
    if k == "tags":
        return "tags " + ("-" if un else " ".join(rng.choice(["x", "y", "zz"]) for _ in range(rng.randint(1, 3))))
    if k in ("prio", "ref"):
        return "%s %s" % (k, "-" if un else rng.randint(1, 99))
    if k == "step":
        return "step %s" % ("-" if un else rng.randint(1, 40))
    if k == "inst":
        return "inst " + ("-" if un else "%d %d" % (rng.randint(0, 3), rng.randint(3, 9)))
    if k in ("hid", "rep", "crit", "dis"):
        return "%s %d" % (k, rng.random() < .6)
    if k == "acc":
        return "acc " + rng.choice(["GET", "SET", "BI", "BI"])
    if k == "bnd" and t != "BOOL":
        return "bnd " + rng.choice(["CLIP", "FREE", "FREE", "WRAP", "FOLD", "LOW", "HIGH"])
    if not extra or k == "bnd":
        return None
    if k == "unit":
        return "unit " + rng.choice(UNIT_OF[t]) if t in UNIT_OF and "ext" not in st else None
    if k == "ext":
        if t not in ("INT", "FLOAT", "STRING") or "unit" in st:
            return None
        return "ext " + ("-" if un else rng.choice(["midi", "filepath", "note"]))
    if k == "dom":
        if un or t in ("IMPULSE", "BOOL", "LIST"):
            return "dom -"
        d = domgen.domain(rng, t)
        if t[:3] == "VEC" or d[3]["l"]:
            d = (d[0], d[1], d[2], V("LIST")) if t[:3] == "VEC" else (d[0], domgen.NONE, domgen.NONE, d[3])
        if d[1]["t"] == "NONE" and d[2]["t"] == "NONE" and not d[3]["l"]:
            return "dom -"
        return "dom %s %s %s %s" % (d[0], vp.tok(d[1]), vp.tok(d[2]), vp.tok(d[3]))
    if k == "type":
        return "type " + rng.choice([x for x in TYPES if x != t])
    if k == "def":
        return "def " + ("-" if un else vp.tok(value(rng, t))) if t not in ("LIST", "IMPULSE") else None


def gen(rng, n, extra=True, structure=True, eager=False):
    b, T, mirs, nxt, lis = [], Tree(), [], 0, {}
    state = {}

    def flush():
        b.append("settle")
    if rng.random() < .5:
        b.append("echo 0 1")
    for _ in range(rng.randint(0, 2)):
        nxt += 1; mirs.append(nxt); b.append("join")
    for _ in range(n):
        x = rng.random()
        par = T.par()
        if x < .03 and len(mirs) < 3:
            nxt += 1; mirs.append(nxt); b += ["settle", "join", "update %d /" % nxt]
        elif x < .04 and mirs:
            m = rng.choice(mirs); b += ["settle", "leave %d" % m]; mirs.remove(m)
        elif x < .05:
            b.append("echo 0 %d" % (rng.random() < .6))
        elif x < .17 and structure or not par:
            p = rng.choice(list(T.n))
            if len(p) > 2 or len(T.n) > 7: continue
            q = p + (rng.choice(NAMES),)
            if q in T.n and T.n[q]: continue
            if rng.random() < .2 and q not in T.n:
                if mirs and rng.random() < .4: b += ["settle", "addreq %d %s %s" % (rng.choice(mirs), P(p), q[-1])]
                else: b.append("node " + P(q))
                T.n[q] = None
            else:
                t = rng.choice(TYPES); b.append("param %s %s" % (P(q), t)); T.n[q] = t; state[q] = {}
        elif x < .22 and structure and len(T.n) > 2:
            p = rng.choice([q for q in T.n if q])
            if rng.random() < .5:
                if mirs and rng.random() < .3: b += ["settle", "rmreq %d %s" % (rng.choice(mirs), P(p))]
                else: b.append("rmnode " + P(p))
                for q in T.kids(p): del T.n[q]; state.pop(q, None)
            else:
                s = rng.choice(NAMES + ["d"]); q = p[:-1] + (s,)
                if q in T.n: continue
                if mirs and rng.random() < .3: b += ["settle", "renreq %d %s %s" % (rng.choice(mirs), P(p), s)]
                else: b.append("rename %s %s" % (P(p), s))
                for r in T.kids(p):
                    T.n[q + r[len(p):]] = T.n.pop(r)
                    if r in state: state[q + r[len(p):]] = state.pop(r)
            if mirs: flush() if rng.random() < .3 else None
        elif x < .45:
            p = rng.choice([q for q in T.n if q])
            t = T.n[p]; st = state.setdefault(p, {})
            a = attr(rng, t, st, extra)
            if a is None: continue
            k = a.split()[0]
            if k == "type": b += ["settle", "attr %s def -" % P(p), "attr %s dom -" % P(p), "attr %s bnd FREE" % P(p), "attr %s unit -" % P(p)] + (["attr %s ext -" % P(p)] if "ext" in st else [])
            b.append("attr %s %s" % (P(p), a))
            if k in ("unit", "ext"):
                if a.endswith(" -"): st.pop(k, None)
                else: st[k] = 1
            if k == "type": T.n[p] = a.split()[1]; st.pop("unit", None); st.pop("ext", None)
        elif x < .62:
            p = rng.choice(par); b.append("set 0 %s %s" % (P(p), vp.tok(value(rng, T.n[p]))))
        elif x < .70 and mirs:
            b.append("settle")
            m, p = rng.choice(mirs), rng.choice(par)
            for _ in range(rng.randint(1, 3)):
                b.append("set %d %s %s" % (rng.choice(mirs), P(p), vp.tok(value(rng, T.n[p]))))
                if rng.random() < .4: b.append("set 0 %s %s" % (P(p), vp.tok(value(rng, T.n[p]))))
        elif x < .74 and mirs:
            b.append("settle")
            m, p = rng.choice(mirs), rng.choice(list(T.n) if rng.random() < .4 else par)
            b.append("%s %d %s" % ("pull" if T.n[p] and rng.random() < .6 else "update", m, P(p)))
        elif x < .78:
            p = rng.choice(list(T.n) + [("zz",)])
            b.append("ask %s %s" % (P(p), rng.choice(KEYS) if rng.random() < .7 else ""))
        elif x < .82 and par:
            p = rng.choice(par); m = rng.choice([0] + mirs)
            if m: b.append("settle")
            b.append("listen %d %s" % (m, P(p)))
        elif x < .96:
            b.append(rng.choice(["ws", "ws", "ws", "udp"] + ["wsto %d" % m for m in mirs]))
        else:
            flush()
    b.append("settle")
    return b


def run(c):
    exe = c.build("mirror.cpp", UNITS, lazy=True)
    sc = c.mc("OscqueryMC", "OscqueryMC.cfg" if c.quick else "OscqueryMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) + ["settle"] for s in sc]
    if len(behs) > (1500 if c.quick else 40000):
        behs = c.rng.sample(behs, 1500 if c.quick else 40000)
    behs += [gen(c.rng, c.rng.choice([15, 40, 80])) for _ in range(600 if c.quick else 12000)]
    runs = c.run_parallel(exe, behs)
    c.validate("OscqueryTrace", runs, exe=exe)
    c.samples(behs)


vp.main("Q01", run)
