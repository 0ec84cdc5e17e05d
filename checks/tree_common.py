import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp

UNITS = """context detail/instantiations network/base/device network/base/name_validation network/base/node
network/base/node_attributes network/base/node_functions network/base/osc_address network/base/parameter
network/base/protocol network/common/complex_type network/common/extended_types network/common/path
network/dataspace/dataspace_visitors network/dataspace/detail/dataspace_impl network/exceptions
network/generic/generic_device network/generic/generic_node network/generic/generic_parameter network/local/local
network/value/value""".split()


def enc(s):
    return "".join(c if c.isalnum() or c in "._-~():=" else "%%%02x" % ord(c) for c in s)


FAMILIES = [
    ["a", "a.1", "a.2", "a.3", "a.1.1", "b"],
    ["foo", "foo.0", "foo.1", "foo.01", "foo.00", "foo.+1", "foo.-1", "foo.-0"],
    ["x", "x.2147483647", "x.2147483646", "x.2147483648", "x.-2147483648", "x.02147483647", "x.1", "x.2"],
    ["n$", "n*", "n_", "n/b"[0:1], "n_.1", "n b", "n#.4"],
    [".", "..", ".1", "1", "1.", "1.1", "-1", "a."],
    ["a:b", "a=b", "(a)", "~a", "A", "a", "a.9", "a.10", "a.99", "a.999999999"],
    ["ab", "a", "abc", "a.b", "a.b.1", "a.b.2", "ab.1", "a.1b"],
]


def gen(rng, n):
    fam = rng.choice(FAMILIES)
    fam2 = fam + rng.choice(FAMILIES)[:2]
    name = lambda: enc(rng.choice(fam2))
    node = lambda: "@0" if rng.random() < .4 else "@%d" % rng.randint(0, 12)
    path = lambda: json.dumps([name() for _ in range(rng.choice([0, 1, 2, 2, 3]))], separators=(",", ":"))
    b = []
    for _ in range(n):
        k = rng.random()
        if k < .3: b.append("create %s %s" % (node(), name()))
        elif k < .36: b.append("add %s %s" % (node(), name()))
        elif k < .46: b.append("%s %s %s" % (rng.choice(["cnode", "fnode"]), node(), path()))
        elif k < .58: b.append("rename %s %s" % (node(), name()))
        elif k < .63: b.append("rmname %s %s" % (node(), name()))
        elif k < .68: b.append("rm " + node())
        elif k < .70: b.append("clear " + node())
        elif k < .82: b.append(rng.choice(["cparam %s", "cparam %s", "rparam %s", "sparam %s 1", "sparam %s 0"]) % node())
        elif k < .92: b.append("find %s %s" % (node(), path()))
        else: b.append("inst " + node())
    return b


def script(s):
    out = []
    for c in json.loads(s):
        r = [c[0], json.dumps([enc(x) for x in c[1]], separators=(",", ":"))]
        for x in c[2:]:
            r.append(json.dumps([enc(y) for y in x], separators=(",", ":")) if isinstance(x, list) else
                     enc(x) if isinstance(x, str) else vp.tok(x))
        out.append(" ".join(r))
    return out


def check(prop):
    def run(c):
        sc = c.mc("TreeMC", "TreeMC.cfg" if c.quick else "TreeMCdeep.cfg", workers=8)
        if len(sc) > (4000 if c.quick else 150000):
            sc = c.rng.sample(sc, 4000 if c.quick else 150000)
        behs = [script(s) for s in sc]
        behs += [gen(c.rng, c.rng.choice([6, 12, 25, 40])) for _ in range(500 if c.quick else 20000)]
        exe = c.build("tree.cpp", UNITS)
        runs = c.run_parallel(exe, behs)
        c.validate("TreeTrace", runs, cfg="TreeTrace%s.cfg" % prop, exe=exe)
        if prop == "N02" or not c.quick:
            # the same behaviours with the memory checked: a notification about
            # a dead node or parameter is an error
            asan = c.build("tree.cpp", UNITS, variant="asan")
            some = [b for b, _ in runs][:: 8 if c.quick else 4]
            c.run_parallel(asan, some, env={"ASAN_OPTIONS": "detect_leaks=0"}, tag="asan")
        c.samples(behs)
    vp.main(prop, run)
