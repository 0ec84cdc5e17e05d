import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp, json

UNITS = """detail/instantiations editor/curve/curve editor/exceptions
editor/expression/expression editor/expression/expression_atom editor/expression/expression_bool
editor/expression/expression_composition editor/expression/expression_generic editor/expression/expression_not
editor/expression/expression_pulse editor/scenario/detail/scenario_execution editor/scenario/detail/scenario_offset
editor/scenario/detail/scenario_sync_execution editor/scenario/detail/scenario_sync_musical_execution
editor/scenario/scenario editor/scenario/time_event editor/scenario/time_interval editor/scenario/time_process
editor/scenario/time_sync dataflow/graph_node dataflow/port""".split()


def graph(rng, focus):
    """A random acyclic scenario: syncs in time order, events on them, intervals forward."""
    ns = rng.randint(2, 6)
    es = [1]
    if rng.random() < .35:
        es.append(1)
    src, dst, mn, mx, nom = [], [], [], [], []
    root = [True] + [False] * (ns - 1)
    byS = {1: list(range(1, len(es) + 1))}
    for s in range(2, ns + 1):
        if s > 2 and rng.random() < .08:
            root[s - 1] = True
            byS[s] = [len(es) + 1]
            es.append(s)
            continue
        byS[s] = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            es.append(s)
            e = len(es)
            byS[s].append(e)
            for _ in range(rng.choice([1, 1, 1, 2])):
                prevS = rng.choice([x for x in range(max(1, s - 2), s)])
                src.append(rng.choice(byS[prevS]))
                dst.append(e)
    for d in dst:
        n = rng.choice([1, 2, 3, 4, 6, 9])
        k = rng.random()
        if k < (.6 if focus == "S02" else .4):
            a, b = n, n
        else:
            a = rng.randint(1, n)
            b = rng.choice([n, n + 1, n + 3, -1])
            if rng.random() < .3:
                a = 0
        mn.append(a); mx.append(b); nom.append(n)
    p = {"S01": .3, "S02": .15, "S03": .7}[focus]
    trig = [0 if rng.random() > p else rng.choice([1] * 8 + [2]) for _ in range(ns)]
    auto = [bool(root[s] and s and rng.random() < .4) for s in range(ns)]
    return dict(es=es, src=src, dst=dst, min=mn, max=mx, nom=nom, root=root, auto=auto, trig=trig)


def gen(rng, focus):
    g = graph(rng, focus)
    b = ["graph " + vp.tok(g)]
    ne, ns = len(g["es"]), len(g["root"])
    gen_s = [s for s in range(1, ns + 1) if g["trig"][s - 1] == 1]
    any_s = [s for s in range(1, ns + 1) if g["trig"][s - 1] != 0]
    for e in range(1, ne + 1):
        if rng.random() < (.3 if focus == "S01" else .12):
            b.append("cond %d 0" % e)
    run = rng.randint(1, 2)
    big = rng.random()
    for _ in range(run):
        b.append("start")
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .22 and gen_s:
                b.append("trig %d %d" % (rng.choice(gen_s), rng.random() < .7))
            elif r < .27 and any_s:
                b.append("req %d" % rng.choice(any_s))
            elif r < .33:
                b.append("cond %d %d" % (rng.randint(1, ne), rng.random() < .5))
            d = rng.choice([1, 1, 2, 3, 5] if big < .6 else [1, 4, 8, 13, 40])
            if rng.random() < .03:
                d = 0
            b.append("tick %d %d" % (d, rng.choice([0, 0, 0, 2])))
        b.append("stop")
    return b


def run(c, focus):
    sc = c.mc("ScenarioMC", "ScenarioMC.cfg" if c.quick else "ScenarioMCdeep.cfg", workers=8)
    behs = [vp.cmds(s) for s in sc]
    behs += [gen(c.rng, focus) for _ in range(1200 if c.quick else 40000)]
    exe = c.build("scenario.cpp", UNITS, lazy=True)
    runs = c.run_parallel(exe, behs)
    c.validate("ScenarioTrace", runs, cfg="ScenarioTrace%s.cfg" % focus, exe=exe)
    c.samples(behs)
