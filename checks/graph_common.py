import vp

UNITS = """audio/audio_parameter context dataflow/data dataflow/execution_state dataflow/graph/graph dataflow/graph_node
dataflow/port detail/instantiations editor/state/message editor/state/state editor/state/state_element
network/base/device network/base/name_validation network/base/node network/base/node_attributes network/base/osc_address
network/base/parameter network/base/protocol network/common/complex_type network/common/extended_types network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl network/exceptions network/generic/generic_device
network/generic/generic_node network/generic/generic_parameter network/value/value protocols/midi/midi_node
protocols/midi/midi_parameter protocols/midi/midi_protocol""".split()
KINDS = ["fixed", "bfs", "tc", "dynamic", "tc-log", "fixed-bench", "fixed-bench-measure", "bfs-log-bench", "tc-log-bench-measure"]
PAR = ["par-fixed", "par-bfs", "par-tc"]
EK = ["G", "G", "G", "G", "S", "SI", "SO", "DG", "DG", "DS", "P", "P"]


def gen(rng, n, kinds, par=False, data=False):
    """A graph edited and ticked at random; edges follow a random order of the nodes, so there is no cycle."""
    b = ["graph " + rng.choice(kinds)]
    k = rng.choice([2, 3, 4, 5, 7, 9])
    ids = list(range(1, k + 1))
    order = ids[:]
    rng.shuffle(order)
    rank = {x: i for i, x in enumerate(order)}
    live, ing, edges, ne = {}, set(), {}, 0
    addrs = not par and rng.random() < (.8 if data else .6)
    pure = not data and rng.random() < .15
    ek = rng.choice([EK, ["G"], ["G", "DG"], ["DG", "DS"], ["G", "S", "DS", "SO", "SI"]]) if data else EK
    types = rng.choice([["v"], ["v"], ["v", "v", "m", "a"], ["m"], ["a"], ["v", "m"]])

    def node(i):
        t = rng.choice(types)
        a = lambda: str(rng.choice([0, 1, 2, 3]) if addrs and t == "v" else 0)
        ni, no = (0, 0) if not data and rng.random() < .15 else (rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2]))
        ia, oa = [a() for _ in range(ni)], [a() for _ in range(no)]
        b.append("node %d %s %s %s %d" % (i, t, ",".join(ia) or "-", ",".join(oa) or "-", rng.random() < .5))
        live[i] = (ni, no)
        ing.add(i)

    def edge():
        nonlocal ne
        c = [(o, i) for o in live for i in live if rank[o] < rank[i]]
        if not c: return
        o, i = rng.choice(c)
        kind = "P" if pure else rng.choice(ek)
        if kind != "P" and (not live[o][1] or not live[i][0]):
            kind = "P"
            if rng.random() < .5: return
        ne += 1
        b.append("edge %d %s %d %d %d %d" % (ne, kind, o, rng.randint(1, max(1, live[o][1])), i, rng.randint(1, max(1, live[i][0]))))
        edges[ne] = (o, i)
        ing.update((o, i))

    def gone(i):
        ing.discard(i)
        for e in [e for e, p in edges.items() if i in p]: del edges[e]

    for i in rng.sample(ids, k):
        if rng.random() < .8: node(i)
        if rng.random() < .6: edge()
    for _ in range(n):
        r = rng.random()
        if data and r < .5 and rng.random() < .5: r = 1
        if r < .06 and len(live) < k: node(rng.choice([i for i in ids if i not in live]))
        elif r < .26: edge()
        elif r < .33 and edges:
            e = rng.choice(list(edges)); del edges[e]; b.append("del %d %d" % (e, rng.random() < .5))
        elif r < .36 and live:
            i = rng.choice(list(live)); b.append("rm %d" % i); gone(i)
        elif r < .38 and live:
            i = rng.choice(list(live)); b.append("add %d" % i); ing.add(i)
        elif r < .40 and live:
            i = rng.choice(list(live)); b.append("drop %d" % i); gone(i); del live[i]
        elif r < .41:
            b.append("clear")
            for i in list(ing): gone(i); del live[i]
            edges.clear()
        elif r < .46 and live: b.append("mute %d %d" % (rng.choice(list(live)), rng.random() < .5))
        elif r < .49 and live: b.append("disc %d %d %d" % (rng.choice(list(live)), rng.random() < .6, rng.random() < .6))
        elif r < .50: b.append("dirty")
        elif r < .54: b.append("set %d %d" % (rng.randint(1, 3), -rng.randint(1, 99)))
        elif r < .57 and live: b.append("req %d" % rng.choice(list(live)))
        elif live:
            p = rng.choice([.4, .8, 1])
            q = [i for i in ing if rng.random() < p]
            q += [i for i in q if rng.random() < .2]
            rng.shuffle(q)
            b.append("tick %s" % (",".join(map(str, q)) or "-"))
    return b
