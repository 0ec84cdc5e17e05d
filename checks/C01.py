#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vp


def gen(rng, n):
    live, dis, b = [], [], []
    for _ in range(n):
        op = rng.choice(["add"] * 4 + ["remove"] * 2 + ["send"] * 3 + ["replace", "disable", "restore", "addempty"] + (["clear"] if rng.random() < .2 else []))
        free = [i for i in range(8) if i not in live]
        en = [i for i in live if i not in dis]
        if op == "add" and free:
            i = rng.choice(free); live.append(i); b.append("add %d %d" % (i, rng.randint(10, 19)))
        elif op == "remove" and en:
            i = rng.choice(en); live.remove(i); b.append("remove %d" % i)
        elif op == "replace" and en:
            b.append("replace %d %d" % (rng.choice(en), rng.randint(10, 19)))
        elif op == "clear" and not dis:
            live = []; b.append("clear")
        elif op == "disable" and en:
            i = rng.choice(en); dis.append(i); b.append("disable %d" % i)
        elif op == "restore" and dis:
            i = rng.choice(dis); dis.remove(i); b.append("restore %d" % i)
        elif op in ("send", "addempty"):
            b.append(op)
    for i in dis:
        b.append("restore %d" % i)
    b.append("send")
    return b


def genx(rng):
    b = ["add 0 10", "add 1 11", "add 2 12"]
    for k in range(3):
        op = rng.choice(["add 3 13", "remove 1 0", "remove 2 0", "replace 0 15", "clear 0 0", "send 0 0", "disable 0 0",
                         "count 0 0", "empty 0 0", "disable+restore"])
        if op == "disable+restore":
            b += ["disable 0", "xsend restore 0 0"]
            continue
        b.append("xsend " + op)
        if op[0] in "acdr":
            break
    if any("disable 0 0" in x for x in b):
        b.append("restore 0")
    return b + ["send"]


def run(c):
    sc = c.mc("CallbacksMC")
    behs = [vp.cmds(s) + ["send"] for s in sc]
    behs += [gen(c.rng, 40) for _ in range(300 if c.quick else 6000)]
    behs += [genx(c.rng) for _ in range(80 if c.quick else 2000)]
    exe = c.build("callbacks.cpp")
    runs = c.run_parallel(exe, behs)
    # the same lists used by several threads at once, data races reported
    storms = [["add 0 10", "add 1 11", "storm %d %s 12" % (4000 if c.quick else 40000, op)]
              for op in ("remove", "replace", "disable", "count", "clear", "send")] * (1 if c.quick else 10)
    tsan = c.build("callbacks.cpp", variant="tsan")
    runs += c.run_parallel(tsan, storms, tag="s", env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})
    c.validate("CallbacksTrace", runs, exe=exe)
    c.samples(behs)


vp.main("C01", run)
