#!/usr/bin/env python3
"""Mutation campaign: which small changes to the code do the checks miss?

  mutate.py OUTDIR N SEED PROP...

Works on private copies (OUTDIR/repo, OUTDIR/verif), bind-mounted over /repo
and /verif in a mount namespace of its own, so the real trees are untouched.
For each property N lines of its anchored files are mutated, one at a time,
and the property's quick check is run.  OUTDIR/result.txt gets one line per
mutant: killed / SURVIVED / invalid (does not compile) / error.
"""
import json, os, random, re, subprocess, sys

OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"if ?\(!", "if ("), (r"\+\+", "--"),
    (r" \* ", " + "), (r" / ", " * "), (r"\.begin\(\)", ".end()"), (r"\b0\b", "1"), (r"\b1\b", "2"),
    (r"else if ?\(", "if ("), (r"\+=", "-="), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bfront\(\)", "back()"),
]

def mutants(path):
    src = open(path).read().split("\n")
    out = []
    depth_ok = re.compile(r"^\s{2,}")
    incomment = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith(("//", "#", "*", "template", "using", "static_assert", "assert", "OSSIA_")) or not depth_ok.match(l):
            continue
        if "logger" in s or "throw" in s or "Log" in s:
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a in (r" < ", r" > ") and ("template" in code or "<" in code and ">" in code and "std::" in code): continue
                out.append((i, l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]))
        if re.match(r"^\s+[a-zA-Z_][\w.\->\[\]:]*(\(.*\)| = .*| \+= .*);$", code.rstrip()) and not s.startswith(("return", "auto", "const", "delete")):
            out.append((i, re.match(r"^\s*", l).group(0) + ";"))
        if re.match(r"^\s+if ?\(.*\)$", code.rstrip()) and code.count("(") == code.count(")"):
            k = code.index("(")
            out.append((i, code[:k] + "(true || " + code[k:].strip() + ")"))
            out.append((i, code[:k] + "(false && " + code[k:].strip() + ")"))
        if re.match(r"^\s+return;$", code.rstrip()):
            out.append((i, l.replace("return;", ";")))
    return src, out

def inner(out, n, seed, props):
    rng = random.Random(seed)
    P = {}
    for l in open("/verif/properties.jsonl"):
        d = json.loads(l)
        P[d["id"]] = d["anchors"]["files"]
    res = open(out + "/result.txt", "a")
    jobs = []
    for p in props:
        ms = []
        for f in P[p]:
            if not os.path.exists("/repo/" + f): continue
            src, mm = mutants("/repo/" + f)
            ms += [(f, i, t) for i, t in mm if t.strip() != src[i].strip()]
        rng.shuffle(ms)
        jobs += [(p, *m) for m in ms[:n]]
    for p, f, i, t in jobs:
        path = "/repo/" + f
        orig = open(path).read()
        src = orig.split("\n")
        old = src[i]
        src[i] = t
        open(path, "w").write("\n".join(src))
        try:
            r = subprocess.run([sys.executable, "/verif/checks/%s.py" % p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=900)
            o, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired:
            o, rc = "", "timeout"
        open(path, "w").write(orig)
        if rc == 1 and "VIOLATION property=%s" % p in o: k = "killed"
        elif rc == 0: k = "SURVIVED"
        elif "error:" in o: k = "invalid"
        else: k = "ERROR rc=%s %s" % (rc, o[-200:].replace("\n", " "))
        res.write("%-9s %s %s:%d  %s  ==>  %s\n" % (k, p, f.split("ossia/", 1)[-1], i + 1, old.strip(), t.strip()))
        res.flush()

if __name__ == "__main__":
    if sys.argv[1] == "--inner":
        inner(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
        sys.exit(0)
    out, args = os.path.abspath(sys.argv[1]), sys.argv[2:]
    os.makedirs(out, exist_ok=True)
    if not os.path.exists(out + "/repo"):
        subprocess.check_call(["cp", "-a", "/repo", out + "/repo"])
        os.makedirs(out + "/verif/build")
        for d in ("checks", "harness", "include", "shims", "spec", "tools", "properties.jsonl", "known-findings.txt", "MANIFEST.json"):
            if os.path.exists("/verif/" + d):
                subprocess.check_call(["cp", "-a", "/verif/" + d, out + "/verif/" + d])
        for d in ("std", "asan", "tsan", "par", "bin"):
            if os.path.exists("/verif/build/" + d):
                subprocess.check_call(["cp", "-a", "/verif/build/" + d, out + "/verif/build/" + d])
        # the specification does not change: its model checking is done once
        p = out + "/verif/tools/vp.py"
        s = open(p).read()
        s = s.replace("rc, out = tlc(module + \".tla\", cfg, env=env, workers=workers, timeout=timeout, heap=heap,\n                      extra=[\"-deadlock\"])",
                      "import pickle, hashlib\n        ck = '/verif/build/mc-' + hashlib.md5(repr((module, cfg, sorted((env or {}).items()), os.environ.get('VERIF_SEED'))).encode()).hexdigest()\n"
                      "        if os.path.exists(ck): rc, out = pickle.load(open(ck, 'rb'))\n"
                      "        else:\n            rc, out = tlc(module + \".tla\", cfg, env=env, workers=workers, timeout=timeout, heap=heap, extra=[\"-deadlock\"])\n            pickle.dump((rc, out), open(ck, 'wb'))")
        assert "pickle" in s
        open(p, "w").write(s)
    sys.exit(subprocess.call(["unshare", "-Urm", "sh", "-c",
        "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 /verif/tools/mutate.py --inner %s %s" % (out, out, out, " ".join(args))]))
