"""Common machinery of the checks.

A check =
  1. TLC model-checks the specification (spec/<Area>.tla) exhaustively under
     small constants (spec/<Area>MC.cfg); while doing so it emits, for every
     transition of the explored state graph, the shortest command script that
     reaches and takes it  (lines  "SCRIPT <json>").
  2. The harness (harness/<area>.cpp, linked with /repo's current sources)
     executes those scripts plus randomly generated longer ones on the real
     code and logs every call with its result and the projected state.
  3. TLC validates the log against the same specification
     (spec/<Area>Trace.tla): every line must be a step the spec allows.
"""
import argparse, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, hashlib
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def cmds(script):
    """JSON array of commands -> list of command lines."""
    a = json.loads(script) if isinstance(script, str) else script
    return [" ".join(tok(x) for x in c) for c in a]


def tok(x):
    if x is True:
        return "1"
    if x is False:
        return "0"
    if isinstance(x, (dict, list)):
        return json.dumps(x, separators=(",", ":"), sort_keys=True).replace(" ", "\\u0020")
    return str(x)


class CheckError(Exception):
    pass


class Rejected(Exception):
    def __init__(self, line, out):
        self.line = line
        self.out = out


def tlc(module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=(), cwd=None, stack=None, props=()):
    """Runs TLC; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=B.BUILD)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + (stack or "16m")]
    cmd += ["-D" + p for p in props]
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def parse_states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


class Check:
    def __init__(self, prop):
        self.prop = prop
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--keep", action="store_true")
        ap.add_argument("--replay")
        self.args = ap.parse_args()
        self.tier = "thorough" if self.args.tier == "thorough" else "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        os.makedirs(B.BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=B.BUILD)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, trace_events=0,
                        samples=[], models=[])
        self.violations = []
        self.known = []
        self.assumptions = []
        self.known_lines = []
        kf = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                if l.startswith("known: property=%s " % prop):
                    self.known_lines.append(l.strip())

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    @property
    def quick(self):
        return self.tier == "quick"

    # -- model checking -------------------------------------------------
    def mc(self, module, cfg=None, workers=1, timeout=600, env=None, heap="4g", scripts=True):
        """Exhaustive TLC run.  Returns the emitted scripts."""
        cfg = cfg or module + ".cfg"
        rc, out = tlc(module + ".tla", cfg, env=env, workers=workers, timeout=timeout, heap=heap,
                      extra=["-deadlock"])
        gen, dist = parse_states(out)
        if rc != 0:
            raise CheckError("TLC on %s failed (rc=%s):\n%s" % (cfg, rc, out[-4000:]))
        res = set()
        if scripts:
            for l in out.splitlines():
                if l.startswith('"SCRIPT '):
                    res.add(json.loads(l)[7:])
                elif l.startswith("SCRIPT "):
                    res.add(l[7:])
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append(dict(module=cfg, distinct_states=dist, transitions=gen, scripts=len(res)))
        self.log("model %s: %d transitions, %d distinct states, %d scripts" % (cfg, gen, dist, len(res)))
        # a script that is a prefix of another one adds nothing
        full = sorted(res)
        keep = []
        for i, a in enumerate(full):
            if i and full[i - 1].startswith(a[:-1] + ","):
                continue
            keep.append(a)
        return keep

    # -- building and running the real code -----------------------------
    def build(self, harness, units=(), variant="std", **kw):
        t = time.time()
        try:
            exe = B.build(harness, list(units), variant, **kw)
        except B.BuildError as e:
            raise CheckError(str(e))
        self.log("built %s in %.1fs" % (harness, time.time() - t))
        return exe

    def run(self, exe, behaviours, tag="b", timeout=300, env=None, args=()):
        """behaviours: list of lists of command lines.  Returns list of
        (behaviour, list of trace lines).  The harness prints one ndjson line
        per event; a behaviour starts with a line {"e":"Reset",...}."""
        p = os.path.join(self.work, tag + ".script")
        with open(p, "w") as f:
            for b in behaviours:
                f.write("reset\n")
                for c in b:
                    f.write(c + "\n")
        e = dict(os.environ)
        e.update(env or {})
        try:
            # sanitizers reserve address space: only plain builds are limited
            lim = None if "san" in exe.split("/")[-2] else (lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
            r = subprocess.run([exe, p, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               cwd=self.work, env=e, text=True, errors="replace", preexec_fn=lim)
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or ""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            return self.split(behaviours, out), "timeout", ""
        return self.split(behaviours, r.stdout), r.returncode, r.stderr

    @staticmethod
    def split(behaviours, out):
        groups = []
        for l in out.splitlines():
            if not l.startswith("{"):
                continue
            if l.startswith('{"e":"Reset"'):
                groups.append([])
            if groups:
                groups[-1].append(l)
        return groups

    def run_parallel(self, exe, behaviours, nproc=8, tag="b", timeout=150, env=None, args=()):
        """Splits behaviours over processes.  A crash/timeout is attributed to
        the behaviour that was executing."""
        n = max(1, min(nproc, len(behaviours)))
        chunks = [behaviours[i::n] for i in range(n)]
        res = []
        with cf.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(self.run, exe, c, "%s%d" % (tag, i), timeout, env, args) for i, c in enumerate(chunks)]
            for c, f in zip(chunks, futs):
                groups, rc, err = f.result()
                if rc != 0:
                    k = max(0, len(groups) - 1)
                    bad = c[k] if k < len(c) else c[-1]
                    if rc == 3:
                        raise CheckError("harness reported misuse: " + err[-2000:])
                    self.crash(exe, bad, rc, err, groups[k] if groups else [], timeout, env, args, c[:k])
                    groups = groups[:k]
                    c = c[:k]
                if len(groups) != len(c):
                    raise CheckError("harness produced %d behaviours for %d" % (len(groups), len(c)))
                res += list(zip(c, groups))
        return res

    def crash(self, exe, beh, rc, err, trace, timeout, env, args, prev=()):
        """Confirms a crash by running the behaviour alone."""
        for before in ([], prev, prev):
            g, rc2, err2 = self.run(exe, list(before) + [beh], "crash", min(timeout, 100), env, args)
            if rc2 != 0:
                break
        else:
            raise CheckError("crash not reproduced (rc=%s): %s" % (rc, err[-1500:]))
        self.violation("the code crashed or hung (status %s) while executing this behaviour" % (rc2,),
                       beh, trace, err2[-2000:])

    # -- trace validation -------------------------------------------------
    def validate(self, module, runs, cfg=None, nproc=8, tag="t", timeout=600, exe=None, heap="3g", env=None,
                 run_args=(), run_env=None, max_viol=1, props=(), harness_timeout=120):
        """runs: list of (behaviour, trace lines).  Validates all traces with
        TLC (module has  Trace == ndJsonDeserialize(IOEnv.TRACE)).  A rejected
        trace is re-executed and re-validated alone before it is reported."""
        cfg = cfg or module + ".cfg"
        if not runs:
            return
        n = max(1, min(nproc, len(runs)))
        # balance by number of lines
        buckets = [[] for _ in range(n)]
        load = [0] * n
        for r in runs:
            i = load.index(min(load))
            buckets[i].append(r)
            load[i] += len(r[1])

        def one(i):
            rs = buckets[i]
            bad = []
            first = 0
            while first < len(rs) and len(bad) < max_viol:
                k, out = self._val(module, cfg, rs[first:], "%s%d" % (tag, i), timeout, heap, env, props)
                if k is None:
                    break
                bad.append((rs[first + k], out))
                first += k + 1
            return bad

        with cf.ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, range(n)))
        nb = 0
        for bad in results:
            for (beh, trace), out in bad:
                nb += 1
                conf = self._confirm(module, cfg, exe, beh, trace, runs, timeout, heap, env, props,
                                     harness_timeout, run_env, run_args, tag)
                if conf is None:
                    self.log("rejection NOT confirmed on re-execution; not reported")
                    self.cov["unconfirmed_rejections"] = self.cov.get("unconfirmed_rejections", 0) + 1
                    continue
                trace2, out2, beh = conf
                m = re.search(r"VP_STUCK (\d+)", out2)
                at = int(m.group(1)) if m else -1
                what = "trace rejected by %s at event %d" % (module, at)
                if 0 < at <= len(trace2):
                    what += ": " + trace2[at - 1][:400]
                self.violation(what, beh, trace2, out2[-3000:])
        ev = sum(len(t) for _, t in runs)
        self.cov["traces_validated_against_impl"] += len(runs)
        self.cov["trace_events"] += ev
        self.log("%s: %d traces / %d events validated, %d rejected" % (module, len(runs), ev, nb))

    def _confirm(self, module, cfg, exe, beh, trace, runs, timeout, heap, env, props, htimeout, renv, rargs, tag):
        """Runs a rejected behaviour again, alone and then after the behaviours
        that preceded it (for outcomes that depend on the memory layout)."""
        if exe is None:
            k, out = self._val(module, cfg, [(beh, trace)], tag + "c", timeout, heap, env, props)
            return None if k is None else (trace, out, beh)
        idx = next((i for i, r in enumerate(runs) if r[0] is beh), 0)
        prev = [r[0] for r in runs[max(0, idx - 300):idx]]
        for before in ([], [], prev, prev):
            g, rc, err = self.run(exe, before + [beh], "confirm", htimeout, renv, rargs)
            if len(g) != len(before) + 1:
                continue
            k, out = self._val(module, cfg, [(beh, g[-1])], tag + "c", timeout, heap, env, props)
            if k is not None:
                allb = []
                for b in before:
                    allb += b + ["reset"]
                return g[-1], out, allb + beh
        return None

    def _val(self, module, cfg, rs, tag, timeout, heap, env, props=()):
        p = os.path.join(self.work, tag + ".ndjson")
        starts = []
        n = 0
        with open(p, "w") as f:
            for _, t in rs:
                starts.append(n)
                for l in t:
                    f.write(l + "\n")
                n += len(t)
        e = {"TRACE": p}
        e.update(env or {})
        rc, out = tlc(module + ".tla", cfg, env=e, workers=1, timeout=timeout, heap=heap, extra=["-deadlock"],
                      stack="64m", props=props)
        m = re.search(r"VP_STUCK (\d+)", out)
        if m:
            at = int(m.group(1)) - 1  # 0-based index of the first unmatched line
            k = max(i for i, s in enumerate(starts) if s <= at)
            return k, out
        if "VP_ACCEPTED" in out and rc == 0:
            return None, out
        m = re.search(r"is violated|Invariant .* violated", out)
        if m:
            # an invariant failed at some state: find l
            ls = re.findall(r"/\\ l = (\d+)", out)
            at = (int(ls[-1]) - 2) if ls else 0
            k = max(i for i, s in enumerate(starts) if s <= max(at, 0))
            return k, out
        i = out.find("Error:")
        raise CheckError("TLC trace validation error (%s, rc=%s):\n%s\n...\n%s" % (module, rc, out[i:i + 1500], out[-1500:]))

    def samples(self, behs, n=3):
        k = max(1, len(behs) // n)
        for b in behs[::k][:n]:
            self.cov["samples"].append(" ; ".join(b)[:600])

    # -- results -----------------------------------------------------------
    def violation(self, what, beh, trace, detail=""):
        d = os.path.join(B.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(("\n".join(beh) + what).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.txt" % (self.prop, h))
        with open(p, "w") as f:
            f.write("# %s\n# property %s seed %d tier %s\n" % (what, self.prop, self.seed, self.tier))
            f.write("## script\nreset\n" + "\n".join(beh) + "\n## trace\n" + "\n".join(trace) + "\n## detail\n" + detail + "\n")
        self.violations.append((what, p))
        self.log("VIOLATION:", what)

    def finish(self, level="model_checking", **extra):
        self.cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if not self.args.keep:
            shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        seen = set()
        for what, p in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        self.log("done: %d violation(s)" % len(self.violations))
        return 1 if self.violations else 0


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        if not c.args.keep: shutil.rmtree(c.work, ignore_errors=True)
        if c.violations:
            rc = c.finish()
        else:
            rc = 2
    sys.exit(rc)
