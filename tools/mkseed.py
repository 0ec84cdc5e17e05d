#!/usr/bin/env python3
"""mkseed.py ID PROP HARNESS SCRIPTFILE NEEDS BREAKS [--units "a b c"] [--libs ..]
Takes /repo's uncommitted change as a planted bug: writes seeded/ID, undoes the
change, checks that the demonstration passes without it and fails with it, and
says whether the check of PROP reports it."""
import sys, os, subprocess, json, shutil, argparse
REPO = os.environ.get("VP_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("prop"); ap.add_argument("harness"); ap.add_argument("script")
ap.add_argument("needs"); ap.add_argument("breaks")
ap.add_argument("--units", default=""); ap.add_argument("--libs", default=""); ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--defs", default=""); ap.add_argument("--args", default="")
a = ap.parse_args()
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/checks")
import build as B
d = V + "/seeded/" + a.id
def git(*x): return subprocess.run(["git", "-C", REPO, *x], stdout=subprocess.PIPE, text=True, check=True).stdout
diff = git("diff")
assert diff.strip(), "no change in /repo"
git("checkout", "--", ".")
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
open(d + "/patch.diff", "w").write(diff)
shutil.copytree(V + "/shims", d + "/support/shims"); shutil.copytree(V + "/include", d + "/support/include")
shutil.copy(V + "/harness/" + a.harness, d + "/support/harness.cpp")
for h in os.listdir(V + "/harness"):
    if h.endswith(".hpp"): shutil.copy(V + "/harness/" + h, d + "/support/" + h)
if a.script == "auto":
    git("apply", d + "/patch.diff")
    r = subprocess.run(["python3", V + "/checks/%s.py" % a.prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    git("checkout", "--", ".")
    import re
    m = re.search(r"replay=(\S+)", r.stdout)
    if not m:
        print("check does not report it:", r.stdout[-500:]); sys.exit(1)
    t = open(m.group(1)).read()
    lines = t.split("## script\n")[1].split("\n## trace")[0].split("\n")
    print("replay of %d lines: %s" % (len(lines), t.splitlines()[0][:300]))
    a.nocheck = True
else:
    lines = [l.rstrip("\n") for l in open(a.script)]
open(d + "/support/script", "w").write("\n".join((["reset"] if lines[0] != "reset" else []) + lines) + "\n")
units = a.units.split()
flags = " ".join(["-std=c++20 -w -fPIC -pthread -O1 -g0"] + B.DEFS + [a.defs]).replace("-DFMT_CONSTEVAL=", "-DFMT_CONSTEVAL=")
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Builds support/harness.cpp with the library sources of the current directory,
# runs support/script and compares what is observed with support/expected.
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="%s -I$H/support/include -I$H/support/shims -I$R/src -I$H/support -isystem $R/3rdparty/timertt -isystem /usr/include/concurrentqueue/moodycamel"
UNITS="%s"
{ echo "$H/support/harness.cpp $T/harness.o"; for u in $UNITS; do echo "$R/src/ossia/$u.cpp $T/${u//\\//_}.o"; done; } > "$T/list"
xargs -P 8 -n 2 sh -c 'g++ '"$F"' -c "$0" -o "$1" || exit 255' < "$T/list" || { echo "build failed"; exit 2; }
g++ -pthread "$T"/*.o -o "$T/run" %s -Wl,--unresolved-symbols=ignore-all || exit 2
timeout 100 "$T/run" "$H/support/script" %s > "$T/out" 2> "$T/err"
rc=$?
[ -n "$RECORD" ] && cp "$T/out" "$RECORD"
if [ $rc -ne 0 ]; then echo "the program ended with status $rc"; exit 1; fi
diff "$H/support/expected" "$T/out" > "$T/diff" || { head -6 "$T/diff"; echo "behaviour differs from the specified one"; exit 1; }
echo "as specified"
""" % (flags, " ".join(units), a.libs, a.args))
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=a.prop, needs=a.needs, what_it_breaks=a.breaks), open(d + "/meta.json", "w"), indent=1)
def demo(env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
open(d + "/support/expected", "w").write("")
r = demo({"RECORD": d + "/support/expected"})
r = demo()
print("clean :", r.returncode, r.stdout[-300:].strip())
ok = r.returncode == 0
git("apply", d + "/patch.diff")
try:
    r = demo()
    print("patched:", r.returncode, r.stdout[-600:].strip())
    ok = ok and r.returncode != 0
    if not a.nocheck and os.path.exists(V + "/checks/%s.py" % a.prop):
        r = subprocess.run(["python3", V + "/checks/%s.py" % a.prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check %s: rc=%d" % (a.prop, r.returncode), [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l][:1] or r.stdout[-600:])
finally:
    git("checkout", "--", ".")
print("SEED %s %s" % (a.id, "OK" if ok else "BAD"))
if not ok:
    shutil.rmtree(d)
