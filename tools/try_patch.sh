#!/bin/bash
# try_patch.sh PATCH CHECK...: applies a patch to /repo, runs checks, undoes it
git -C /repo apply "$1" || exit 9
shift
for c in "$@"; do python3 /verif/checks/$c.py > /tmp/try.$c.txt 2>&1; echo "$c rc=$? $(grep -E 'VIOLATION:|CHECK ERROR|VIOLATION prop' /tmp/try.$c.txt | head -2 | cut -c1-250)"; done
git -C /repo checkout -- .
