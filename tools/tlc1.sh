#!/bin/bash
# tlc1.sh MODULE [CFG]: run one model, hide the scripts
cd "$(dirname "$0")/../spec"; d=$(mktemp -d /tmp/tlc1.XXXX)
timeout ${T:-300} java -Xss32m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir $d -noGenerateSpecTE -config ${2:-$1.cfg} $1.tla > $d/o.txt
echo "scripts: $(grep -c SCRIPT $d/o.txt)"; grep -v "SCRIPT\|^Parsing file\|^Semantic proc" $d/o.txt | cut -c1-${W:-600} | tail -n ${N:-60}; rm -rf "$d"
