#!/bin/bash
# development aid: run every built check on several seeds from a copy of the binaries: sweep.sh "2 3" [checks]
cd "$(dirname "$0")/.."; d=$(mktemp -d /tmp/sweep.XXXX); mkdir -p $d/evidence $d/replays; cp known_findings.txt $d/
seeds=$1; shift; checks=${@:-$(ls harness/src/bin | sed -n 's/^\(c[0-9]*\).rs/\1/p')}
for c in $checks; do cp harness/target/release/$c $d/; done; cp harness/target/release/evalsrv $d/ 2>/dev/null
for k in $seeds; do for c in $checks; do VERIF_SEED=$k VERIF_DIR=$d timeout 900 $d/$c 2>/dev/null | grep -E "VIOLATION|KNOWN|seed=" ; tail -n 3 -q $d/replays/* 2>/dev/null | cut -c1-500; rm -f $d/replays/*; done; done; rm -rf $d
