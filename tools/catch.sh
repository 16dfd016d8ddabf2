#!/bin/bash
# development aid: run checks against a planted bug:  catch.sh BUG [check ...]   (default: the bug's property)
id=$1; shift; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'].lower())")
git -C /repo apply $d/patch.diff || exit 1
for c in ${@:-$p}; do if [ -f /verif/py/$c.py ]; then r="python3-vt /verif/py/$c.py"; else r="/verif/run.sh $c"; fi; $r >/tmp/catch_$id.$c 2>&1; echo "$id $c exit=$? $(grep -m1 VIOLATION /tmp/catch_$id.$c)"; done
git -C /repo checkout -q -- .
