#!/bin/bash
# development aid: confirm a planted bug (stable tests pass, demo tells the difference) in a scratch copy
id=$1; d=/verif/seeded/$id; S=/tmp/seedrepo
. /opt/vp/env.sh; 
[ -d $S ] || git clone -q /repo $S
cd $S && git fetch -q /repo && git checkout -qf FETCH_HEAD && git checkout -q -- . 
export DEMO_REPO=$S
bash $d/demo.sh >/tmp/seed_$id.demo0 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $d/demo.sh >/tmp/seed_$id.demo1 2>&1; b=$?
timeout -k 10 800 cargo test --offline --features parallel --no-fail-fast --lib --bins --tests -- --test-threads 8 --skip tests::fuzz_evaluator:: --skip tests::property_tests::simplification_oracle_tests:: >/tmp/seed_$id.test 2>&1
timeout -k 10 400 cargo test --offline --features parallel --no-fail-fast --doc -- --test-threads 8 >>/tmp/seed_$id.test 2>&1
git checkout -q -- .
f=$(grep -E "^test .* FAILED$" /tmp/seed_$id.test | awk '{print $2}' | sort | tr '\n' ' ')
p=$(grep -cE "^test .* ok$" /tmp/seed_$id.test)
echo "$id: demo unchanged=$a patched=$b tests passed=$p failed=[$f]"; grep -E "^error" /tmp/seed_$id.test | head -3
