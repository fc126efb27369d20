#!/bin/bash
# plant.sh ID : with a change made in /tmp/wt (a copy of /repo), run the stable tests there, store patch,
# then check that the demo passes on /repo and fails with the patch.
set -u
id=$1; d=/verif/seeded/$id; mkdir -p $d
. /verif/tools/env.sh; export CARGO_TARGET_DIR=/tmp/wt/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd /tmp/wt || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 2; }
timeout 800 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/wt.log 2>&1
python3 /opt/vp/results.py /tmp/wt.json "cargo:/tmp/wt.log" 
python3 - <<'PY'
import json,sys
t=json.load(open('/tmp/wt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=sorted(set(b['stable'])-set(t['passed']))
print("MISSING:",miss[:5],len(miss)); sys.exit(1 if miss else 0)
PY
[ $? = 0 ] || { grep -E "^error|panicked|FAILED" /tmp/wt.log | head -5; exit 1; }
unset CARGO_TARGET_DIR
cd /repo && (bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean rc=$?"; tail -2 /tmp/demo0.log)
git apply $d/patch.diff && (bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/demo1.log); git checkout -q -- .
