#!/bin/bash
# tools/seeds.sh "seeds" [props]: every claimed check must be quiet with every seed.
cd "$(dirname "$0")/.."
seeds=$1; shift
props=${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for s in $seeds; do for p in $props; do
  t=$(date +%s); VERIF_SEED=$s python3 check.py $p quick >/tmp/seeds.out 2>/tmp/seeds.err; rc=$?
  echo "$p seed=$s rc=$rc $(( $(date +%s)-t ))s"; [ $rc = 0 ] || { tail -3 /tmp/seeds.err | cut -c1-600; }
done; done
