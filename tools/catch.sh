#!/bin/bash
# tools/catch.sh [seed ids]: apply each planted bug in a private bind mount and run its property's check
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/catchw/$i; mkdir -p /tmp/catchw /tmp/catchw/ev
  cp -a /repo $w
  git -C $w apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; }
  cp -a /verif /tmp/catchw/v.$i
  out=$(unshare -rm bash -c "mount --bind $w /repo; cd /tmp/catchw/v.$i; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p 2>&1"); 
  echo "$i ($p): $(echo "$out" | grep -m1 VIOLATION || echo MISSED) [$(echo "$out" | tail -1 | cut -c1-120)]"
  echo "$out" > /tmp/catchw/$i.log; cp /tmp/catchw/v.$i/evidence/replay/$p.txt /tmp/catchw/ev/$i.txt 2>/dev/null
  rm -rf /tmp/catchw/$i /tmp/catchw/v.$i
done
