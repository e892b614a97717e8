#!/bin/bash
# seedrun.sh ID...: runs the property's quick check on a scratch copy with the planted bug; prints CAUGHT or MISSED
for id in "$@"; do
  d=$(mktemp -d); cp -a /repo $d/repo
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; rm -rf "$d"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (cd /verif; SYMX_REPO=$d/repo timeout 900 python3-vt -m symx.run $p ${TIER:-quick} --budget ${BUDGET:-300} > $d/out 2>&1; rc=$?
  if [ $rc = 1 ]; then echo "$id CAUGHT $(grep -v '^\.\.' $d/out | head -1 | cut -c1-150)"; else echo "$id MISSED rc=$rc $(tail -1 $d/out | cut -c1-200)"; fi)
  rm -rf "$d"
done
