#!/bin/bash
# Runs every check (or those named) and prints one line each.
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
for c in ${@:-$(ls harness/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/')}; do
  s=$(date +%s)
  out=$(timeout 900 python3-vt -m symx.run $c $tier ${BUDGET:+--budget $BUDGET} 2>&1); rc=$?
  echo "$c rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | tail -1 | sed 's/.*quick: //; s/.*thorough: //' | cut -c1-60)"
  [ $rc = 0 ] || echo "$out" | tail -5
done
