#!/bin/bash
# trybugs.sh [ID...] : apply each planted bug to /repo, run the check of its property, undo.  TIER / PROPS override.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  P=${PROP:-$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  python3-vt check.py $P > /tmp/tb.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $P rc=$rc $(grep VIOLATION /tmp/tb.out | cut -c1-120) :: $(grep 'failed obl\|ERROR\|Error' /tmp/tb.out | head -${N:-2} | cut -c1-200 | tr '\n' '|')"
done
