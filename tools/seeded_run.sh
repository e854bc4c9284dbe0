#!/bin/bash
# usage: seeded_run.sh [ID...]: applies each planted change to /repo in turn, runs the check of its property, undoes it
cd "$(dirname "$0")/.." || exit 2
for d in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s.%N)
  out=$(./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  e=$(date +%s.%N)
  echo "$d $p rc=$rc $(echo "$out" | grep -m1 -E '^[a-z-]+: ' | cut -c1-110) [$(echo "$e - $s" | bc | cut -c1-5)s]"
done
