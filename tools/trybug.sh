#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
cd "$(dirname "$0")/.."
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply seeded/$b/patch.diff 2>/dev/null || git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b NOAPPLY"; continue; }
  out=$(./check $p quick 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -A1 ^VIOLATION | sed -n 2p | cut -c1-140)"
done
