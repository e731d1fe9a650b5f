#!/bin/bash
# tools/trybugs.sh [seed...]: applies each seeded defect to /repo in turn and runs the check of its property
cd "$(dirname "$0")/.." || exit 2
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || continue
  echo "== $b ($p)"; python3-vt engine/check.py $p 2>&1 | tail -3 | cut -c1-300
  git -C /repo checkout -q -- .
done
