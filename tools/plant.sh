#!/bin/bash
# tools/plant.sh ID... : applies each planted change to a copy of /repo and runs the check of its property on it
cd "$(dirname "$0")/.."
N=/opt/node/node_modules/.bin/node
R=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$R"' EXIT
cp -a /repo "$R/repo"
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$R/repo" checkout -q -- .
  git -C "$R/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$R/repo timeout 900 $N check.mjs $prop quick 2>&1); rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -a VIOLATION <<<"$out" | head -1 | cut -c1-150) $([ $rc -gt 1 ] && tail -3 <<<"$out" | cut -c1-300)"
done
