#!/bin/bash
# Runs each planted bug's own check on a scratch copy: trybugs.sh [ID...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  d=$(mktemp -d /tmp/tb.XXXXXX); cp -a /repo/. $d/
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if git -C $d apply /verif/seeded/$id/patch.diff; then
    out=$(REPO_DIR=$d VERIF_ROOT=/tmp/tbv bin/checker $p 2>&1); rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -m1 -i 'violation' | cut -c1-${W:-160})"
  fi
  rm -rf "$d"
done
