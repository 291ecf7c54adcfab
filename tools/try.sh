#!/bin/bash
# try.sh SEED...: runs the check of each planted bug's property against it, in /tmp/mut.
for s in "$@"; do
  git -C /tmp/mut checkout -q . ; git -C /tmp/mut clean -fdq -e warn/docs/proto
  git -C /tmp/mut apply /verif/seeded/$s/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  VERIF_REPO=/tmp/mut /verif/check.sh $p > /tmp/check.$s.out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep VIOLATION /tmp/check.$s.out) | $(grep -c '^failed obl' /tmp/check.$s.out) obligations, $(grep -m1 -E ' [0-9.]+ s$' /tmp/check.$s.out)"
done
git -C /tmp/mut checkout -q . ; git -C /tmp/mut clean -fdq -e warn/docs/proto
