#!/bin/bash
# usage: catch.sh [ID...]   runs the quick check of its property against each planted bug and prints caught/MISSED
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" seeded/$id/meta.json)
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh ${CHECK:-$p} quick > /tmp/catch.out 2>&1
    rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p} " /tmp/catch.out; then echo "$id ${CHECK:-$p} caught $(( $(date +%s) - s ))s"; else echo "$id ${CHECK:-$p} MISSED rc=$rc $(( $(date +%s) - s ))s $(tail -1 /tmp/catch.out | cut -c1-200)"; fi
done
