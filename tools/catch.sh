#!/bin/bash
# tools/catch.sh <bug id> [property...]: runs checks on /repo with the bug applied.
id="$1"; shift
p="$*"; [ -n "$p" ] || p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for q in $p; do
    t0=$(date +%s)
    out=$(VERIF_SEED=1 bash /verif/bin/check.sh $q quick 2>&1); rc=$?
    echo "$id $q: exit $rc in $(( $(date +%s) - t0 )) s: $(echo "$out" | tail -2 | cut -c1-300 | tr '\n' '|')"
done
git -C /repo checkout -q -- .
bash /verif/bin/build.sh
