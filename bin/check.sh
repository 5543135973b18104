#!/bin/bash
# bin/check.sh <property> quick|thorough [more msim options]
cd "$(dirname "$0")/.." || exit 2
prop="$1"; tier="$2"; shift 2
mkdir -p evidence replays
if ! bin/build.sh >/dev/null 2>target/build.log; then
    echo "the simulator does not build against /repo" >&2
    tail -n 40 target/build.log >&2
    exit 2
fi
exec target/debug/msim check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --evidence "$PWD/evidence/$prop.json" --replays "$PWD/replays" \
    --known "$PWD/known_findings.txt" "$@"
