#!/bin/bash
# tools/trybug.sh <id>...: confirms planted bugs in a scratch copy of /repo.
for id in "$@"; do
    d=/verif/seeded/$id
    W=/tmp/wt-$id
    rm -rf "$W"; cp -a /repo "$W"
    cd "$W" || exit 1
    git checkout -q -- . 
    export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
    bash "$d/demo.sh" >/tmp/demo.log 2>&1; a=$?
    if ! git apply "$d/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; continue; fi
    : > /tmp/t.log
    for m in Cargo.toml src/search/Cargo.toml; do cargo test --manifest-path $m --no-fail-fast --offline -- --test-threads 8 >> /tmp/t.log 2>&1; done
    n=$(grep -c "^test .* \.\.\. ok" /tmp/t.log); f=$(grep -c "FAILED\|^error" /tmp/t.log)
    bash "$d/demo.sh" >/tmp/demo2.log 2>&1; b=$?
    echo "$id: clean demo $a, patched demo $b, tests ok $n failed $f"
    [ "$a" = 0 ] || tail -5 /tmp/demo.log
    [ "$b" != 0 ] || tail -5 /tmp/demo2.log
    [ "$f" = 0 ] || grep "FAILED\|^error" -A5 /tmp/t.log | head -20
    rm -rf "$W"
done
