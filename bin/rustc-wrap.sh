#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under test (and the shim that
# instantiates its generics) with the simulator's yield points: coverage
# callbacks on edges, loads and stores, and calls for atomic operations.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then name="$a"; fi
    prev="$a"
done
case "$name" in
    piston_meta|piston_meta_search|read_token|range|lazy_static|shim)
        exec "$rustc" "$@" -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-trace-loads \
            -Cllvm-args=-sanitizer-coverage-trace-stores \
            -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
            -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
            -Cllvm-args=-tsan-instrument-memory-accesses=0 \
            -Cllvm-args=-tsan-instrument-memintrinsics=0 \
            -Ccodegen-units=1 -Awarnings
        ;;
    ""|___) exec "$rustc" "$@" ;;
    *) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
