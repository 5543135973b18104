#!/bin/bash
# Builds the simulator against /repo's current working tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p target
export CARGO_TARGET_DIR="$PWD/target"
export RUSTC_WRAPPER="$PWD/bin/rustc-wrap.sh"
export RUSTC_BOOTSTRAP=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
exec cargo build --offline --quiet --manifest-path sim/Cargo.toml
