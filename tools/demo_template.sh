#!/bin/bash
# Builds the small program beside this file against the repository in the
# current directory, in a scratch directory, and runs it there.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
piston_meta = { path = "$repo" }
piston_meta_search = { path = "$repo/src/search" }
range = "1.0.0"
read_token = "1.0.0"
T
cp "$repo/src/search/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
if ! cargo build --offline --quiet >"$tmp/log" 2>&1; then
    rm -f Cargo.lock
    cargo build --offline --quiet >"$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 0; }
fi
timeout 120 "$tmp/target/debug/demo"
