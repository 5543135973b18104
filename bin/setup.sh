#!/bin/bash
# Builds the simulator; the checks rebuild what changed in /repo.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
bin/build.sh
target/debug/msim selftest
