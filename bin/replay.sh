#!/bin/bash
# bin/replay.sh <file> [-v 1]: runs a replay file again, twice.
cd "$(dirname "$0")/.." || exit 2
bin/build.sh || exit 2
exec target/debug/msim replay "$@"
