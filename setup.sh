#!/bin/bash
# Sanity of the toolchain: builds one simulator and checks that one seed is one
# repeatable execution (same hash twice).
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
./build.sh C01 > build/setup.log 2>&1 || { cat build/setup.log; exit 1; }
a=$(build/C01/sim run 7 | sha256sum); b=$(build/C01/sim run 7 | sha256sum)
[ "$a" = "$b" ] || { echo "simulator is not deterministic"; exit 1; }
echo "setup ok"
