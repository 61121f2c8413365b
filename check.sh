#!/bin/bash
# check.sh PROPERTY [quick|thorough] - builds from /repo and runs one campaign.
cd "$(dirname "$0")" || exit 2
V="$(pwd)"; P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$TIER" in thorough) BUD=${BUDGET:-600};; *) TIER=quick; BUD=${BUDGET:-25};; esac
mkdir -p build evidence
if ! ./build.sh "$P" > "build/$P.log" 2>&1; then cat "build/$P.log" >&2; echo "build of the simulator failed" >&2; exit 2; fi
exec "build/$P/sim" check --verif "$V" --tier "$TIER" --seed "${VERIF_SEED:-1}" --budget "$BUD" --workers "${WORKERS:-8}"
