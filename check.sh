#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the engine against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
engine/build.sh || { echo "the engine does not build against /repo"; exit 2; }
mkdir -p evidence replays
exec target/debug/sim check "$1" --tier "${2:-quick}" --evidence "$PWD/evidence/$1.json" \
    --replays "$PWD/replays" --known "$PWD/known-findings.txt" ${BUDGET:+--budget "$BUDGET"} 2>&1
