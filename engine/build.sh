#!/bin/bash
# Builds the engine against /repo's working tree. Falls back to an uninstrumented build of the
# crate under test when it cannot be compiled against the instrumented standard library.
cd "$(dirname "$0")" && . ./env.sh
mkdir -p "$ENGINE_TARGET"
exec 9>"$ENGINE_TARGET/.build.lock"; flock 9
h=$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | sort | xargs sha256sum | sha256sum | cut -c1-32)
[ "$(cat "$ENGINE_TARGET/.srchash" 2>/dev/null)" = "$h" ] || { [ -d "$ENGINE_TARGET/debug" ] && cargo clean -p execgraph -p worker --target-dir "$ENGINE_TARGET" >/dev/null 2>&1; }
L="$ENGINE_TARGET/build.log"
b() { cargo build -q --target-dir "$ENGINE_TARGET" "$@"; }
# with the worker program as a simulated process, if that can be compiled
bs() { b -p sim --features worker || b -p sim; }
if { b -p simstd && bs; } >"$L" 2>&1; then
    rm -f "$ENGINE_TARGET/.plain"
else
    export SIM_PLAIN=1
    cargo clean -p execgraph --target-dir "$ENGINE_TARGET" >/dev/null 2>&1
    if bs >"$L" 2>&1; then touch "$ENGINE_TARGET/.plain"; else
        grep -A12 '^error' "$L" | head -60 >&2; rm -f "$ENGINE_TARGET/.srchash"; exit 2
    fi
fi
echo "$h" >"$ENGINE_TARGET/.srchash"
