#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test against the instrumented standard library
# (engine/simstd), everything else as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
if [ "$name" = execgraph ] && [ -n "$SIMSTD_DIR" ] && [ -z "$SIM_PLAIN" ]; then
    rlib=$(ls -t "$SIMSTD_DIR"/libsimstd-*.rlib 2>/dev/null | head -1)
    [ -n "$rlib" ] && exec "$rustc" "$@" --extern "std=$rlib"
fi
exec "$rustc" "$@"
