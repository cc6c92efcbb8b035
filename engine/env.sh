# Sourced by every script that builds something here.
export HOME=/root
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.78.0
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export PYO3_PYTHON=/opt/vp/venv/bin/python
[ -x "$PYO3_PYTHON" ] || export PYO3_PYTHON=python3
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF
export ENGINE_TARGET=$VERIF/target
export SIMSTD_DIR=$ENGINE_TARGET/debug/deps
export RUSTC_WRAPPER=$VERIF/engine/rustc_wrap.sh
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
