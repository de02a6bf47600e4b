#!/bin/bash
# Builds the harness against /repo's working tree, offline.
cd "$(dirname "$0")/harness" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64"
unset CI SKIP_RECIPES RUSTC
exec cargo build --offline --target-dir ../target "$@"
