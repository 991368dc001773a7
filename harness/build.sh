#!/bin/sh
# Builds the harness against /repo's working tree (offline, instrumented).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/target"
exec cargo build --release --offline --quiet
