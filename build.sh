#!/bin/bash
# Builds the monitors together with the library from /repo's working tree.
set -e
cd "$(dirname "$0")/harness"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-../target}"
exec cargo build --release --offline --quiet
