#!/bin/bash
# Build the checker against /repo's current working tree.
set -u
export CARGO_TARGET_DIR="${PV_TARGET:-/verif/target}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd /verif/pv || exit 2
exec cargo build --offline --quiet --bin pv
