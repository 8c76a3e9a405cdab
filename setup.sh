#!/bin/bash
# Builds the symbolic executor and the harness dependencies.
cd "$(dirname "$0")" || exit 1
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd symx && CARGO_TARGET_DIR=../target/symx cargo build --offline --release) || exit 1
exit 0
