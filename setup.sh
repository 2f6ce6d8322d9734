#!/bin/bash
# Builds the harness (and with it the library from /repo's working tree), offline, without and with debug assertions.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --release --offline --locked && exec cargo build --profile checked --offline --locked
