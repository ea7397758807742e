#!/bin/bash
# Builds the symbolic engine from the committed sources.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cd engine && cargo build -q --release --offline
