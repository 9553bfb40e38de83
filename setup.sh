#!/bin/bash
# Builds the harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS
export CARGO_NET_OFFLINE=true
mkdir -p evidence target
cd harness && cargo build --offline
