#!/bin/bash
# Build the contracts once (offline); checks rebuild what changed.
cd "$(dirname "$0")/rs" || exit 1
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true
RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo build --offline --features c01 2>&1 | tail -3
mkdir -p ../evidence ../work
exit ${PIPESTATUS[0]}
