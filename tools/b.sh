#!/bin/bash
# developer build
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
cd /verif/harness && cargo build --offline 2>&1 | grep -E '^error' -A 12 | head -${1:-80}
