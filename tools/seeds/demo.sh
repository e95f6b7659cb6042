#!/bin/bash
# Run in the repository's root after its build. Builds demo.rs (beside this file) against the working tree and runs
# it: exit 0 = the property holds in the demonstrated case. Writes only below ./target, which git ignores.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$repo/target/demo"
w="$repo/target/demo-crate"
mkdir -p "$w/src" || exit 3
cp "$here/demo.rs" "$w/src/main.rs" || exit 3
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$w/Cargo.lock"; fi
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
websocket = { path = "$repo" }
websocket-base = { path = "$repo/websocket-base" }
hyper = "0.10.16"
futures = "0.1"
tokio-io = "0.1"
tokio-codec = "0.1"
tokio-reactor = "0.1"
tokio-tcp = "0.1"
bytes = "0.4"
native-tls = "0.2"
openssl = "0.10"
[dependencies.tokio]
version = "0.1"
default-features = false
features = ["codec", "tcp", "rt-full"]
END
touch "$w/src/main.rs"
cd "$w" || exit 3
timeout 250 cargo build --offline >"$w/build.log" 2>&1 || { tail -n 40 "$w/build.log"; exit 3; }
timeout 40 "$CARGO_TARGET_DIR/debug/demo"
