#!/bin/bash
# check.sh PROP quick|thorough   run one check against /repo's working tree
# check.sh replay FILE           re-run the single case a replay file names
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET RUSTFLAGS
export WSMON_VERIF="$here"
mkdir -p "$here/evidence" "$here/replays" "$here/target"
log="$here/target/build.log"
cd "$here/harness" || exit 2
# always rebuild the code under test: timestamps are not trusted
cargo clean --offline -p websocket -p websocket-base >/dev/null 2>&1
if ! timeout 700 cargo build --offline --locked >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "BUILD FAILED (see $log)" >&2
    exit 2
fi
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null
if [ "$1" = build ]; then exit 0; fi
if [ "$1" = replay ]; then exec "$here/target/debug/wsmon" replay "$2"; fi
exec "$here/target/debug/wsmon" "$1" "${2:-quick}"
