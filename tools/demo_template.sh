#!/bin/bash
# Builds demo.rs against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.73 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
s=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/demo.rs" "$s/src/main.rs"
cp /repo/Cargo.lock "$s/"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nakamoto-common = { path = "/repo/common" }
nakamoto-chain = { path = "/repo/chain" }
nakamoto-p2p = { path = "/repo/p2p" }
nakamoto-net = { path = "/repo/net" }
nakamoto-net-poll = { path = "/repo/net/poll" }
nakamoto-client = { path = "/repo/client" }
fastrand = "1.3.5"
[profile.dev]
debug = false
T
cd "$s" && CARGO_TARGET_DIR="$s/target" cargo build --offline --quiet || exit 2
SCRATCH="$s" timeout 120 "$s/target/debug/demo"
