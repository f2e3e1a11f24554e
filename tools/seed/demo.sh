#!/bin/bash
# Runs main.rs against the crate in the current directory; 0 = behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$here/mock.rs" "$w/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
async-smtp = { path = "$repo" }
tokio = { version = "1", features = ["io-util"] }
anyhow = "1"
[workspace]
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" timeout 250 cargo run -q --offline
