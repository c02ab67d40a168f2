#!/bin/bash
# Run with cwd = the repository. Exits 0 when the behaviour is as it should be.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$here/h.rs" "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
spdm = { path = "$repo", features = ["crypto-ring"] }
test-utils = { path = "$repo/test-utils" }
rcgen = "0.8.14"
T
cp "$repo/spdm-config-crypto.toml" "$work/config.toml"
[ -f "$here/config.toml" ] && cp "$here/config.toml" "$work/config.toml"
export SPDM_CONFIG="$work/config.toml" CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH RUSTFLAGS=-Awarnings
cd "$work"
cargo build --offline -q
timeout 120 "$work/target/debug/demo"
