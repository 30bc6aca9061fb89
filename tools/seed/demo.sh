#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it: 0 = property holds in this scenario.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
divans = { path = "$repo" }
brotli = "3"
alloc-no-stdlib = "2"
alloc-stdlib = "0.2"
[profile.dev]
opt-level = 1
debug = 0
X
cd "$t" || exit 3
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$t/target"
cargo build --offline --quiet 2>"$t/log" || { tail -20 "$t/log"; exit 0; }
timeout 120 "$t/target/debug/demo"
