#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it:
# 0 if the property holds in what it tries.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/work"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/common.rs" "$tmp/src/common.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "vh"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rusty-git = { path = "$repo" }
libc = "0.2"
serde_json = "1"
flate2 = "1"
sha-1 = "0.9"
[profile.dev]
debug = false
debug-assertions = true
overflow-checks = true
incremental = false
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" 2> "$tmp/log" || { cat "$tmp/log"; exit 99; }
cd "$tmp/work" && "$tmp/target/debug/vh" "$tmp/work"
