#!/bin/sh
# Builds the harness against /repo's current tree (checks do the same when they start).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml 2>/dev/null
for m in spec/*.tla; do
  case $m in *Mutant*) ;; *) (cd spec && tla-sany "$(basename "$m")" >/dev/null) ;; esac
done
