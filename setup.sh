#!/bin/bash
# Builds all harnesses once (each check rebuilds the crate under test anyway).
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
for c in mc mc-sched; do
  CARGO_TARGET_DIR="$PWD/.build/$c" cargo build --offline --locked --release --manifest-path "$c/Cargo.toml" || exit 1
done
