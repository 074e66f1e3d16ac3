#!/bin/bash
# usage: check.sh <property id> [replay <file>]
# Rebuilds the harness of one property against /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error.
cd "$(dirname "$0")" || exit 2
export MC_VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_INCREMENTAL=0
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
crate=mc; [ -f "mc-sched/src/bin/$bin.rs" ] && crate=mc-sched
export CARGO_TARGET_DIR="$PWD/.build/$crate"
mkdir -p "$CARGO_TARGET_DIR" evidence
log="$CARGO_TARGET_DIR/build-$bin.log"
# never trust timestamps of a copied tree: always recompile the crate under test
cargo clean --offline --release -p rusty-source-map --manifest-path "$crate/Cargo.toml" >/dev/null 2>&1
if ! cargo build --offline --locked --release --manifest-path "$crate/Cargo.toml" --bin "$bin" >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "build of the $id harness failed" >&2
  exit 3
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
