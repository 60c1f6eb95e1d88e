#!/bin/bash
# Builds every harness binary once (the checks rebuild incrementally from /repo's current tree).
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
for c in harness*; do
  (cd "$c" && cargo build --offline --quiet --bins --target-dir ../.build/target) || exit 1
done
