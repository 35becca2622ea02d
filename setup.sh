#!/bin/bash
# Build everything once (the checks rebuild what they need from /repo's current tree).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
for c in harness harness_aux harness_ui; do
  [ -d $c ] || continue
  cargo build --release --offline --quiet --manifest-path $c/Cargo.toml || exit 2
done
