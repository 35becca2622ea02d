#!/bin/bash
# Build the harness against /repo's working tree and run one check: run.sh <property> [options]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id=$1; shift
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true VERIF_ROOT=$PWD
case $id in
  F*|D*) crate=harness_aux ;;
  U*) crate=harness_ui ;;
  *) crate=harness ;;
esac
log=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path $crate/Cargo.toml >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against this tree"
  exit 2
fi
rm -f "$log"
exec ./$crate/target/release/check --property "$id" "$@"
