#!/bin/bash
# soak.sh <cases> <seeds...> -- <properties...>: failure statistics over several seeds, no evidence written
n=$1; shift; seeds=(); while [ "$1" != "--" ]; do seeds+=("$1"); shift; done; shift
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true VERIF_ROOT=$PWD
for c in harness harness_aux; do [ -d $c ] && (cargo build --release --offline -q --manifest-path $c/Cargo.toml || exit 2); done
for p in "$@"; do c=harness; case $p in F*|D*) c=harness_aux;; esac
 for s in "${seeds[@]}"; do VERIF_SEED=$s ./$c/target/release/check --property $p --cases $n --stats --max-fails 1000000 | cut -c1-500 | sed "s/^/$p seed=$s /"; done; done
