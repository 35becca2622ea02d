#!/bin/bash
# catch.sh WORK IDS...: for each seeded bug, which of the checks given by its meta.json (or CHECKS=...) report it.
# WORK holds clones "repo" and "verif" of both repositories (never /repo itself).
W=$1; shift
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true VERIF_ROOT=$W/verif VERIF_SEED=${VERIF_SEED:-1}
for id in "$@"; do
  d=/verif/seeded/$id; git -C $W/repo checkout -q -f . && git -C $W/repo apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
  own=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  hit=""
  for p in ${CHECKS:-$own}; do
    c=harness; case $p in F*|D*) c=harness_aux;; esac
    (cd $W/verif/$c && cargo build --release --offline -q 2>/dev/null) || { hit="$hit $p:nobuild"; continue; }
    timeout 900 $W/verif/$c/target/release/check --property $p --tier quick > $W/out.$id.$p.txt 2>&1; rc=$?
    [ $rc = 1 ] && hit="$hit $p"; [ $rc -gt 1 ] && hit="$hit $p:rc$rc"
  done
  printf '%s\t%s\t(own %s)\n' "$id" "${hit# }" "$own"
  git -C $W/repo checkout -q -f .
done
