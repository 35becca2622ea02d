#!/bin/bash
# Builds demo.rs against the library in the current directory (/repo) inside a scratch directory and
# runs it: exit 0 when the behaviour shown is right, nonzero when it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'find "$work" -delete' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cavalier_contours = { path = "$repo/cavalier_contours"@FEATURES@ }
@DEPS@
[profile.release]
debug-assertions = false
opt-level = 1
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=1.85.0
cd "$work" || exit 3
cargo build -q --offline --release || exit 4
timeout 120 "$work/target/release/demo"
