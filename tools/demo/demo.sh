#!/bin/bash
# Run in the repository root: exit 0 if the library behaves as demanded by demo.rs.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$here/Cargo.lock" "$w/Cargo.lock"
cp "$here/demo.rs" "$w/src/main.rs"
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cd "$w"
cargo build --offline --quiet $DEMO_FEATURES 2>"$w/log" || { cat "$w/log" >&2; exit 3; }
timeout 120 "$w/target/debug/demo"
