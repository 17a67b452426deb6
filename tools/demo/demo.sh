#!/bin/bash
# builds the sources in /repo into a scratch folder with the program beside this file and runs it; exits 0 when what it shows holds
set -eu
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
tar xzf "$here/lib.tgz" -C "$w"
mkdir -p "$w/demo/src"
cp "$here/demo.rs" "$w/demo/src/main.rs"
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
cd "$w/demo"
cargo build --locked -q 2> "$w/log" || { tail -40 "$w/log"; exit 3; }
"$w/target/debug/demo"
