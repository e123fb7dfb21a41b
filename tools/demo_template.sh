#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it; exit 0: the property held
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
{
    echo '[package]'
    echo 'name = "demo"'
    echo 'version = "0.1.0"'
    echo 'edition = "2021"'
    echo '[dependencies]'
    echo "dcv-color-primitives = { path = \"$R\"FEATURES }"
    echo '[workspace]'
} > "$T/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$T/target"
cargo build --release --offline --manifest-path "$T/Cargo.toml" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 1; }
timeout 200 "$T/target/release/demo"
