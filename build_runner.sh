#!/bin/bash
# usage: build_runner.sh [profile]   builds the replay runner against /repo's working tree
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
cd "$(dirname "$0")/runner" && exec cargo build -q --offline --profile "${1:-release}" ${3---features sets} --target-dir "${2:-/verif/.build/runner}"
