#!/bin/bash
# usage: emit.sh OUTDIR [extra rustc flags...]   -> OUTDIR/crate.ll : LLVM IR of /repo's current source
# debug info off; no rustc-side LLVM pipeline; then opt's default O1 pipeline (inlining, SROA, GVN) with
# loop unrolling disabled.  Everything downstream reads this file only.
set -e
OUT="$1"; shift
REPO="${VERIF_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="-Cdebuginfo=0 -Awarnings"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$OUT"
cd "$REPO"
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
cargo rustc -q --release --lib --crate-type rlib --offline --target-dir "$OUT/target" -- \
  --emit=llvm-ir -C codegen-units=1 -C no-prepopulate-passes -C debuginfo=0 -C lto=off "$@"
SYS=$(rustc --print sysroot)
LL=$(ls -t "$OUT"/target/release/deps/dcv_color_primitives-*.ll | head -1)
"$SYS/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt" -S -passes='default<O1>' -unroll-runtime=false \
  -unroll-allow-partial=false -disable-loop-idiom-all "$LL" -o "$OUT/crate.ll"
