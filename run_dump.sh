#!/bin/bash
# Dumps the resolved MIR of /repo's current source (through the probe crate) to $1 (directory).
# $2: extra rustc flags, $3: extra cargo arguments (the configurations C31 compares).
set -e
out="$1"; here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$out"; out="$(cd "$out" && pwd)"
export CARGO_NET_OFFLINE=true
LIB="$(rustc +nightly --print sysroot)/lib"
rm -rf "$out/target" "$out/mir.json" "$out/api.json"
cd "$here/probe"
MIRDUMP_OUT="$out/mir.json" MIRDUMP_API_OUT="$out/api.json" LD_LIBRARY_PATH="$LIB" \
RUSTC_WRAPPER="$here/build/driver/release/mirdump" \
RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings ${2:-}" CARGO_TARGET_DIR="$out/target" \
cargo +nightly check --offline ${3:-} 2>"$out/log" || { cat "$out/log"; exit 3; }
rm -rf "$out/target"
