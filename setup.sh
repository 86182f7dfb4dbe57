#!/bin/bash
# Builds the MIR dumper (offline).
set -e
cd "$(dirname "$0")/driver"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/driver cargo +nightly build --release --offline
