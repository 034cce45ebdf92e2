#!/bin/bash
# builds the same harness on the unmodified crate, for replay
. /verif/engine/env.sh
set -e
export RUSTUP_TOOLCHAIN=$STABLE
export CARGO_TARGET_DIR=/verif/target/native
cd /verif/harness/native
cargo clean --offline -q -p ncas -p harness 2>/dev/null || true
cargo build --offline
