#!/bin/bash
# builds the symbolic harness: ncas's MIR, rewritten by the driver, linked with the runtime
. /verif/engine/env.sh
set -e
export RUSTUP_TOOLCHAIN=$NIGHTLY
(cd /verif/engine/driver && CARGO_TARGET_DIR=/verif/target/driver cargo build --release --offline -q)
NL=$(rustc --print sysroot)/lib
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib
export LD_LIBRARY_PATH=$NL
export RUSTC_WRAPPER=/verif/target/driver/release/symdriver
STAMP=$(sha256sum /verif/target/driver/release/symdriver | cut -c1-16)
export RUSTFLAGS="-Cmetadata=$STAMP -Zshare-generics=n -Ccodegen-units=8 --cap-lints=allow -Clink-arg=-Wl,-rpath,$Z3D -Alinker-messages"
export SYM_FN_TABLE=/verif/target/sym/functions.txt
mkdir -p /verif/target/sym
: > $SYM_FN_TABLE
cd /verif/harness/sym
# whatever the time stamps say, the crate under test is compiled again
CARGO_TARGET_DIR=/verif/target/sym cargo clean --offline -q -p ncas -p harness 2>/dev/null || true
CARGO_TARGET_DIR=/verif/target/sym cargo build --offline
