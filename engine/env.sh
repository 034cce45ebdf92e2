# pinned toolchain and offline settings for everything under /verif/engine
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
NIGHTLY=nightly-x86_64-unknown-linux-gnu
STABLE=stable-x86_64-unknown-linux-gnu
