#!/bin/bash
# Build every check once, offline, from the committed files and /repo's working tree.
cd "$(dirname "$0")/harness" || exit 1
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --release --offline --bins || exit 1
cargo build --profile sched --offline --bin c28
