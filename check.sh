#!/bin/bash
# check.sh C07            run the check of property C07 (tier from VERIF_TIER)
# check.sh C07 replay K   run one case again
# Builds the check from /repo's working tree.  Exit 2: no answer (build failure).
cd "$(dirname "$0")/harness" || exit 2
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
bin=$(echo "$1" | tr A-Z a-z)
profile=release
[ "$bin" = c28 ] && profile=sched
if ! out=$(cargo build --profile $profile --offline --bin "$bin" 2>&1); then
    echo "$out" | tail -40
    echo "check.sh: build failed"
    exit 2
fi
exec ./target/$profile/"$bin" "${@:2}"
