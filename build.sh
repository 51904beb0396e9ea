#!/bin/bash
# build.sh <package>: build a harness against /repo's working tree
set -e
cd "$(dirname "$0")/$1"
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg vp_hooks -Awarnings"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET
exec cargo build --offline --release --quiet
