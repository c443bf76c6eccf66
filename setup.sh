#!/bin/bash
# Builds the checkers (offline) against /repo's current tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
# modelstd implements Arc with std's own unstable attributes (dropck, unsizing).
export RUSTC_BOOTSTRAP=modelstd
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
cargo build --offline --manifest-path harness/Cargo.toml || exit 1
if [ -d mc ]; then cargo build --offline --manifest-path mc/Cargo.toml || exit 1; fi
cargo build --offline --manifest-path tls/Cargo.toml || exit 1
