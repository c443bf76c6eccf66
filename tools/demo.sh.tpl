#!/bin/bash
# Runs main.rs against the vinezombie in the current directory; nonzero if the property is broken.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir "$S/src" && cp "$D/main.rs" "$S/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$S/"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vinezombie = { path = "$R", default-features = false, features = ["base64", "client", "serde", "tokio", "tokio-codec"] }
tokio = { version = "1", features = ["io-util", "net", "time", "rt", "sync", "macros"] }
tokio-util = { version = "0.7", default-features = false, features = ["codec"] }
serde_json = "1"
T
export CARGO_TARGET_DIR="$S/target" RUSTFLAGS=-Awarnings
cargo build -q --offline --manifest-path "$S/Cargo.toml" || exit 2
timeout 120 "$S/target/debug/demo"
