#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
deflate = { path = "$R", features = ["gzip"] }
gzip-header = "1"
miniz_oxide = "0.5"
[workspace]
EOF
cd "$T"
[ -e /opt/vp/Cargo.lock ] && cp /opt/vp/Cargo.lock "$T/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
unset RUSTFLAGS RUSTC_WRAPPER
cargo build -q --offline || exit 3
timeout 200 "$T/target/debug/demo"
