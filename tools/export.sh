#!/bin/bash
# usage: export.sh OUT.json [scratch target dir]
# Lowers the current /repo working tree to the analyzer's IR.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1
T=${2:-$(mktemp -d)}
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export VEXPORT_OUT=$OUT
export RUSTC_WRAPPER=$V/exporter/target/debug/vexport
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Coverflow-checks=on -Cdebug-assertions=off --cap-lints allow"
export CARGO_TARGET_DIR=$T
H=$V/harness
if [ -n "$VREPO" ]; then
  # Analyse a scratch copy of the repository instead (used when planting bugs).
  mkdir -p "$T/harness" && cp -r "$V/harness/src" "$V/harness/Cargo.toml" "$V/harness/Cargo.lock" "$T/harness/"
  sed -i "s#path = \"/repo\"#path = \"$VREPO\"#" "$T/harness/Cargo.toml"
  H=$T/harness
fi
cd "$H"
cargo +nightly check --offline --locked -q
