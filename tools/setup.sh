#!/bin/bash
# Builds the exporter and the analyzer, offline.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
(cd "$V/exporter" && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib cargo +nightly build --offline --locked -q)
(cd "$V/analyzer" && cargo build --release --offline --locked -q)
