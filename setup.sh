#!/bin/bash
# Builds the harness (all check binaries) against /repo's working tree.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p evidence replays
cargo build --offline --quiet --release --manifest-path harness/Cargo.toml --bins
echo setup done
