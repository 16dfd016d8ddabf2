#!/bin/bash
# builds main.rs against the repository in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1 || true
repo="${DEMO_REPO:-/repo}"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/" 2>/dev/null || true
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nsymb_anafis = { path = "%s", features = ["parallel"] }\n[workspace]\n' "$repo" > "$d/Cargo.toml"
cd "$d"
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q >"$d/build.log" 2>&1 || { cat "$d/build.log"; exit 99; }
timeout 120 "$d/target/debug/demo"
