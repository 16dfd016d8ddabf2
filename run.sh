#!/bin/bash
# Usage: run.sh <property-bin> [args]   (builds the check against /repo's working tree, then runs it)
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
PROFILE=${VCHK_PROFILE:-release}
bin=$1; shift
log=$(mktemp)
if ! cargo build --offline --quiet --profile "$PROFILE" --manifest-path harness/Cargo.toml --bin "$bin" >"$log" 2>&1; then
  grep -E "^error" -A8 "$log" | head -40 >&2
  echo "check error: the harness does not build against /repo" >&2
  rm -f "$log"; exit 2
fi
rm -f "$log"
exec harness/target/$PROFILE/"$bin" "$@"
