#!/bin/bash
# check.sh PROPERTY TIER: builds the explorer against /repo's working tree and runs one property.
# Exit 0: held on everything explored; exit 1: a VIOLATION line was printed; 2: no answer (build failure).
HERE="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"; TIER="${2:-quick}"
case "$PROP" in B0*|V0*|F0*) CRATE=mcb ;; *) CRATE=mc ;; esac
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$HERE/target" MC_ROOT="$HERE"
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$HERE/evidence" "$HERE/replays"
LOG="$HERE/replays/build-$PROP.log"
if ! (cd "$HERE/$CRATE" && cargo build --release --offline --quiet) >"$LOG" 2>&1; then
  tail -40 "$LOG"
  echo "the explorer does not build against /repo's working tree (see $LOG)"
  exit 2
fi
ulimit -v 26000000 2>/dev/null
exec "$HERE/target/release/$CRATE" "$PROP" "$TIER"
