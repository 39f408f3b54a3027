#!/bin/bash
# Builds the explorers (mc: the library itself, mcb: its bevy and svg back ends) from the committed files (offline). The checks rebuild it themselves when needed.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$HERE/target"
(cd "$HERE/mc" && cargo build --release --offline --quiet) && (cd "$HERE/mcb" && cargo build --release --offline --quiet)
