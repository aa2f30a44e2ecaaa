#!/bin/bash
# builds the monitors once (each check builds what it needs again from /repo's current tree)
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p evidence replays target
(cd mon && cargo build --release --offline --locked --bins)
