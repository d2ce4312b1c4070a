#!/bin/bash
# Builds the scenario runner against the code in /repo.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/.build
export CARGO_NET_OFFLINE=true
mkdir -p "$B/harness"
for f in Cargo.toml src/main.rs; do mkdir -p "$(dirname "$B/harness/$f")"; cmp -s "$HERE/harness/$f" "$B/harness/$f" || cp "$HERE/harness/$f" "$B/harness/$f"; done
cp /repo/Cargo.lock "$B/harness/Cargo.lock"
cd "$B/harness"
RUSTFLAGS="-Awarnings" cargo build --offline --target-dir "$B/harness-target" >&2
