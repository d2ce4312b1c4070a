#!/bin/bash
# Builds the dependencies and dumps the MIR of the code in /repo to $1 (JSON).
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
SRC=${MIR_PROBE:-$HERE/probe}
NAME=$(basename "$SRC")
OUT=$(realpath -m "${1:?}")
B=$HERE/.build
mkdir -p "$B/$NAME"
export CARGO_NET_OFFLINE=true
NIGHTLY_RUSTC=$(rustup which --toolchain nightly rustc)
export NIGHTLY_RUSTC
SYSROOT=$("$NIGHTLY_RUSTC" --print sysroot)
CARGO="$SYSROOT/bin/cargo"
unset RUSTUP_TOOLCHAIN
if [ ! -x "$B/mirdump/release/mirdump" ] || [ "$HERE/mirdump/src/main.rs" -nt "$B/mirdump/release/mirdump" ]; then
  (cd "$HERE/mirdump" && RUSTFLAGS="" RUSTC="$NIGHTLY_RUSTC" "$CARGO" build --offline --release --target-dir "$B/mirdump" >&2)
fi
rsync_copy() { mkdir -p "$2"; for f in $(cd "$1" && find . -type f -not -name Cargo.lock); do if ! cmp -s "$1/$f" "$2/$f"; then mkdir -p "$(dirname "$2/$f")"; cp "$1/$f" "$2/$f"; fi; done; }
rsync_copy "$SRC" "$B/$NAME"
cp /repo/Cargo.lock "$B/$NAME/Cargo.lock"
export MIRDUMP_BIN=$B/mirdump/release/mirdump MIRDUMP_OUT=$OUT MIRDUMP_CFG=$SRC/cfg.txt
export LD_LIBRARY_PATH=$SYSROOT/lib
export RUSTC=$HERE/mirdump/rustc-shim RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
rm -f "$OUT"
touch "$B/$NAME/src/lib.rs"
cd "$B/$NAME"
"$CARGO" check --offline --target-dir "$B/$NAME-target" >&2
test -s "$OUT"
