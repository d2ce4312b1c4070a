#!/bin/bash
# Dumps the MIR of the idiom batteries (x.rs, y.rs, z.rs) next to that of the probe: .build/idioms.json
set -e
HERE=$(cd "$(dirname "$0")/../.." && pwd)
P=$HERE/.build/src/idiomprobe
mkdir -p "$P"
cp -r "$HERE/probe/." "$P/"
cp "$HERE"/tools/idioms/?.rs "$P/src/"
sed -i "s/^bigint = .*/&\ncw-storage-plus = \"1.0.0\"\ncw2 = \"1.0.0\"\ncw-utils = \"1.0.0\"/" "$P/Cargo.toml"
printf 'pub mod x;\npub mod y;\npub mod z;\n' >> "$P/src/lib.rs"
MIR_PROBE=$P "$HERE/tools/build_mir.sh" "$HERE/.build/idioms.json" > "$HERE/.build/idioms.log" 2>&1 ||
  { grep -E "mirdump:|^error|panicked" -A6 "$HERE/.build/idioms.log" | cut -c1-300 | head -40; exit 1; }
