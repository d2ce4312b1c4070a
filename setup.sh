#!/bin/bash
# builds the MIR dump and the scenario runner from /repo's current source
cd "$(dirname "$0")" && mkdir -p .build evidence && tools/build_mir.sh "$PWD/.build/mir.json" > .build/mir.log 2>&1 && tools/build_harness.sh > .build/harness.log 2>&1
