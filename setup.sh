#!/bin/bash
# builds every harness from the committed files
cd "$(dirname "$0")" || exit 2
for p in h-*; do [ -f $p/Cargo.toml ] && { bash build.sh $p || exit 1; }; done
exit 0
