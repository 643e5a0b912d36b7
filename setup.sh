#!/bin/bash
# Build everything once, so that later checks only rebuild what /repo changed.
cd "$(dirname "$0")" || exit 1
./build.sh core || exit 1
if [ -f sim/full/Cargo.toml ]; then ./build.sh full || exit 1; fi
