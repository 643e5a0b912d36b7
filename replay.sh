#!/bin/bash
# replay.sh FILE : re-execute a replay file exactly; exit 1 if it fails again.
ROOT=$(cd "$(dirname "$0")" && pwd)
id=$(sed -n 's/^property //p' "$1" | head -1)
case "$id" in
  C01|C02|C03|C04|C05|C06) bin=core ;;
  *) bin=full ;;
esac
"$ROOT/build.sh" $bin >/dev/null 2>&1 || { echo "ERROR: build failed"; exit 2; }
exec "$ROOT/target/debug/sim$bin" replay "$1"
