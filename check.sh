#!/bin/bash
# check.sh ID : decide one property on /repo's working tree.
ROOT=$(cd "$(dirname "$0")" && pwd)
case "$1" in
  C01|C02|C03|C04|C05|C06) bin=core ;;
  *) bin=full ;;
esac
log=$(mktemp)
if ! "$ROOT/build.sh" $bin >"$log" 2>&1; then
  grep -A12 '^error' "$log" | head -60
  rm -f "$log"
  echo "ERROR: the simulation does not build against /repo"
  exit 2
fi
rm -f "$log"
export VERIF_ROOT=$ROOT
exec "$ROOT/target/debug/sim$bin" check "$1"
