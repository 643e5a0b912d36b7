#!/bin/bash
# Runs the project's whole test suite (unit, integration and doc tests, every
# feature) against the vendored stand-ins, in a scratch copy of /repo: this is
# how the stand-ins themselves are validated. Not a registered check.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
SRC=${1:-/repo}
rm -rf /tmp/rm-repo-tests
mkdir -p /tmp/rm-repo-tests/r/.cargo
cp -r "$SRC/Cargo.toml" "$SRC/src" "$SRC/tests" "$SRC/examples" /tmp/rm-repo-tests/r/
sed "s#\.\./vendor#$ROOT/vendor#" "$ROOT/sim/.cargo/config.toml" > /tmp/rm-repo-tests/r/.cargo/config.toml
cp "$ROOT/tools/repo_tests.lock" /tmp/rm-repo-tests/r/Cargo.lock
cd /tmp/rm-repo-tests/r && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/rm-repo-tests/target \
    cargo test --offline --locked --no-fail-fast --features "stats datasets"
status=$?
cd / && rm -rf /tmp/rm-repo-tests
exit $status
