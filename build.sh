#!/bin/bash
# build.sh core|full : build a simulation binary against /repo's working tree.
set -e
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export PATH=$CARGO_HOME/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTC_WORKSPACE_WRAPPER
ROOT=$(cd "$(dirname "$0")" && pwd)
export RUSTC_WRAPPER=$ROOT/sim/rustc-wrap.sh
export CARGO_TARGET_DIR=$ROOT/target
cd "$ROOT/sim/$1"
mkdir -p "$ROOT/target/debug"
exec 9>"$ROOT/target/.lock"
flock 9
# Recompile what comes from /repo whatever its modification times say.
for d in "$ROOT"/target/debug/.fingerprint/sut-* "$ROOT"/target/debug/.fingerprint/rusty-machine-*; do
  case "$1:$d" in
    core:*/sut-*|full:*/rusty-machine-*) rm -rf "$d" ;;
  esac
done
cargo build --offline --locked 2>&1
