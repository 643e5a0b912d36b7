#!/bin/bash
# RUSTC_WRAPPER: the code under test (and the simulation binaries, which
# instantiate its generics) gets a callback on every basic block and on every
# load and store, which the simulator uses as scheduling points.
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then name=$a; break; fi
  prev=$a
done
# A missing doc comment in the code under test must not stop a check.
caps="--cap-lints=warn"
case " $* " in *" --cap-lints"*) caps= ;; esac
case "$name" in
  rusty_machine|sut|simcore|simfull)
    exec "$rustc" "$@" $caps -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
