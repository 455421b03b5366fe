#!/bin/bash
# RUSTC_WRAPPER: adds the simulator's preemption points (sanitizer-coverage callbacks on every
# basic block, load and store) to the crates under test and to the generic code instantiated in
# the harness. Everything else (std, simrt, other dependencies) is compiled as it is.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  trellis|dot_parser|bit_vec|simharness)
    exec "$rustc" "$@" -C embed-bitcode=no -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
