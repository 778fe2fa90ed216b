#!/bin/bash
# RUSTC_WRAPPER: instruments the protofish crate, and only it, so that every basic block and
# every memory access of the code under test calls back into the simulator (src/seam.rs).
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = protofish ]; then
    exec "$rustc" "$@" -A warnings -A bindings_with_variant_name \
      -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  prev="$a"
done
exec "$rustc" "$@"
