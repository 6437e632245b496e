#!/bin/bash
# Cargo calls this as: rustc-wrap.sh <rustc> <args...>.
# Every RustQuant crate and the scenario crate get a callback before each basic block
# and each memory load/store: these are the simulator's preemption points.
name=
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name=$a; break; fi
  prev=$a
done
case "$name" in
  RustQuant_*|dst)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$@" ;;
esac
