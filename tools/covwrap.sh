#!/bin/bash
# RUSTC_WRAPPER of the profile "guided": coverage counters in the library and the harness.
for a in "$@"; do
  if [ "$p" = --crate-name ] && { [ "$a" = deflate ] || [ "$a" = vh ]; }; then
    exec "$@" --cfg guided -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
  fi
  p=$a
done
exec "$@"
