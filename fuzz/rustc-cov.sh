#!/bin/bash
# RUSTC_WRAPPER: coverage counters in the crate under test only.
rustc=$1; shift
prev=; name=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  netcdf3)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
      -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
