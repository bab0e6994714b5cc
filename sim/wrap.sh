#!/bin/bash
# rustc wrapper: instrument the two crates of the library under test, nothing else.
# SIM_SANCOV=edges|mem|none
rustc="$1"; shift
crate= target= prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  [ "$a" = "--target" ] && target=1
  prev="$a"
done
extra=()
if [ -n "$target" ] && { [ "$crate" = libsecp256k1 ] || [ "$crate" = libsecp256k1_core ]; }; then
  case "$SIM_SANCOV" in
    edges) extra=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1) ;;
    mem) extra=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1) ;;
    *) extra=(-Ccodegen-units=1) ;;
  esac
fi
exec "$rustc" "$@" "${extra[@]}"
