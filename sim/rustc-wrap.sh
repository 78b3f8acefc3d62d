#!/bin/sh
# RUSTC_WRAPPER: instruments the system under test (and the entry point that inlines it), nothing else
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  texture2ddecoder|sut)
    exec "$rustc" "$@" -Cembed-bitcode=no -Ccodegen-units=8 \
      -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
