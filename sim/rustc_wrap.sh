#!/bin/bash
# RUSTC_WRAPPER: edge instrumentation for the library under test and for the generic library code
# instantiated in the harness binary; nothing else.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      ms_toollib|simcheck|simc|simpy|simjs|ms_wasm)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
