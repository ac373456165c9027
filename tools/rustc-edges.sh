#!/bin/bash
# rustc wrapper: instruments the library and the harness that instantiates its
# generics, and nothing else
RUSTC="$1"; shift
case " $* " in
  *" --crate-name mqtt_packet_3_5 "*|*" --crate-name sim "*)
    exec "$RUSTC" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-prune-blocks=0 \
      -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$RUSTC" "$@"
