#!/bin/sh
# rustc wrapper: instruments the code under test (and the harness crate that
# monomorphises its generics) with basic-block guards; simcore itself and the
# registry crates stay uninstrumented.
r="$1"; shift
case " $* " in
  *" --crate-name rust_quantlib "*|*" --crate-name dst "*)
    exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$r" "$@"
