#!/bin/bash
# rustc as cargo calls it, with edge counters in the crate under test (see
# harness/src/cov.rs). Without them, should the compiler refuse, the guided
# streams are plain random search.
case " $* " in
  *" --crate-name latex_ast "*)
    "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-inline-8bit-counters 2>/dev/null && exit 0 ;;
esac
exec "$@"
