#!/bin/sh
# RUSTC_WRAPPER: instruments only the crates under test with edge callbacks, so
# that every control-flow edge of wruster is a preemption point the simulator owns.
rustc="$1"; shift
case " $* " in
  *" --crate-name wruster "*|*" --crate-name wruster_handlers "*|*" --crate-name wrustatic_prog "*|*" --crate-name wrusdummy_prog "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
