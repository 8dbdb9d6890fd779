#!/bin/bash
# Instruments the runtime (and nothing else) with a call at every basic block, and switches its hook on.
r="$1"; shift
case " $* " in
  *" --crate-name oak_runtime "*) exec "$r" "$@" --cfg oak_sim -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$r" "$@" ;;
esac
