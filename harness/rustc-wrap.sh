#!/bin/sh
# RUSTC_WRAPPER: instruments only the crate under test (edge counters), leaves
# every other crate alone. $1 is rustc.
rustc="$1"; shift
case " $* " in
  *" --crate-name onenote_parser "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
