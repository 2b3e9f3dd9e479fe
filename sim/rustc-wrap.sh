#!/bin/bash
# cargo's RUSTC_WRAPPER: instruments only the crate under test with SanitizerCoverage
# callbacks (control-flow edges, comparisons with constants, loads and stores).  The simulator
# implements the callbacks: they are its step clock, its preemption points and its
# coverage measure.  Every other crate is compiled as is.
rustc="$1"; shift
case " $* " in
  *" --crate-name dbus_message_parser "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Cllvm-args=-max-loads-per-memcmp=0 ;;
  *) exec "$rustc" "$@" ;;
esac
