#!/bin/sh
# RUSTC_WRAPPER of the guided build: instruments the library and the harness, nothing else
case " $* " in
  *" --crate-name algeo "*|*" --crate-name algeo_check "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
