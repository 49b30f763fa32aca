#!/bin/bash
# Adds the coverage callbacks (the scheduler's preemption points) to the library under test and to
# the executor crate that instantiates its generics; every other crate is compiled as is.
rustc="$1"; shift
case " $* " in
  *" --crate-name geokit "*|*" --crate-name geoexec "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *" --crate-name geosim "*) exec "$rustc" "$@" -Crelocation-model=static ;; # fixed addresses
  *) exec "$rustc" "$@" ;;
esac
