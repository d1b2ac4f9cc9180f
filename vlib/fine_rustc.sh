#!/bin/sh
# RUSTC_WRAPPER of the `fine` build: the crates under simulation get a call at every basic block, load and store, and
# one in place of every atomic operation
case " $* " in
*" --crate-name phlite "* | *" --crate-name phlite_rips "* | *" --crate-name phlite_grpph "* | *" --crate-name phlite_sim "*)
    exec "$@" -C "passes=sancov-module function(tsan)" -C llvm-args=-sanitizer-coverage-level=2 \
        -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-trace-loads \
        -C llvm-args=-sanitizer-coverage-trace-stores -C llvm-args=-tsan-instrument-memory-accesses=0 \
        -C llvm-args=-tsan-instrument-func-entry-exit=0 -C llvm-args=-tsan-instrument-memintrinsics=0 ;;
esac
exec "$@"
