#!/bin/bash
# rustc wrapper: the crates under test are compiled with sanitizer-coverage callbacks, so
# that every basic block and every memory access in them is a point where the simulator
# may take the processor away. Coverage does not see atomic operations; the second pass turns
# those into calls (and only those: no function carries the attribute that would make it treat
# plain accesses). Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
 rlibphonenumber|dashmap|subject)
  exec "$rustc" "$@" -Cforce-frame-pointers=yes -Cpasses="function(tsan) sancov-module" -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-sanitizer-coverage-level=3 \
   -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
   -Cllvm-args=-sanitizer-coverage-trace-stores;;
 *) exec "$rustc" "$@" -Cforce-frame-pointers=yes;;
esac
