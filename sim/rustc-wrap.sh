#!/bin/bash
# RUSTC_WRAPPER: the crate under test and the lazy initialisation crates it may use get a
# callback on every basic block, load and store (a possible preemption point each). The passes
# that would fold a store and a later load of the same static into nothing stay off: another
# thread may come between the two.
rustc="$1"; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name="$a"; prev="$a"; done
case "$name" in
  zkevm_opcode_defs|vglue|lazy_static|spin|once_cell)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-opt-disable=globalopt,early-cse,gvn,dse,instcombine,licm -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
