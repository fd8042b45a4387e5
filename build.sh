#!/bin/bash
# build.sh sim|gen : (re)builds one half of the framework from /repo's current working tree.
# Nothing is taken on trust from an earlier build: when the sources differ from the ones the
# last build saw (by content, not by time stamp), the crates made from them are rebuilt.
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
half="$1"
T="$VERIF/target/$half"
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
hash=$( { cd "$REPO" && find src Cargo.toml build.rs -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum
          cd "$VERIF" && find sim/src sim/glue sim/stubs sim/Cargo.toml sim/Cargo.lock sim/rustc-wrap.sh gencrate/src gencrate/Cargo.toml gencrate/Cargo.lock shim -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1 )
cd "$VERIF"
changed=1
[ -f "$T/.built" ] && [ "$(cat "$T/.built")" = "$hash" ] && changed=0
case "$half" in
sim)
  export RUSTC_WRAPPER="$VERIF/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$T"
  cd sim
  if [ $changed = 1 ]; then
    rm -f "$T/.built"
    cargo clean --release --offline -q -p zkevm_opcode_defs -p vglue -p vsim 2>/dev/null || true
  fi
  # the two functions that need SHA-256 are linked through a feature: if a tree does not have
  # them in a usable form, everything else is still simulated
  if ! cargo build --release --offline --locked -q 2>"$T/log"; then
    if ! cargo build --release --offline --locked -q --no-default-features 2>"$T/log2"; then
      cat "$T/log" >&2; echo "build.sh: the simulator does not build against $REPO" >&2; exit 2
    fi
    echo "build.sh: note: built without the bytecode hash functions" >&2
  fi
  ;;
gen)
  export CARGO_TARGET_DIR="$T"
  gcc -shared -fPIC -O1 -Wall -U_FORTIFY_SOURCE -o "$T/simfs.so.new" shim/simfs.c
  mv "$T/simfs.so.new" "$T/simfs.so"
  cd gencrate
  if [ $changed = 1 ]; then
    rm -f "$T/.built"
    cargo clean --offline -q -p zkevm_opcode_defs -p gencrate 2>/dev/null || true
  fi
  if ! cargo build --offline --locked -q 2>"$T/log"; then
    cat "$T/log" >&2; echo "build.sh: the generator does not build against $REPO" >&2; exit 2
  fi
  ;;
*) echo "build.sh sim|gen" >&2; exit 2 ;;
esac
echo "$hash" > "$T/.built"
