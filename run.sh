#!/bin/bash
# run.sh <property>      check one property (tier and seed from VERIF_TIER, VERIF_SEED)
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed
cd "$(dirname "${BASH_SOURCE[0]}")" && . ./env.sh
P="$1"; TIER="${VERIF_TIER:-quick}"; SEED="${VERIF_SEED:-1}"
case "$SEED" in ''|*[!0-9]*) echo "run.sh: bad VERIF_SEED" >&2; exit 2;; esac
case "$P" in
  C01|C02|C03|C04|C05|C06|C07|C11|C12|C13|C14|C15) half=sim ;;
  C08|C09|C10) half=gen ;;
  *) echo "run.sh: unknown property $P" >&2; exit 2 ;;
esac
bash build.sh $half || exit 2
# quick: a fixed number of runs (so the seed alone decides what is explored); the cap only
# guards against a machine that is much slower than expected
case "$P" in
  C01) q=3000 t=120000 ;; C02) q=4000 t=150000 ;; C03) q=3000 t=150000 ;; C04) q=3000 t=150000 ;;
  C05) q=2000 t=60000 ;;  C06) q=2000 t=150000 ;; C07) q=3000 t=200000 ;; C11) q=10000 t=1000000 ;;
  C12) q=10000 t=1000000 ;; C13) q=10000 t=1000000 ;;
  C14) q=3000 t=150000 ;; C15) q=4000 t=200000 ;;
  *) q=60000 t=2000000 ;;
esac
if [ "$TIER" = thorough ]; then runs=$t cap=3600; else TIER=quick runs=$q cap=420; fi
runs="${VERIF_RUNS:-$runs}" cap="${VERIF_CAP:-$cap}"
W=$(nproc); [ "$W" -gt 8 ] && W=8
mkdir -p evidence replays work
base=/dev/shm; { [ -d $base ] && [ -w $base ]; } || base="$VERIF/work"
S=$(mktemp -d "$base/vsim.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
while read -r line; do
  case "$line" in "known: property=$P "*) echo "KNOWN-FINDING: property=$P ${line#"known: property=$P "}" ;; esac
done < known-findings.txt
if [ $half = sim ]; then
  target/sim/release/vsim check --property "$P" --tier "$TIER" --seed "$SEED" --runs "$runs" --cap "$cap" \
    --workers "$W" --evidence "$VERIF/evidence/$P.json" --replays "$VERIF/replays" --scratch "$S"
else
  target/gen/debug/simfs check --property "$P" --tier "$TIER" --seed "$SEED" --runs "$runs" --cap "$cap" \
    --workers "$W" --gen "$VERIF/target/gen/debug/gen_under_test" --shim "$VERIF/target/gen/simfs.so" \
    --evidence "$VERIF/evidence/$P.json" --replays "$VERIF/replays" --scratch "$S"
fi
