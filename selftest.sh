#!/bin/bash
# selftest.sh [scale]: is a run a function of its seed only? Every scenario is
# run several times, with different numbers of worker processes and seeds, and
# the digests over all event hashes are compared.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$HERE/target/selftest" SIM_SCALE="${1:-0.05}"
mkdir -p "$VERIF_ROOT/evidence"; cp "$HERE/known-findings.txt" "$VERIF_ROOT/"
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C21 C22 C23 C17; do
  case $p in C17) b=release/simstore;; C09) b=edges/release/sim;; *) b=release/sim;; esac
  for seed in 1 2 77; do
    all=""
    for t in 1 3 8 13 8; do
      d="$(VERIF_SEED=$seed SIM_THREADS=$t "$HERE/target/$b" check $p quick 2>&1 | sed -n 's/.*digest \([0-9a-f]*\).*/\1/p')"
      all="$all $d"
    done
    n="$(echo $all | tr ' ' '\n' | sort -u | wc -l)"
    if [ "$n" = 1 ]; then echo "$p seed $seed ok$(echo $all | cut -c1-20 | sed 's/^/ /')"; else echo "$p seed $seed DIFFERS:$all"; bad=1; fi
  done
done
exit $bad
