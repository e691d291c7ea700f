#!/bin/sh
# same seeds, other worker counts and hash seeds: per-case logs must agree
cd "$(dirname "$0")/.." || exit 2
T=$(mktemp -d /tmp/snodet.XXXXXX)
rc=0
for p in ${*:-C01 C03 C05 C06 C07 C08 C09 C10 C11 C12 C15 C17}; do
  for s in 1 2; do
    n=${DET_N:-48}
    python3 sim/main.py $p --no-evidence --seed $s --n $n --log $T/a >/dev/null
    SNOSIM_HASHSEED=77 python3 sim/main.py $p --no-evidence --seed $s --n $n --workers 3 --log $T/b >/dev/null
    if cmp -s $T/a $T/b; then echo "$p seed $s: $(wc -l <$T/a) cases identical"
    else echo "$p seed $s: DIFFERENT"; diff $T/a $T/b | head -3; rc=1; fi
  done
done
rm -rf "$T"
exit $rc
