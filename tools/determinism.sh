#!/bin/bash
# determinism.sh [PROPERTY...]: the same seeds in fresh interpreters with other worker counts and hash seeds must give
# the same event logs, run by run.
here=$(cd "$(dirname "$0")/.." && pwd)
out=$(mktemp -d) || exit 2
props=${*:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19}
rc=0
for p in $props; do
    for seed in 1 77; do
        n=0
        for conf in "8 0" "3 1" "1 12345"; do
            set -- $conf
            n=$((n + 1))
            SIM_HASHES=$out/$n.json PYTHONHASHSEED=$2 "$here/check" "$p" --seed $seed --runs ${RUNS:-60} --wall 120 --jobs "$1" >"$out/log" 2>&1 ||
                { echo "$p seed $seed conf '$conf': check failed"; tail -3 "$out/log"; rc=1; }
        done
        /opt/venv/bin/python - "$p" $seed "$out" <<'P' || rc=1
import json, sys
p, seed, out = sys.argv[1:]
a = [json.load(open(f"{out}/{n}.json")) for n in (1, 2, 3)]
common = set(a[0]) & set(a[1]) & set(a[2])
bad = [i for i in sorted(common, key=int) if len({x[i] for x in a}) > 1]
print(f"{p} seed {seed}: {len(common)} runs compared, {len(bad)} differ {bad[:5]}")
sys.exit(bool(bad))
P
    done
done
rm -rf "${out:?}"
exit $rc
