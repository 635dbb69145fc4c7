#!/bin/bash
# Determinism of the simulator itself: the same seed must give the same executions, whatever the
# number of worker processes. usage: selftest.sh [PROP...]
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$here/target/build"
rc=0
mkdir -p "$out"
"$here/bin/build.sh" "$out" >/dev/null || exit 3
for p in ${*:-C01 C02 C03 C04 C06 C08 C10 C11 C12}; do
    for run in "8 a" "8 b" "5 c"; do
        set -- $run
        scratch="$here/target/selftest-$2"
        mkdir -p "$scratch/evidence"
        cp "$here/known-findings.txt" "$scratch/"
        "$out/sim" check --prop "$p" --mods "$out/mods" --src /repo/libm/src --verif "$scratch" --tier quick --seed 7 \
            --jobs "$1" --secs 600 --configs "$(cd "$out/mods" && ls *.so | grep -v '\.b\.so' | sed 's/\.so//' | tr '\n' ' ')" >/dev/null || rc=1
        python3 - "$scratch/evidence/$p.json" >"$scratch/$p.txt" <<'P'
import json, sys
e = json.load(open(sys.argv[1]))
c = e["coverage"]
keep = {"evaluations": c["evaluations"], "distinct": c["distinct_nontrivial"]}
for part in ("counters", "faults_fired"):
    for k, v in c.get(part, {}).items():
        if "millisecond" not in k and "per_hour" not in k:
            keep[k] = v
for k in sorted(keep):
    print(k, keep[k])
P
    done
    d="$here/target/selftest"
    if cmp -s "$d-a/$p.txt" "$d-b/$p.txt"; then echo "$p: two runs with 8 workers agree on every counter"; else echo "$p: TWO RUNS DIFFER"; diff "$d-a/$p.txt" "$d-b/$p.txt"; rc=1; fi
    if cmp -s "$d-a/$p.txt" "$d-c/$p.txt"; then echo "$p: 5 workers agree with 8"; else echo "$p: 5 workers searched other operands (the coverage-guided search is divided among the workers): $(diff "$d-a/$p.txt" "$d-c/$p.txt" | grep -c "^<") counters differ"; fi
done
rm -rf -- "$here/target/selftest-a" "$here/target/selftest-b" "$here/target/selftest-c"
exit $rc
