#!/bin/bash
# One property check: builds the code under test from /repo's working tree, then searches.
# usage: check.sh PROPERTY [quick|thorough]        (environment: VERIF_SEED, VERIF_TIER)
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
out="$here/target/build"
mkdir -p "$out"
# one build at a time
exec 9>"$out/.lock"
flock 9
"$here/bin/build.sh" "$out" || exit 3
run="$here/target/use-$prop-$$"
mkdir -p "$run"
cp -r "$out/mods" "$run/mods" && cp "$out/sim" "$run/sim" || exit 3
exec 9>&-
if [ "$tier" = thorough ]; then secs="${VERIF_SECS:-1000}"; else secs="${VERIF_SECS:-100}"; fi
jobs="${VERIF_JOBS:-$(nproc)}"
"$run/sim" check --prop "$prop" --mods "$run/mods" --src /repo/libm/src --verif "$here" --tier "$tier" \
    --seed "$seed" --jobs "$jobs" --secs "$secs" --configs "$(cd "$run/mods" && ls *.so | grep -v '\.b\.so' | sed 's/\.so//' | tr '\n' ' ')"
rc=$?
rm -rf -- "$here/target/use-$prop-$$"
exit $rc
