#!/bin/bash
# coverage.sh [SECONDS]: which code of the library the searches of all properties reach (SECONDS for each); a report on what they do not reach
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
W=$(mktemp -d /tmp/dsim-cov-XXXX)
trap 'rm -rf "$W"' EXIT
bin=$(DSIM_COVERAGE=1 "$V/sim/build.sh" "$R" "$W/build") || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])"); do
    LLVM_PROFILE_FILE="$W/prof/$p-%8m.profraw" "$bin" check --property $p --time ${1:-10} --out "$W/e.json" --replays "$W/rep" > /dev/null 2>&1
done
llvm-profdata-18 merge -o "$W/all.prof" "$W"/prof/*.profraw || llvm-profdata merge -o "$W/all.prof" "$W"/prof/*.profraw || exit 2
cov=llvm-cov-18; command -v $cov > /dev/null || cov=llvm-cov
$cov report "$bin" -instr-profile="$W/all.prof" "$R/code" "$R/v1compat/code"
$cov show "$bin" -instr-profile="$W/all.prof" -show-regions -show-line-counts-or-regions "$R/code" "$R/v1compat/code" > ${OUT:-/tmp/dsim-coverage.txt}
