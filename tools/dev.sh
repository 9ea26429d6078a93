#!/bin/bash
# dev.sh [-s seed] [-p profile] props... : build and run checks quickly during development
cd /verif
seed=1; prof=release; scale=1
while getopts s:p:f: o; do case $o in s) seed=$OPTARG;; p) prof=$OPTARG;; f) scale=$OPTARG;; esac; done; shift $((OPTIND-1))
export CARGO_TARGET_DIR=/verif/target
(cd harness && cargo build --profile $prof --offline 2>&1 | grep -E '^error' -A12)
for p in "$@"; do mkdir -p work/$p; echo "== $p"; timeout 850 target/$prof/vh run $p --seed $seed --scale $scale --work work/$p --out work/$p/stats.json; echo rc $?; python3 - $p <<'PY'
import json,sys
d=json.load(open(f'/verif/work/{sys.argv[1]}/stats.json'))
print(round(d['wall_s'],1),'BUDGET' if d['budget_hit'] else '')
for k,a in d['arms'].items(): print(k,a['cases'],a['evaluations'],a['distinct_nontrivial'],str(a['slowest_case_ms'])+'ms',a['classes'])
for f in d['failures'][:2]: print(json.dumps(f)[:1800])
PY
done
