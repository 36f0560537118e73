#!/bin/bash
# applies each planted bug to /repo, runs the check of its property, undoes it:  tools/runseeds.sh [id ...]
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
    s=$(date +%s); out=$(python3-vt check.py "$p" 2>&1); c=$?; e=$(date +%s)
    git -C /repo checkout -q -- .
    echo "$i $p exit $c $((e-s))s: $(echo "$out" | tail -2 | tr '\n' ' ' | cut -c1-260)"
done
