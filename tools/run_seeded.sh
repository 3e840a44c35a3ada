#!/bin/bash
# run_seeded.sh [id...]: apply each planted bug to /repo, run the check of its property, undo it
cd "$(dirname "$0")/.." || exit 3
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
    p=$(python3 -c "import json; print(json.load(open('seeded/$b/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
    s=$(date +%s)
    out=$(./run_check.sh "$p" quick 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' <<<"$out") $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-150)"
done
