#!/bin/bash
# for every planted bug (or those named): apply it to a scratch copy of /repo and run its property's quick check there
# usage: tools/seeded.sh [ID...]
cd "$(dirname "$0")/.."
IDS=("$@"); [ ${#IDS[@]} -eq 0 ] && IDS=($(ls seeded))
for id in "${IDS[@]}"; do
    W=$(mktemp -d /tmp/seeded.XXXXXX)
    cp -a /repo "$W/repo"
    git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$W"; continue; }
    P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    T0=$SECONDS
    VERIF_REPO="$W/repo" VERIF_OUT="$W" timeout 900 python3 check.py "${PROP:-$P}" quick > "$W/out" 2>&1
    RC=$?
    echo "$id: ${PROP:-$P} rc=$RC $((SECONDS-T0)) s  $(grep -m1 VIOLATION "$W/out") $(grep -m1 -i -E 'runs' "$W/out" | cut -c1-100)"
    rm -rf "$W"
done
