#!/bin/bash
# runs every registered check, for the given seeds
cd "$(dirname "$0")/.."
for s in ${@:-1}; do
    for c in $(python3 -c 'import sys; sys.path.insert(0, "vp"); from checks import CHECKS; print(*sorted(CHECKS))'); do
        VERIF_SEED=$s timeout 3000 python3 vp/run.py check $c | tail -2
    done
done
