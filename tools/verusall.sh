#!/bin/bash
# every unit must be proved on the tree as it is
cd "$(dirname "$0")/.."
LIBS=" float iters morton coords flows errors entries bytes "
for f in contracts/verus/*.vspec; do u=$(basename $f .vspec); case "$LIBS" in *" $u "*) continue;; esac; echo "$u $(python3 lib/verusrun.py $u | tr '\n' ' ' | grep -o '"status": "[a-z]*"\|"verified": [0-9]*\|"wall": [0-9.]*' | tr '\n' ' ')"; done
