#!/bin/bash
# all.sh [options]: run every check, two at a time; one line each
cd "$(dirname "$0")/.."
ls contracts/c*.py | sed 's#.*/c\([0-9]*\)_.*#C\1#' | xargs -P 2 -I{} sh -c 's=$(date +%s); o=$(python3-vt run.py {} --jobs 3 '"$*"' 2>&1); r=$?; e=$(date +%s); echo "{} rc=$r $((e-s))s $(echo "$o" | head -1)"; [ $r = 0 ] && ! echo "$o" | grep -q "outside\|error" || echo "$o" | tail -8'
