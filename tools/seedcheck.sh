#!/bin/bash
# seedcheck.sh [ID...]: run the check of each planted bug's property against /repo with the bug applied, then undo it.
# Results are kept in tools/seed_results.json.
cd "$(dirname "$0")/.." || exit 1
for id in ${*:-$(ls seeded)}; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
    line=$(python3-vt run.py "$prop" --no-evidence | tail -1)
    git -C /repo checkout -q -- .
    echo "$id: $line"
    python3 - "$id" "$line" <<'P'
import json, os, sys
p = 'tools/seed_results.json'
d = json.load(open(p)) if os.path.exists(p) else {}
l = sys.argv[2]
d[sys.argv[1]] = 'missed' if 'VIOLATION' not in l else 'obligation' if 'no-failing-input-found' in l else 'input'
json.dump(d, open(p, 'w'), indent=0, sort_keys=True)
P
done
