#!/bin/bash
# run every registered check (4 in parallel) against /repo (or SA_REPO); prints only what is not quiet
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P' | xargs -P 6 -I{} sh -c 'o=$(timeout 880 python3 check.py {} 2>&1); r=$?; [ $r = 0 ] || echo "{} exit $r: $(echo "$o" | head -3 | cut -c1-300)"'
import json
print("\n".join(c["property"] for c in json.load(open("MANIFEST.json"))["checks"]))
P
echo done
