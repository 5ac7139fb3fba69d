#!/bin/bash
# every planted change against its property's check, on a scratch copy of /repo
cd "$(dirname "$0")/.."
d=$(mktemp -d /tmp/seeds.XXXX); mkdir -p $d/r $d/o
(cd /repo && git ls-files -z | xargs -0 cp --parents -t $d/r); (cd $d/r && git init -q .)
for s in seeded/*/; do
  p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  (cd $d/r && git apply "$OLDPWD/$s/patch.diff") || echo "$s does not apply"
  SA_REPO=$d/r SA_OUT=$d/o python3 check.py $p > $d/out; r=$?
  [ $r = 1 ] && grep -q "VIOLATION property=$p " $d/out && echo "$(basename $s) $p caught" || echo "$(basename $s) $p MISSED"
  (cd $d/r && git apply -R "$OLDPWD/$s/patch.diff")
done
find "$d" -delete
