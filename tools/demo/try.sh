#!/bin/bash
# try.sh <seed id>: demo on the unchanged tree, with the patch, then the property's check with the patch
for id in "$@"; do
S=/verif/seeded/$id
rm -rf /tmp/mt; mkdir /tmp/mt; git -C /repo archive HEAD | tar x -C /tmp/mt
cd /tmp/mt; git init -q . 
bash $S/demo.sh; a=$?
git apply $S/patch.diff || { echo "$id PATCH FAILS"; continue; }
bash $S/demo.sh; b=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; SA_REPO=/tmp/mt python3 check.py $P > /tmp/mt.out 2>&1; c=$?
echo "$id: clean=$a patched=$b check($P)=$c $(grep -m1 '@' /tmp/mt.out | cut -c1-200)"
rm -rf /tmp/mt
done
