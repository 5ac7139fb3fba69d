#!/bin/bash
# builds the functions under test from the repository's current source against a miniature FRAME and runs main.rs's scenario
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
python3 "$D/ext.py" "$D/main.rs" "$W" "$PWD"
