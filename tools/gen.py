#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/meta.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.meta import PROPS, NA
sys.setrecursionlimit(20000)
na = {x["property"] for x in NA}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
import check
reg = check.load_rules()
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert p["id"] in reg, "no rule for " + p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "static analysis: trace-partitioned dataflow over the syntax tree with guard/effect rules" ,
        "level": "other",
        "level_note": "Static dataflow over the current source: every success path of the anchored functions (helpers inlined, loops abstracted to none/arbitrary iteration) must establish the stated guards and perform exactly the stated effects; external pallets are summarised by name."})
extra = set(reg) - {p["id"] for p in PROPS}
assert not extra, extra
m = {"version": 1, "setup_cmd": "cd extract && cargo build --release --offline", "checks": checks, "not_applicable": NA,
     "notes": "Known findings and repairs: known_findings.json. Rules: sa/rules/*.py; engine: sa/engine.py; extractor: extract/."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NA), "not applicable")
