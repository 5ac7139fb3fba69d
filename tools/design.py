#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/*.md, sa/meta.py and the evidence of the last run"""
import json, os, sys, glob
from collections import OrderedDict
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.meta import PROPS, NA
D = os.path.join(HERE, "tools", "design")
na = {x["property"]: x["reason"] for x in NA}
out = [open(os.path.join(D, "head.md")).read().rstrip(), "", "## 2. Properties", ""]
kinds = OrderedDict([("guard", "guards"), ("effect", "required effects"), ("limit", "exhaustive limits on effects"), ("order", "order"), ("returns", "results"), ("writers", "writer sets"), ("table", "table rows")])


def kind(o):
    if o.startswith("must "):
        return "effect"
    if " limited to" in o:
        return "limit"
    if "is written only on behalf" in o:
        return "writers"
    if o.startswith("returns "):
        return "returns"
    if " before " in o or " precedes " in o:
        return "order"
    if any(w in o for w in (" requires ", "good(", "origin(", "==", "!=", "absent(", "empty(", "<", "truth(", "isv(", "false(")):
        return "guard"
    return "table"


for p in PROPS:
    i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), "", p["statement"], ""]
    if i in na:
        out += ["Not applicable: %s" % na[i], ""]
        continue
    ev = os.path.join(HERE, "evidence", i + ".json")
    c = json.load(open(ev))["coverage"]
    by = OrderedDict()
    wh = OrderedDict()
    for r in c["rules"]:
        by.setdefault(kind(r["obligation"]), []).append(r)
        wh[r["where"]] = 1
    out.append("Decided on %d functions, %d trace classes, %d obligations. Anchors: %s." % (c["functions_analysed"], c["trace_classes"], c["obligations"], ", ".join("`%s`" % m["where"] for m in p["anchors"]["mechanism"][:3])))
    ents = [w.split("::", 1)[-1] if w.count("::") > 1 else w for w in wh]
    out.append("Entry points: %s%s." % (", ".join("`%s`" % x for x in ents[:14]), " and %d more" % (len(ents) - 14) if len(ents) > 14 else ""))
    for k, lab in kinds.items():
        rs = by.get(k)
        if not rs:
            continue
        seen = []
        for r in rs:
            o = " ".join(r["obligation"].split())
            o = o if len(o) <= 120 else o[:117] + "..."
            if o not in seen:
                seen.append(o)
        cut = 3 if k != "table" else 3
        out.append("* %s (%d): %s%s" % (lab, len(rs), "; ".join("`%s`" % x.replace("`", "'") for x in seen[:cut]), "; …" if len(seen) > cut else ""))
    out.append("")
out += ["## 3. Planted bugs (seeded/) and the checks that catch them", "", "| seed | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(D, "caught.json"))) if os.path.exists(os.path.join(D, "caught.json")) else {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    s = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (s, j["property"], " ".join(str(j["needs"]).split())[:160], caught.get(s, j["property"])))
out += ["", open(os.path.join(D, "tail.md")).read().rstrip(), "", "## 6. Repairs and known findings", ""]
kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
for f in kf:
    out.append("* " + (f["what"] if f["what"].startswith("fixed") else "%s: property=%s %s" % (f["status"], f["property"], f["what"])))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
