#!/usr/bin/env python3
"""mkpatch.py <id> <property> <needs> <breaks> then (file, old, new) triples read from stdin separated by lines '=== file', '--- old', '+++ new' """
import sys, os, subprocess, json, tempfile, shutil
sid, prop, needs, breaks = sys.argv[1:5]
blocks = sys.stdin.read().split("=== ")[1:]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
out = ""
for b in blocks:
    f, rest = b.split("\n", 1)
    old, new = rest.split("--- old\n", 1)[1].split("+++ new\n", 1)
    s = open("/repo/" + f).read()
    old = old.rstrip("\n"); new = new.rstrip("\n")
    if s.count(old) != 1:
        sys.exit("old text occurs %d times in %s" % (s.count(old), f))
    t = s.replace(old, new)
    w = tempfile.mkdtemp()
    open(w + "/a", "w").write(s); open(w + "/b", "w").write(t)
    r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, w + "/a", w + "/b"], capture_output=True, text=True)
    out += r.stdout
    shutil.rmtree(w)
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
