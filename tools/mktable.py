#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
head = "| seeded bug |"
i = t.index(head)
out = "| seeded bug | needs | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/").replace("\n", " "), ", ".join(m.get("caught_by", [m["property"]])))
open(p, "w").write(t[:i] + out)
