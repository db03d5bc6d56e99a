#!/usr/bin/env python3
"""design.py : writes DESIGN.md from dev/DESIGN.in.md, props.py and seeded/*/meta.json (dev helper)."""
import sys, json, glob, os
sys.path.insert(0, "/verif")
from props import PROPS
s = open("/verif/dev/DESIGN.in.md").read()
t = ["| id | property | drivers | rule | level |", "|---|---|---|---|---|"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["id"] == "C43": continue
    dr = ", ".join("%s (%d)" % (c, sum(l.startswith(f + "_") for l in open("/verif/drv/%s/drivers.txt" % c)) if os.path.exists("/verif/drv/%s/drivers.txt" % c) else n)
                   for c, f, n in p["parts"] or []) or "sendsync"
    t.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], dr, (p["rule"] or "").replace("|", "/"), p["level"]))
b = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    b.append("| %s | %s | %s |" % (f.split("/")[3], m["property"], m["what_it_breaks"].replace("|", "/")))
open("/verif/DESIGN.md", "w").write(s.replace("TABLE", "\n".join(t)).replace("BUGS\n", "\n".join(b) + "\n").replace("NOTE", "."))
