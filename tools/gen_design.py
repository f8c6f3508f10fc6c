#!/usr/bin/env python3
"""Writes DESIGN.md from design_template.md, units.py, properties.jsonl and seeded/*/meta.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import units
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
t = []
for p in props:
    i = p["id"]; t.append("### %s %s\n" % (i, p["title"]))
    if i in units.PROPS:
        t.append("%s\n\n*Bounds:* %s\n" % (units.HOW.get(i, ""), units.PROPS[i]["bounds"]))
    else: t.append("Not claimed: %s\n" % units.NOT_APPLICABLE.get(i, "no check built yet"))
s = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/planted_alusus/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    s.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), units.CAUGHT.get(i, "not yet run")))
text = open(V + "/tools/design_template.md").read().replace("@@TABLE@@", "\n".join(t)).replace("@@SEEDS@@", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(s))
open(V + "/DESIGN.md", "w").write(text)
