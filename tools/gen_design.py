#!/usr/bin/env python3
"""fills the tables of DESIGN.md from DESIGN.src.md"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/tools/DESIGN.src.md").read()
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
man = json.load(open(R + "/MANIFEST.json"))
lv = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
how = json.load(open(R + "/tools/how.json"))
t = ""
for p in props:
    t += "**%s %s.** %s %s\n\n" % (p["id"], p["title"], how.get(p["id"], ""), "Not applicable: " + na[p["id"]] if p["id"] in na else "Level: %s. %s" % (lv[p["id"]]["level"], lv[p["id"]]["level_note"]))
sd = ""
for m in sorted(glob.glob(R + "/seeded*/*/meta.json"), key=lambda f: f.split("/")[-2]):
    d = json.load(open(m))
    sd += "- `%s` (%s): %s. Needs: %s.\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"])
open(R + "/DESIGN.md", "w").write(s.replace("DESIGN_TABLE\n", t).replace("SEED_TABLE\n", sd).replace("FIXES_MORE\n", "".join("- %s\n" % l[7:].strip().replace("property=", "") for l in open(R + "/known_findings.txt") if l.startswith("fixed: "))))
