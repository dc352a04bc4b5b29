#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/design_body.md, properties.jsonl, known_findings.txt, seeded/."""
import json, os
V = "/verif/"
body = open(V + "tools/design_body.md").read()
props = [json.loads(l) for l in open(V + "properties.jsonl")]
plan = json.load(open(V + "tools/plan.json"))
t = ""
for p in props:
    i = p["id"]
    t += "* **%s %s** – %s\n" % (i, p["title"], plan.get(i, "(no check yet)"))
body = body.replace("PROPTABLE", t.strip())
d = ""
for l in open(V + "known_findings.txt"):
    if not l.startswith("#"):
        d += "\n* " + l.strip()
body = body.replace("DEFECTS", d)
caught = json.load(open(V + "tools/caught.json")) if os.path.exists(V + "tools/caught.json") else {}
s = "| id | property | needs | result |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/" + i + "/meta.json"))
    s += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], caught.get(i, "?"))
body = body.replace("SEEDTABLE", s)
open(V + "DESIGN.md", "w").write(body)
