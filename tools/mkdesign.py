#!/usr/bin/env python3
"""Fills the two tables of DESIGN.md (between markers) from known_findings.json and seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
kf = json.load(open(V + "/known_findings.json"))
t = "<!-- findings -->\n" + "\n".join("* " + x.replace("fixed: property=", "fixed, ") for x in kf["fixed"]) + "\n" + "".join("* open: property=%s %s\n" % (k["property"], k["what"]) for k in kf["known"]) + "<!-- /findings -->"
d = d.replace("@@FINDINGS@@", t)
d = re.sub(r"<!-- findings -->.*?<!-- /findings -->", lambda m: t, d, flags=re.S)
res = json.load(open(V + "/tools/seeded_results.json"))
rows = ["<!-- seeded -->", "| bug | property | needs | first | after |", "|---|---|---|---|---|"]
D = V + "/seeded"
for i in sorted(os.listdir(D), key=lambda i: (json.load(open(D + "/%s/meta.json" % i))["property"], i)):
    m = json.load(open(D + "/%s/meta.json" % i))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), r.get("first", "?"), r.get("after", "?")))
t2 = "\n".join(rows) + "\n<!-- /seeded -->"
d = d.replace("@@SEEDED@@", t2)
d = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: t2, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
