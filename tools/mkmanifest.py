#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
# the table in DESIGN.md says which modules, bounds and observations each check has
NOTE = {}
for line in open(V + "/DESIGN.md"):
    c = [x.strip().replace("*", "").replace("`", "") for x in line.strip().strip("|").split(" | ")]
    if line.startswith("| C") and len(c) == 5:
        for i in c[0].split(", "):
            NOTE[i] = dict(how="the specification's behaviours run through the real code, and its recorded traces checked against module %s" % c[2],
                           note="Model %s: %s (quick / thorough where two numbers are given). Observed on the code: %s. Beyond those bounds: seeded random executions." % (c[1], c[3], c[4]))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; " + n.get("how", "trace validation of the real code against it"),
                           level="model_checking",
                           level_note=n.get("note", "Design model checked exhaustively within stated constants; implementation bound by trace validation of generated and random executions.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+/TLC. Checks compile harnesses from /repo/include on every run; no hooks in /repo are needed. known_findings.json lists unrepaired and repaired defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
