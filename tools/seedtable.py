#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, re.sub(r"\s+", " ", m["needs"]).replace("|", "/"), caught.get(d, m["property"])))
rows.sort()
t = "| prop. | planted bug | needs | caught by |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in rows) + "\n"
s = open(V + "/DESIGN.md").read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "<!-- seeds -->\n" + t + "<!-- /seeds -->")
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
