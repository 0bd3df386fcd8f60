#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
t = "<!-- seeds -->\n| seed | caught by the quick check of | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE", "<!-- seeds --><!-- /seeds -->") if "<!-- seeds -->" not in s else s
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
