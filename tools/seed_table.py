#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md between the markers (run by hand; no check reads seeded/)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "seed_notes.json")))
rows = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    c = lambda s: s.replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (d, c(m["needs"]), c(m["what_it_breaks"]), NOTES.get(d, m["property"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
