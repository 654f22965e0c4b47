#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {"S31": "missed at first: no task started another", "S23": "missed at first: call objects were too small to tell", "S28": "missed at first: data never changed between runs"}
rows = ["| change | property, check | what it breaks | note |", "|---|---|---|---|"]
for s in sorted(os.listdir(base + "/seeded"), key=lambda x: int(x[1:])):
    m = json.load(open("%s/seeded/%s/meta.json" % (base, s)))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), late.get(s, "")))
p = base + "/DESIGN.md"
t = open(p).read()
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->")
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
