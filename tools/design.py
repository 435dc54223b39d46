"""Writes DESIGN.md from tools/design.md: tables of planted changes and fixed defects are filled in."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/design.md")).read()
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools/caught.json")))
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = m.split("/")[-2]
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), caught.get(i, "not run")))
t = t.replace("SEEDTABLE", "\n".join(rows))
k = json.load(open(os.path.join(V, "known_findings.json")))
t = t.replace("FIXEDTABLE", "\n".join("* " + f.replace("fixed: property=", "") for f in k["fixed"]))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
