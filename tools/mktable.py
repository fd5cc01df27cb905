#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted bug | what it breaks | needs | caught by |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), MISSED.get(i, m["property"])))
s = open(V + "/DESIGN.md").read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows) - 2)
