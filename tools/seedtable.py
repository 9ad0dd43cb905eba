"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
from os.path import dirname, join
V = dirname(dirname(os.path.abspath(__file__)))
MISSED = set(json.load(open(join(V, "tools", "missed.json"))))
rows = ["<!-- seeds -->", "| id | property | what is broken | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(join(V, "seeded"))):
    m = json.load(open(join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | caught%s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), " (was missed)" if i in MISSED else ""))
rows.append("<!-- /seeds -->")
p = join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
