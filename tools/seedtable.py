#!/usr/bin/env python3
"""Development aid: fills the table of planted changes into DESIGN.md."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"],
        m["property"]))
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
