#!/usr/bin/env python3
"""Rewrites the two tables of DESIGN.md: planted changes (sweep results in seeded/*/caught.txt are given by hand below) and harnesses."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, "DESIGN.md")).read()
try:
    status = json.load(open(os.path.join(ROOT, "bin", "sweep.json")))
except OSError:
    status = {}
rows = ["| change | needs | quick check of its property |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), status.get(d, "not run yet")))
h = ["| property | harness | paths per shape (quick; 0: all) | bounds |", "|---|---|---|---|"]
out = subprocess.run([os.path.join(ROOT, "target", "sym", "debug", "harness"), "bounds"], capture_output=True, text=True).stdout
for l in sorted(out.splitlines(), key=lambda l: l.split("\t")[0]):
    a, b, c, d = l.split("\t")
    h.append("| %s | %s | %s | %s |" % (a, b, c, d.replace("|", "/")))
def put(text, mark, rows):
    i = text.index("<!-- %s -->" % mark)
    j = text.find("\n## ", i)
    tail = text[j:] if j >= 0 else "\n"
    return text[:i] + "<!-- %s -->\n" % mark + "\n".join(rows) + "\n" + tail
text = put(text, "seeded", rows)
text = put(text, "harnesses", h)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text.rstrip("\n") + "\n")
