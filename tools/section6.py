#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import glob, json, os, textwrap
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, by.values()))
out = "Each of the %d planted bugs is reported by the quick check of the property it was written for:\n\n" % n
for p in sorted(by):
    out += textwrap.fill("* **%s**: %s" % (p, ", ".join(by[p])), 118, subsequent_indent="  ", break_on_hyphens=False) + "\n"
s = open(here + "/DESIGN.md").read()
i = s.index("Each of the ", s.index("## 6."))
open(here + "/DESIGN.md", "w").write(s[:i] + out)
