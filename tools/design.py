#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ (and EXTRA: checks other than the own one that catch it)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = {"b12-fraction-digits-half": "C17", "b13-digits-capped": "C17", "b35-modf-alias": "C11"}
MISSED = set()
A, B = "<!-- bugs begin -->", "<!-- bugs end -->"
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    by = "(missed)" if n in MISSED else d["property"] + (", " + EXTRA[n] if n in EXTRA else "")
    rows.append("| %s | %s | %s |" % (n, by, d["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = s[:s.index(A) + len(A)] + "\n" + "\n".join(rows) + "\n" + s[s.index(B):]
open(p, "w").write(s)
