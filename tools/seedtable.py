#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development helper, no check uses it)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
mark = "## Planted bugs"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + """

Every change below was written from the text of a property, builds, passes the stable tests, has a demonstration that fails with it and passes
without, and is reported by the quick check of its property (checks that missed one at first were strengthened until they caught it; none is left uncaught).
Beside these, some 150 further changes without demonstrations and mutants of the anchored files (`tools/mutate.py`) were run against
the checks; survivors were either equivalent or led to broader generators or new clauses.

| change | caught by | needs |
|---|---|---|
"""
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    s += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"))
open(p, "w").write(s)
