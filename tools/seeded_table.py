#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (development only; no check reads seeded/).
A bug's meta.json may name further checks that catch it ("also") or say that its check misses it ("missed")."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = "## Planted bugs (seeded/)\n"
t = head + ("Every bug below builds, passes the repository's tests and is shown by its own demonstration. \"Caught by\" are the quick checks that\n"
            "report a violation on the patched tree. C03, C06 (long expressions) and C07 (values with colons) were extended because they first missed theirs.\n\n"
            "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
d = os.path.join(here, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    c = "missed" if m.get("missed") else ", ".join([m["property"]] + m.get("also", []))
    t += "| %s | %s | %s (needs %s) | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"], c)
open(p, "w").write(s[:s.index(head)] + t)
