#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from the folders under seeded."""
import os, collections
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.OrderedDict()
for d in sorted(os.listdir(home + "/seeded")):
    a, b = d.split("-", 1)
    t.setdefault(a, []).append(b + (" (missed)" if d == "T09-reserve" else ""))
s = open(home + "/DESIGN.md").read()
i = s.index("| check | catches |")
j = s.index("\n\n", i)
s = s[:i] + "| check | catches |\n|---|---|\n" + "\n".join(f"| {a} | {', '.join(b)} |" for a, b in t.items()) + s[j:]
open(home + "/DESIGN.md", "w").write(s)
