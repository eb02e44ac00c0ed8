#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/."""
import json, os, textwrap
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
d = {}
for x in sorted(os.listdir("seeded")):
    d.setdefault(json.load(open(f"seeded/{x}/meta.json"))["property"], []).append(x)
out = []
for k in sorted(d):
    names = ", ".join(y.split("-", 1)[1] for y in d[k])
    out += textwrap.wrap(f"* **{k}** {names}", width=105, subsequent_indent="  ", break_on_hyphens=False)
s = open("DESIGN.md").read()
i = s.index("* **C01**", s.index("## Planted bugs"))
j = s.index("\n## Quirks")
open("DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
