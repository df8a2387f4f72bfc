#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
lines = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    lines.append(f"* `{d}` ({m['property']}): {m['what_it_breaks']}")
a = s.index("* `", s.index("## 5. Planted bugs"))
b = s.index("\nFirst missed", a)
s = s[:a] + "\n".join(lines) + "\n" + s[b:]
open(p, "w").write(s)
