#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (planted bugs by property)."""
import json, os, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    by[m["property"]].append(d)
txt = "| property (= check that catches them) | planted bugs |\n|---|---|\n" + "".join(f"| {p} | {', '.join(by[p])} |\n" for p in sorted(by))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + txt + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(sum(map(len, by.values())), "planted bugs")
