"""Rewrites the planted-bug list at the end of DESIGN.md from seeded/*/meta.json (maintenance only; no check uses it)."""
import collections
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
head, tail = text.split("## Planted bugs\n", 1)
intro = tail.split("\n* C01:", 1)[0]
by = collections.defaultdict(list)
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
lines = "".join(f"* {p}: {', '.join(v)}\n" for p, v in sorted(by.items()))
open(path, "w").write(head + "## Planted bugs\n" + intro + "\n" + lines)
