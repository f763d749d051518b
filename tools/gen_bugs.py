#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
cells = ["%s | %s" % (k, ", ".join(v)) for k, v in sorted(by.items())]
while len(cells) % 3: cells.append(" | ")
rows = "\n".join("| " + " | ".join(cells[i:i + 3]) + " |" for i in range(0, len(cells), 3))
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
head = "|---|---|---|---|---|---|\n"
i = s.index(head) + len(head); j = s.index("\n\n", i)
open(p, "w").write(s[:i] + rows + s[j:])
