#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json
from pathlib import Path
root = Path(__file__).resolve().parent.parent
caught = json.loads((root / "tools/caught.json").read_text())
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {caught.get(m.parent.name, 'not run')} |")
p = root / "DESIGN.md"
head = p.read_text().split("<!-- seeded -->")[0]
p.write_text(head + "<!-- seeded -->\n" + "\n".join(rows) + "\n")
