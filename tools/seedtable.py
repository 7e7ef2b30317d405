#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md; results of tools/runseeds.sh are kept in tools/seed_results.json"""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
res = json.loads((V / "tools/seed_results.json").read_text()) if (V / "tools/seed_results.json").exists() else {}
print("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted([*(V / "seeded").iterdir(), *(V / "mutants").iterdir()], key=lambda d: d.name):
    m = json.loads((d / "meta.json").read_text())
    print("| %s | %s: %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"], m["needs"], res.get(d.name, "?")))
