#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/claims.py."""
import subprocess, sys
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.claims import P, NOT_APPLICABLE, PN
from vlib.props import PROPS

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P + PN, key=lambda p: p["id"]):
        for x in p["files"] + [m[1] for m in p["mech"]]:
            if not os.path.exists("/repo/" + x):
                print("no such file", p["id"], x)
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] not in PROPS:
        print("no check for", p["id"])
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       technique=p["technique"], level="model_checking", level_note="Bounded: " + p["note"]))
m = dict(version=1, setup_cmd="make -s -C engine", checks=checks, not_applicable=NOT_APPLICABLE,
         notes="No hooks are needed in /repo; genuine defects are repaired there by commits starting with 'fix:' and listed in known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
t = open(V + "/tools/DESIGN.md.in").read()
out = ["## Properties and how each is decided\n"]
NA = {n["property"]: n["reason"] for n in NOT_APPLICABLE}
for p in sorted(P + PN, key=lambda p: p["id"]):
    if p["id"] in NA:
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Not applicable:* {NA[p['id']]}\n")
        continue
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by* {p['technique']}; harness entries: "
               + (", ".join(f"`{e}`" for u in PROPS[p["id"]].get("units", []) for e in u.entries) or ", ".join(f"`{e}`" for e in [x for h in PROPS[p["id"]].get("python", {}).values() for x in h])
                  if p["id"] in PROPS else "none") + f".\n\n*Bounds:* {p['bounds']}\n")
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@TAIL@", open(V + "/tools/design_tail.md").read() + "\n## Planted bugs\n\nEvery one was confirmed with `tools/tryseeds.sh` (demonstration) and run against the check of its property with\n`tools/runseeds.sh`; the last column names the check that reports it.\n\n"
              + subprocess.run([sys.executable, V + "/tools/seedtable.py"], stdout=subprocess.PIPE, text=True, check=True).stdout)
open(V + "/DESIGN.md", "w").write(t)
