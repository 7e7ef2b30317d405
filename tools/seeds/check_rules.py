import re
import sys

covered = {}
for tag in re.findall(r"<ioread [^>]*>", open(sys.argv[1]).read()):
    r = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', tag))
    lo, _, hi = r["version"].strip("[]").partition("-")
    for v in range(int(lo), int(hi or lo) + 1):
        covered.setdefault((r["sourceClass"], r["targetClass"], r["target"]), set()).add(v)
bad = [c for c in ("ThingData", "Comp") if covered.get((c, c, "newname")) != {1, 2}]
if bad:
    print("FAILED: no rule for the renamed member in some old version of:", bad)
    sys.exit(1)
print("fine")
