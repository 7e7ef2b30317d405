#!/usr/bin/env python3
"""(Re)creates /verif/seeded/<id> from tools/seeds/<id>.py: each defines prop, edits=[(file, old, new)], needs, breaks and
optionally a model; the demonstration is tools/seeds/<id>.cpp (or .sh). usage: mkseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = V / "tools/seeds"
L = V / "tools/seedlib"
REPO = os.environ.get("VP_REPO", "/repo")


def main(ids):
    base = Path(tempfile.mkdtemp(prefix="mkseeds."))
    try:
        tree = base / "repo"
        subprocess.run(["git", "clone", "-q", "--shared", REPO, str(tree)], check=True)
        for p in sorted(S.glob("c[0-9]*.py")):
            if p.stem.endswith("_demo") or ids and p.stem not in ids:
                continue
            m = {"__file__": str(p)}
            exec(p.read_text(), m)
            for f, old, new in m["edits"]:
                t = (tree / f).read_text()
                if t.count(old) != m.get("count", 1):
                    sys.exit("%s: %d occurrences in %s of\n%s" % (p.stem, t.count(old), f, old))
                (tree / f).write_text(t.replace(old, new))
            diff = subprocess.run(["git", "-C", str(tree), "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
            subprocess.run(["git", "-C", str(tree), "checkout", "-q", "--", "."], check=True)
            # (changes of templates are kept apart)
            d = V / ("mutants" if any(f.endswith(".jinja2") for f, _, _ in m["edits"]) else "seeded") / p.stem
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(diff)
            (d / "meta.json").write_text(json.dumps({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, indent=1) + "\n")
            sh = S / (p.stem + ".sh")
            if sh.exists():
                shutil.copy(sh, d / "demo.sh")
            else:
                t = (L / "demo.sh").read_text()
                if m.get("env"):
                    t = t.replace(". \"$D/common.sh\"", m["env"] + "\n. \"$D/common.sh\"")
                if m.get("gens"):
                    t = t.replace("gen model.yaml demo\n", m["gens"] + "\n")
                (d / "demo.sh").write_text(t)
            os.chmod(d / "demo.sh", 0o755)
            if (S / (p.stem + ".cpp")).exists():
                shutil.copy(S / (p.stem + ".cpp"), d / "demo.cpp")
                shutil.copy(L / "common.sh", d)
                shutil.copy(L / "demo.h", d)
                for y in m.get("files", ["model.yaml"]):
                    src = S / y if (S / y).exists() else L / y
                    shutil.copy(src, d / Path(y).name)
            for x in m.get("extra", []):
                shutil.copy(S / x, d / x)
            print("wrote", p.stem, "->", m["prop"])
    finally:
        shutil.rmtree(base)


main(sys.argv[1:])
