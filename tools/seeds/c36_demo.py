"""the generator on a directory with files that differ a little from what they have to be: exit 0 if all are as after a fresh run"""
import os, subprocess, sys, tempfile
from pathlib import Path
MODEL = """
schema_version: 1
options:
  getSyntax: True
  exposePODMembers: False
  includeSubfolder: True
components:
  Pos:
    Members:
      - float x
datatypes:
  Hit:
    Description: "a hit"
    Author: "a"
    Members:
      - float energy // e
"""
with tempfile.TemporaryDirectory() as tmp:
    tmp = Path(tmp)
    (tmp / "m.yaml").write_text(MODEL)
    def run(out):
        out.mkdir(exist_ok=True)
        subprocess.run([sys.executable, "-B", sys.argv[1] + "/python/podio_class_generator.py", str(tmp / "m.yaml"), str(out), "m", "-q"], check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return {p.relative_to(out): p.read_bytes() for p in out.rglob("*") if p.is_file()}
    fresh = run(tmp / "fresh")
    assert len(fresh) > 5
    bad = 0
    for k, edit in enumerate([lambda b: b + b"// left over\n", lambda b: b[:len(b) // 2], lambda b: b"", lambda b: b" " + b, lambda b: b[:-1], lambda b: b.upper()]):
        out = tmp / str(k)
        run(out)
        for p in fresh:
            (out / p).write_bytes(edit(fresh[p]))
        for p, c in run(out).items():
            same = c.replace(str(out).encode(), b"@") == fresh[p].replace(str(tmp / "fresh").encode(), b"@")
            if not same:
                bad += 1
                print("FAILED:", p, "is not up to date after a run on files with edit", k)
                break
sys.exit(1 if bad else 0)
