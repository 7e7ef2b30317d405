"""check.py --replay PROP DIR: rebuilds the harness natively from /repo and runs a saved counterexample."""
import json, shutil, sys
from pathlib import Path
from . import build as B
from .driver import run_native


def replay(prop, d):
    from .props import PROPS
    d = Path(d)
    cx = json.loads((d / "counterexample.json").read_text())
    if PROPS[prop].get("python"):
        from .pydriver import replay as pr
        return pr(prop, d, cx)
    if cx.get("kind") == "generated-code":
        try:
            for u in PROPS[prop]["units"]:
                B.compile_all(u.models, "plain", (), u.core, u.cdefines)
        except B.GeneratedCodeError as e:
            print(e)
            return 1
        print("not reproduced")
        return 0
    u = next(u for u in PROPS[prop]["units"] if cx["entry"] in u.entries)
    src = [B.VERIF / "harness" / u.file] + [B.VERIF / "harness" / x for x in u.extra]
    work = B.tree_dir() / f"replay_{prop}"
    work.mkdir(parents=True, exist_ok=True)
    try:
        for mode in (["tsan", "jitter", "asan"] if u.threads else ["asan", "plain"]):
            b = work / mode
            B.native(u.models, src, mode, b, u.core, u.cdefines, list(u.defines) + [f"VP_DEPTH={cx.get('depth', 0)}"])
            for k in range(200 if u.threads else 1):
                rc, out = run_native(b, d / "input.txt", 20, {"VP_JITTER": str(k + 1)} if u.threads else None,
                                     ("valgrind", "-q", "--error-exitcode=98") if mode == "plain" else ())
                if rc not in (0, 78, 79):
                    print(out)
                    print(f"reproduced ({mode}, exit {rc})")
                    return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
