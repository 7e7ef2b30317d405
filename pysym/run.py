"""run.py HARNESS ENTRY --out FILE [--depth D] [--seconds S]      symbolic execution of one entry
run.py HARNESS ENTRY --concrete FILE --out FILE                    the same entry with concrete inputs on the unmodified code"""
import argparse, importlib, json, os, sys, traceback
from pathlib import Path
sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE.parent))
sys.path.append("/usr/lib/python3/dist-packages")
from pysym import engine as E  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("harness")
    ap.add_argument("entry")
    ap.add_argument("--out")
    ap.add_argument("--depth", type=int, default=0)
    ap.add_argument("--seconds", type=float, default=500)
    ap.add_argument("--part", help="i/n: only this share of the alternatives of the first choice")
    ap.add_argument("--concrete")
    a = ap.parse_args()
    repo = Path(os.environ.get("VP_REPO", "/repo"))
    packages = {"podio", "podio_gen", "podio_schema_evolution", "podio_class_generator"}
    loader = E.Loader(repo / "python", packages, rewrite=not a.concrete)
    sys.meta_path.insert(0, loader)
    sys.setrecursionlimit(10000)
    h = importlib.import_module("pyharness." + a.harness)
    h.DEPTH = a.depth
    fn = getattr(h, a.entry)
    if a.concrete:
        res = []
        for inp in json.loads(Path(a.concrete).read_text()):
            e = E.Concrete(inp)
            try:
                fn(e)
                res.append(dict(rc="ok", trace=e.traces))
            except E.PathEnd:
                res.append(dict(rc="end", trace=e.traces))
            except E.Violation as v:
                res.append(dict(rc="violation", msg=v.msg, trace=e.traces))
            except E.Diverged as v:
                res.append(dict(rc="diverged", msg=str(v), trace=e.traces))
            except (Exception, SystemExit) as ex:
                res.append(dict(rc="exception", msg="%s: %s" % (type(ex).__name__, ex), text=traceback.format_exc(), trace=e.traces))
        out = json.dumps(res)
    else:
        prof = E.Profile(str(repo) + "/")
        e = E.Symbolic(seconds=a.seconds, part=tuple(map(int, a.part.split("/"))) if a.part else None)
        e.run(fn, prof)
        out = json.dumps(dict(paths=e.paths, asserts=e.asserts, queries=e.queries, solver_s=e.solver_s, covers=e.covers, violations=e.violations,
                              samples=e.samples, incomplete=e.incomplete, modules=loader.loaded, wall=e.wall, functions=sorted(prof.seen)))
    if a.out:
        Path(a.out).write_text(out)
    else:
        print(out)


main()
