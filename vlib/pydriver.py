"""Runs the harnesses of the Python code of one property (pysym), replays counterexamples on the unmodified code, writes evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from .driver import load_findings, VERIF, JOBS

REPO = Path(os.environ.get("VP_REPO", "/repo"))
RUN = VERIF / "pysym" / "run.py"
EVIDENCE = Path(os.environ.get("VP_EVIDENCE", VERIF / "evidence"))


def env():
    return dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VP_REPO=str(REPO))


def concrete(harness, entry, inputs, depth, work):
    """runs an entry with concrete inputs on the unmodified code"""
    a, b = Path(work) / f"{harness}_{entry}.in", Path(work) / f"{harness}_{entry}.out"
    a.write_text(json.dumps(inputs))
    r = subprocess.run(["python3-vt", str(RUN), harness, entry, "--concrete", str(a), "--out", str(b), "--depth", str(depth)], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
    if not b.exists():
        return None, r.stdout[-2000:]
    return json.loads(b.read_text()), r.stdout[-2000:]


class PyCheck:
    def __init__(self, prop, spec, tier, seed):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.t0 = time.time()
        self.depth = 1 if tier == "thorough" else 0
        self.replaydir = EVIDENCE / "replay" / prop

    def go(self):
        self.work = Path(tempfile.mkdtemp(prefix="vppy_"))
        try:
            return self._go()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def run(self, j):
        harness, entry, o, part = j
        out = self.work / f"{harness}_{entry}_{part or 0}.json".replace("/", "of")
        tl = o.get("time_thorough", 3000) if self.depth else o.get("time", 300)
        cmd = ["python3-vt", str(RUN), harness, entry, "--out", str(out), "--depth", str(self.depth), "--seconds", str(tl)]
        r = subprocess.run(cmd + (["--part", part] if part else []), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
        js = json.loads(out.read_text()) if out.exists() else None
        return dict(harness=harness, entry=entry, opts=o, json=js, log=r.stdout[-2000:], rc=r.returncode)

    def _go(self):
        jobs = []
        for harness, entries in self.spec["python"].items():
            for e, o in entries.items():
                n = o.get("parts", 1)
                jobs += [(harness, e, o, "%d/%d" % (i, n) if n > 1 else None) for i in range(n)]
        jobs.sort(key=lambda j: -j[2].get("cost", 1))
        with ThreadPoolExecutor(JOBS) as ex:
            parts = list(ex.map(self.run, jobs))
        errors, viol, known, unconf, reported = [], [], [], [], []
        self.res = {}
        for p in parts:
            if p["json"] is None:
                errors.append(f"{p['entry']}: the executor failed (exit {p['rc']}): {p['log'][-1500:]}")
                continue
            r = self.res.setdefault((p["harness"], p["entry"]), dict(p, json=None))
            if r["json"] is None:
                r["json"] = p["json"]
            else:
                a, b = r["json"], p["json"]
                for k in ("paths", "asserts", "queries", "solver_s"):
                    a[k] += b[k]
                for k in ("violations", "samples"):
                    a[k] += b[k]
                for k, v in b["covers"].items():
                    a["covers"][k] = a["covers"].get(k, 0) + v
                a["incomplete"] = a["incomplete"] or b["incomplete"]
                a["functions"] = sorted(set(a["functions"]) | set(b["functions"]))
                a["wall"] = max(a["wall"], b["wall"])
        findings = load_findings(self.prop)
        # sampled paths must behave the same on the unmodified code
        self.validated = 0
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda k: self.validate(k, errors), list(self.res)))
        for (h, e), r in self.res.items():
            for i, v in enumerate(r["json"]["violations"]):
                f = next((f for f in findings if f["entry"] == e and re.fullmatch(f["match"], v["msg"])), None)
                if f:
                    if f not in known:
                        known.append(f)
                else:
                    viol.append((h, e, v, i))
        for h, e, v, i in viol[:8]:
            ok, path, text = self.replay(h, e, v, i)
            (reported if ok else unconf).append((e, v, path, text))
            if len(reported) >= 3:
                break
        for f in known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if not reported:
            for (h, e), r in self.res.items():
                js = r["json"]
                if js["incomplete"]:
                    errors.append(f"{e}: incomplete: {js['incomplete']}")
                if not js["violations"]:
                    errors += [f"{e}: reachability witness '{c}' not reached" for c in r["opts"].get("covers", []) if not js["covers"].get(c)]
            for e, v, path, text in unconf:
                errors.append(f"{e}: counterexample did not reproduce on the unmodified code: {v['msg']} ({path}) {text}")
        self.evidence(reported, known, errors)
        for e, v, path, text in reported:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {e}: {v['msg']} {v['where']}\n    inputs: {json.dumps(v['inputs'])[:300]}\n    replay: {text[:300]}")
        if reported:
            return 1
        for x in errors:
            print("ERROR:", x)
        if errors:
            return 2
        t = lambda k: sum(r["json"][k] for r in self.res.values())
        print(f"OK property={self.prop} entries={len(self.res)} paths={t('paths')} queries={t('queries')} validated={self.validated} wall={time.time() - self.t0:.1f}s")
        return 0

    def validate(self, k, errors):
        js = self.res[k]["json"]
        if not js["samples"]:
            return
        res, log = concrete(*k, [s["inputs"] for s in js["samples"]], self.depth, self.work)
        if res is None:
            errors.append(f"{k[1]}: the concrete run failed: {log}")
            return
        for s, r in zip(js["samples"], res):
            if r["rc"] == "ok" and r["trace"] == s["trace"]:
                self.validated += 1
            else:
                errors.append(f"{k[1]}: the unmodified code disagrees on a sampled path: {r['rc']} {r.get('msg', '')} {r['trace']} vs {s['trace']} {json.dumps(s['inputs'])[:300]}")

    def replay(self, h, e, v, i):
        d = self.replaydir / f"{e}_{i}"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / "counterexample.json").write_text(json.dumps(dict(v, property=self.prop, harness=h, entry=e, depth=self.depth), indent=1))
        res, log = concrete(h, e, [v["inputs"]], self.depth, self.work)
        (d / "run.sh").write_text("#!/bin/bash\n# runs the entry with the values of the counterexample on the unmodified code of /repo\n"
                                  f"cd {VERIF} && exec /usr/bin/python3 check.py --replay {self.prop} {d}\n")
        if res is None:
            (d / "output.txt").write_text("NOT REPRODUCED\n" + log)
            return False, d, log[-300:]
        r = res[0]
        (d / "output.txt").write_text(json.dumps(r, indent=1))
        return r["rc"] in ("violation", "exception"), d, f"{r['rc']}: {r.get('msg', '')}"

    def evidence(self, reported, known, errors):
        t = lambda k: sum(r["json"][k] for r in self.res.values())
        funcs = sorted({f for r in self.res.values() for f in r["json"]["functions"]})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec["level"],
            "coverage": {
                "states": t("paths"), "transitions": t("queries"), "traces_validated_against_impl": self.validated,
                "samples": [dict(entry=k[1], inputs=s["inputs"], trace=s["trace"][:6]) for k, r in self.res.items() for s in r["json"]["samples"][-1:]][:10],
                "explanation": "symbolic paths of the real Python code of /repo (executed from its source with strings and choices being symbolic); every feasible path "
                               "within the bounds is explored, feasibility of branches and all assertions are decided by z3 for all values of the symbolic inputs",
                "paths": t("paths"), "asserts_checked": t("asserts"), "solver": "z3 (linear integer arithmetic over the indices of characters and cases)", "queries": t("queries"),
                "unknown": 0, "solver_s": round(t("solver_s"), 3), "bounds": self.spec["bounds"],
                "entries": {k[1]: {"paths": r["json"]["paths"], "complete": not r["json"]["incomplete"], "covers": r["json"]["covers"], "queries": r["json"]["queries"],
                                   "wall_s": round(r["json"]["wall"], 2)} for k, r in self.res.items()},
                "functions_encoded": len(funcs), "functions": funcs[:400],
                "exhaustive": bool(self.res) and not any(r["json"]["incomplete"] for r in self.res.values()),
            },
            "assumptions": self.spec.get("assumptions", []) + ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(reported),
        }
        if known:
            ev["known_findings"] = [f["what"] for f in known]
        if errors:
            ev["errors"] = errors
        EVIDENCE.mkdir(parents=True, exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))


ASSUMPTIONS = [
    "string operations and regular expressions on symbolic strings follow the semantics of CPython (sampled paths are re-run on the unmodified code and must agree)",
    "iteration over sets follows one fixed order per path (PYTHONHASHSEED=0)",
]


def replay(prop, d, cx):
    work = Path(tempfile.mkdtemp(prefix="vppy_"))
    try:
        res, log = concrete(cx["harness"], cx["entry"], [cx["inputs"]], cx.get("depth", 0), work)
        if res is None:
            print(log)
            return 2
        print(json.dumps(res[0], indent=1))
        ok = res[0]["rc"] in ("violation", "exception")
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
