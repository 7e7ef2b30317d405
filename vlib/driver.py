"""Runs the harnesses of one property through the symbolic executor, replays counterexamples, writes evidence."""
import json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from . import build as B

VERIF = B.VERIF
EVIDENCE = Path(os.environ.get("VP_EVIDENCE", VERIF / "evidence"))
FINDINGS = VERIF / "known_findings.json"
JOBS = 8


def load_findings(prop):
    if not FINDINGS.exists():
        return []
    return [f for f in json.loads(FINDINGS.read_text()).get("findings", []) if f["property"] == prop]


class Unit:
    """One harness file: entries maps entry function -> options(time, steps, preempt, covers)."""

    def __init__(self, file, entries, models=(), core=True, defines=(), extra=(), cdefines=(), threads=False):
        self.file, self.entries, self.models, self.core = file, entries, tuple(models), core
        self.defines, self.extra, self.threads = tuple(defines), tuple(extra), threads
        self.cdefines = tuple(cdefines)  # for the library and the generated code as well


def write_input(path, entry, inputs):
    with open(path, "w") as f:
        f.write(f"entry {entry}\n")
        for i in inputs:
            f.write(f"in {i['name']} {i['bytes']}\n")


def run_native(binary, inp, timeout=20, env=None, wrapper=()):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0",
             TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0", UBSAN_OPTIONS="halt_on_error=1")
    e.update(env or {})
    for v in ("PODIO_SIOBLOCK_PATH", "LD_LIBRARY_PATH", "PODIO_DEFAULT_WRITE_RNTUPLE"):  # unset in the model as well
        e.pop(v, None)
    try:
        r = subprocess.run(list(wrapper) + [str(binary), str(inp)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=e, cwd="/tmp")
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        return "timeout", (ex.stdout or b"").decode("utf-8", "replace")


class Check:
    def __init__(self, prop, spec, tier, seed):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.t0 = time.time()
        self.results, self.validated, self.mismatch = [], 0, []
        self.replaydir = EVIDENCE / "replay" / prop

    def depth(self):
        return 1 if self.tier == "thorough" else 0

    def hdefs(self, u):
        return list(u.defines) + [f"VP_DEPTH={self.depth()}"]

    def go(self):
        B.ensure_engine()
        B.prune_cache()
        self.work = B.tree_dir() / f"run_{self.prop}_{os.getpid()}"
        self.work.mkdir(parents=True, exist_ok=True)
        try:
            return self._go()
        except B.GeneratedCodeError as e:
            return self.broken_code(str(e))
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def _go(self):
        units = self.spec["units"]
        jobs = []
        tb = time.time()
        for n, u in enumerate(units):
            src = [VERIF / "harness" / u.file] + [VERIF / "harness" / x for x in u.extra]
            objs = B.compile_all(u.models, "ir", src, u.core, u.cdefines, self.hdefs(u))
            bc = B.link_ir(objs, self.work / f"u{n}.bc")
            for e, o in u.entries.items():
                if o.get("tier") and o["tier"] != self.tier:
                    continue
                jobs.append((n, u, objs, bc, e, o))
        self.build_s = time.time() - tb
        jobs.sort(key=lambda j: -j[5].get("cost", 1))
        with ThreadPoolExecutor(JOBS) as ex:
            nat = {n: ex.submit(self.native_validate_bin, n, u) for n, u in enumerate(units)}
            self.results = list(ex.map(self.engine, jobs))
            self.natbin = {n: f.result() for n, f in nat.items()}
        # validate sampled paths against the native build of the same code
        tasks = [(r, s) for r in self.results for s in r["json"].get("samples", [])]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda t: self.validate(*t), enumerate(tasks)))
        return self.judge()

    def broken_code(self, text):
        """nothing can hold for code that does not exist: the generator's output for a valid model is itself the counterexample"""
        d = self.replaydir / "generated_code"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / "output.txt").write_text(text)
        (d / "counterexample.json").write_text(json.dumps(dict(property=self.prop, kind="generated-code", depth=self.depth())))
        self.build_s = time.time() - self.t0
        self.evidence([None], [], [text[:2000]])
        print(f"VIOLATION property={self.prop} replay={d}")
        print("  " + "\n  ".join(text.splitlines()[:12]))
        return 1

    def native_validate_bin(self, n, u):
        src = [VERIF / "harness" / u.file] + [VERIF / "harness" / x for x in u.extra]
        objs = B.compile_all(u.models, "ir", src, u.core, u.cdefines, self.hdefs(u))
        return B.native_from_ir(objs, self.work / f"n{n}")

    def engine(self, j):
        n, u, objs, bc, e, o = j
        out = self.work / f"u{n}_{e}.json"
        tl = o.get("time_thorough", o.get("time", 300) * 6) if self.tier == "thorough" else o.get("time", 300)
        cmd = [str(B.BUILD / "vpsym"), "--entry", e, "--out", str(out), "--time", str(tl), "--samples", str(o.get("samples", 6)),
               "--max-violations", str(o.get("max_violations", 8))]
        if "steps" in o:
            cmd += ["--steps", str(o["steps"])]
        if "preempt" in o:
            cmd += ["--preempt", str(o["preempt"] + (1 if self.tier == "thorough" and o.get("preempt_more") else 0))]
        r = subprocess.run(cmd + [str(bc)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        js = {}
        if out.exists():
            try:
                js = json.loads(out.read_text())
            except ValueError:
                pass
        return dict(unit=n, u=u, entry=e, opts=o, rc=r.returncode, log=r.stdout[-3000:], json=js)

    def validate(self, i, rs):
        r, s = rs
        if r["u"].threads:
            return
        inp = self.work / f"s{i}.in"
        write_input(inp, r["entry"], s["inputs"])
        rc, out = run_native(self.natbin[r["unit"]], inp)
        tr = [l[len("VP-TRACE: "):] for l in out.splitlines() if l.startswith("VP-TRACE: ")]
        if rc == 0 and tr == s["trace"]:
            self.validated += 1
        else:
            self.mismatch.append((r["entry"], rc, s["inputs"], s["trace"], tr, out[-500:]))

    # ---------------------------------------------------------------- counterexamples
    def replay(self, r, v, idx):
        """Replays a counterexample against a fresh native build of the real code. -> (reproduced, path, text)"""
        d = self.replaydir / f"{r['entry']}_{idx}"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        u = r["u"]
        src = [VERIF / "harness" / u.file] + [VERIF / "harness" / x for x in u.extra]
        write_input(d / "input.txt", r["entry"], v["inputs"])
        (d / "counterexample.json").write_text(json.dumps(dict(v, property=self.prop, entry=r["entry"], harness=u.file, depth=self.depth()), indent=1))
        modes = ["asan"]
        if u.threads:
            modes = ["tsan", "jitter", "asan"]
        elif v.get("uninit"):
            modes = ["asan", "valgrind"]
        tail = ""
        for mode in modes:
            wrapper, m = (), mode
            if mode == "valgrind":
                wrapper, m = ("valgrind", "-q", "--error-exitcode=98"), "plain"
            binary = self.work / f"rep_{r['unit']}_{m}"
            if not binary.exists():
                B.native(u.models, src, m, binary, u.core, u.cdefines, self.hdefs(u))
            tries = (400 if mode != "asan" else 40) if u.threads else 1
            t0 = time.time()
            for k in range(tries):
                rc, out = run_native(binary, d / "input.txt", 20, {"VP_JITTER": str(k + 1)} if u.threads else None, wrapper)
                if rc in (78, 79):
                    tail = out
                    break
                if rc != 0:
                    (d / "output.txt").write_text(f"mode={mode} exit={rc}\n" + out)
                    (d / "run.sh").write_text(
                        "#!/bin/bash\n# rebuilds the harness natively from /repo and replays the counterexample\n"
                        f"cd {VERIF} && exec /usr/bin/python3 check.py --replay {self.prop} {d}\n")
                    return True, d, f"{mode}: exit {rc}: " + " | ".join(out.strip().splitlines()[:3])
                tail = out
                if time.time() - t0 > 90:
                    break
        (d / "output.txt").write_text("NOT REPRODUCED\n" + tail)
        return False, d, tail[-300:]

    def judge(self):
        errors, viol, known, unconf = [], [], [], []
        findings = load_findings(self.prop)
        for r in self.results:
            js = r["json"]
            if not js or r["rc"] not in (0, 1, 2):
                errors.append(f"{r['entry']}: engine failed (exit {r['rc']}): {r['log'][-800:]}")
                continue
            for i, v in enumerate(js.get("violations", [])):
                f = next((f for f in findings if f["entry"] == r["entry"] and f["kind"] == v["kind"] and re.fullmatch(f["match"], v["msg"])
                          and ("where" not in f or re.search(f["where"], " ".join([v["where"]] + v["stack"])))), None)
                if f:
                    if f not in known:
                        known.append(f)
                    continue
                viol.append((r, v, i))
        reported = []
        for r, v, i in viol[:6]:
            ok, path, text = self.replay(r, v, i)
            (reported if ok else unconf).append((r, v, path, text))
            if len(reported) >= 3:
                break
        for f in known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if not reported:
            for r in self.results:
                js = r["json"]
                if not js:
                    continue
                un = any(u[0] is r for u in unconf)
                if r["rc"] == 2 or (js.get("complete") is False and not js.get("violations")):
                    errors.append(f"{r['entry']}: incomplete: {js.get('incomplete_reason')} {js.get('notes')}")
                if js.get("unknown"):
                    errors.append(f"{r['entry']}: solver gave {js['unknown']} unknown answers")
                if not js.get("violations"):
                    for c in r["opts"].get("covers", []):
                        if not js.get("covers", {}).get(c):
                            errors.append(f"{r['entry']}: reachability witness '{c}' not reached")
            for e, rc, inp, tr, ntr, out in self.mismatch:
                errors.append(f"{e}: native run of a sampled path disagrees (exit {rc}, {tr} vs {ntr}) {out[-300:]} {json.dumps(inp)[:400]}")
            for r, v, path, text in unconf:
                errors.append(f"{r['entry']}: counterexample did not reproduce natively: {v['kind']}: {v['msg']} at {v['where']} ({path}) {text}")
        self.evidence(reported, known, errors)
        for r, v, path, text in reported:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {r['entry']}: {v['kind']}: {v['msg']}\n    at {v['where']}\n    native replay: {text[:400]}")
        if reported:
            return 1
        for e in errors:
            print("ERROR:", e)
        if errors:
            return 2
        tot = lambda k: sum(r["json"].get(k, 0) for r in self.results)
        print(f"OK property={self.prop} entries={len(self.results)} paths={tot('paths')} queries={tot('queries')} "
              f"validated={self.validated} build={self.build_s:.1f}s wall={time.time() - self.t0:.1f}s")
        return 0

    def evidence(self, reported, known, errors):
        tot = lambda k: sum(r["json"].get(k, 0) for r in self.results)
        funcs = set()
        for r in self.results:
            for loc, name in r["json"].get("functions", []):
                d, _, f = loc.partition("|")
                full = f if f.startswith("/") else os.path.join(d, f)
                full = os.path.normpath(full)
                m = re.search(r"gen_(\w+?)(?:/|$)(.*)", full) if str(B.CACHE) in full else None
                if full.startswith(str(B.REPO) + "/"):
                    funcs.add(full[len(str(B.REPO)) + 1:] + ": " + name)
                elif m:
                    funcs.add(f"generated[{m.group(1)}]/{m.group(2)}: " + name)
                elif "podioVersion" in full:
                    funcs.add("podioVersion.in.h: " + name)
        samples = []
        for r in self.results:
            for s in r["json"].get("samples", [])[:1]:
                samples.append({"entry": r["entry"], "inputs": s["inputs"][:12], "schedule": s["schedule"][:12], "trace": s["trace"][:8]})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec["level"],
            "coverage": {
                "states": tot("paths") + tot("forks") + tot("sched_forks"),
                "transitions": tot("instructions"),
                "traces_validated_against_impl": self.validated,
                "samples": samples[:10],
                "explanation": "symbolic paths of the real code (LLVM IR compiled from /repo and from code generated by /repo's generator); "
                               "every feasible path within the bounds is explored, every assertion and memory access on it is decided by Z3 "
                               "for all values of the symbolic inputs",
                "paths": tot("paths"), "schedule_forks": tot("sched_forks"), "asserts_checked": tot("asserts"),
                "asserts_decided_symbolically": tot("asserts_symbolic"), "memory_accesses_checked": tot("mem_checks"),
                "solver": "z3 (bit-vectors + IEEE floats)", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"),
                "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
                "bounds": self.spec["bounds"],
                "entries": {r["entry"]: {"paths": r["json"].get("paths"), "complete": r["json"].get("complete"),
                                         "covers": r["json"].get("covers"), "queries": r["json"].get("queries"),
                                         "wall_s": r["json"].get("wall_s")} for r in self.results},
                "functions_encoded": len(funcs), "functions": sorted(funcs)[:400],
                "exhaustive": bool(self.results) and all(r["json"].get("complete") for r in self.results),
            },
            "assumptions": self.spec.get("assumptions", []) + ENGINE_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(reported),
        }
        if known:
            ev["known_findings"] = [f["what"] for f in known]
        if errors:
            ev["errors"] = errors
        EVIDENCE.mkdir(parents=True, exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))


ENGINE_ASSUMPTIONS = [
    "LLVM IR of clang 18 -O1 represents the code (sampled paths are re-run natively from the same IR and must agree)",
    "libstdc++ internals that are not header code (exceptions, rb-tree, prime tables, string instantiations) run in the model /verif/engine/rt; "
    "stream output operators are no-ops",
    "operator new / malloc never fail for requests below 16 MB",
    "std::hash of strings is constant in the encoding (every bucket order that depends on it is excluded from the claims)",
]
