#!/usr/bin/env python3
"""mutation test of the C++ checks: cppmut.py FILE(relative to /repo) PROP,PROP.. [lo hi]   (a tool for strengthening the checks, no check uses it)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path(__file__).resolve().parent.parent
F, PROPS = sys.argv[1], sys.argv[2].split(",")
lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 3 else (0, 10**9)
lines = Path(os.environ.get("VP_REPO", "/repo"), F).read_text().splitlines(keepends=True)
RULES = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r"!(?=[a-zA-Z_(])", ""), (r" \+ 1\b", ""), (r" - 1\b", ""),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[ (,{=])0(?=[;,)} ])", "1"), (r"(?<=[ (,{=])1(?=[;,)} ])", "0"), (r"(?<=[ (,{=])-1(?=[;,)} ])", "0"), (r"\bif \((?!constexpr)(.*)\) \{", "if ((\\1) && false) {"),
         (r"\bif \((?!constexpr)(.*)\) \{", "if ((\\1) || true) {"), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r" << ", " >> "), (r" \| ", " & "), (r" & (?=\w)", " | "), (r"\bbegin\(\)", "end()"),
         (r"\bunique_lock\b|\block_guard\b", "LOCK"), (r"\bFrom\b", "To"), (r"\bTo\b", "From"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\breturn (?!false|true|nullptr)([^;{}]*);$", "return {};"), (r"\? (.*) : (.*);", "? \\2 : \\1;")]
muts, comment = [], False
for i, l in enumerate(lines):
    s = l.strip()
    if s.startswith("/*"):
        comment = True
    c = comment
    if "*/" in s:
        comment = False
    if c or s.startswith(("//", "#", "template", "using", "static_assert", "namespace", "friend", "concept", "requires", "*")) or not lo <= i + 1 <= hi:
        continue
    code = l.split("//")[0].rstrip()
    seen = set()
    for a, b in RULES:
        for m in re.finditer(a, code):
            new = code[:m.start()] + m.expand(b) + code[m.end():]
            if new != code and new not in seen:
                seen.add(new)
                muts.append((i, new))
    if re.match(r"^[\w:.>\-<*\[\]()&, ]+(\(.*\)|=.*|\+\+|--);$", s) and not re.match(r"^(return|auto|const|std::\w+<|static|using|inline|explicit|virtual|throw|delete|typename)\b", s) or re.match(r"^(std::lock_guard|std::unique_lock|throw|continue|break|delete|static_cast<void>)", s):
        muts.append((i, code[:len(code) - len(code.lstrip())] + "{}"))
W = Path(tempfile.mkdtemp(prefix="cppmut."))


def one(k):
    i, new = muts[k]
    d = W / str(k)
    subprocess.run(["git", "clone", "-q", "--shared", os.environ.get("VP_REPO", "/repo"), str(d)], check=True)
    (d / F).write_text("".join(lines[:i] + [new + "\n"] + lines[i + 1:]))
    tag = f"{F}:{i + 1} {lines[i].strip()!r} -> {new.strip()!r}"
    try:
        out = []
        for p in PROPS:
            r = subprocess.run(["timeout", "600", "python3", "check.py", p], cwd=V, env=dict(os.environ, VP_REPO=str(d), VP_EVIDENCE=str(d / "ev"), VP_CACHE=str(d / "cache")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return f"caught {p}: {tag}"
            if r.returncode and re.search(r"error:|compil", r.stdout):
                return f"build {p}: {tag}"
            if r.returncode:
                out.append(f"{p} rc {r.returncode} {r.stdout[-300:]!r}")
        return ("UNDECIDED: " if out else "SURVIVED: ") + tag + " ".join(out)
    finally:
        shutil.rmtree(d)


print(len(muts), "mutants", flush=True)
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(one, range(len(muts))):
        print(r, flush=True)
shutil.rmtree(W)
