#!/usr/bin/env python3
"""mutation test of the Python checks: pymut.py FILE(relative to python/) PROP,PROP.. [lo hi]   (work list on stdout)"""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path(__file__).resolve().parent.parent
F, PROPS = sys.argv[1], sys.argv[2].split(",")
REPO = Path(os.environ.get("VP_REPO", "/repo"))
SRC = REPO / (F if F.startswith("tools/") else "python/" + F)
src = SRC.read_text()
lines = src.splitlines(keepends=True)
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()))
b = src.encode()
pos = lambda l, c: off[l - 1] + c
seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
SW = {"full_type": "bare_type", "bare_type": "full_type", "old_member": "new_member", "new_member": "old_member", "components": "datatypes", "datatypes": "components", "name_old": "name_new",
      "name_new": "name_old", "array_type": "full_type", "is_builtin": "is_array", "is_array": "is_builtin", "namespace": "bare_type", "interfaces": "datatypes", "array_size": "array_type",
      "member_name_old": "member_name_new", "member_name_new": "member_name_old", "is_builtin_array": "is_builtin", "from_version": "to_version", "to_version": "from_version"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is"}
muts = []


def add(n, new, what):
    muts.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, n.lineno, what))


tree = ast.parse(src)
doc = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
main = next((n.lineno for n in tree.body if isinstance(n, ast.If) and "__name__" in seg(n.test)), 10**9)
for n in ast.walk(tree):
    if getattr(n, "lineno", 0) >= main:
        continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "cmp")
    elif isinstance(n, ast.BoolOp):
        o = " or " if isinstance(n.op, ast.And) else " and "
        add(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "bool")
        for v in n.values:
            add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(w)})" for w in n.values if w is not v) + ")", "drop cond")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        add(n, f"({seg(n.operand)})", "not")
    elif isinstance(n, (ast.Expr, ast.Raise, ast.Continue)) and id(n) not in doc:
        add(n, "pass", "del")
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        add(n, str(not n.value), "bool const")
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
        add(n, str(n.value + 1), "const")
    elif isinstance(n, ast.Attribute) and n.attr in SW:
        add(n, f"{seg(n.value)}.{SW[n.attr]}", "attr")
    elif isinstance(n, ast.IfExp):
        add(n, f"({seg(n.body)})", "ifexp")
        add(n, f"({seg(n.orelse)})", "ifexp")
    elif isinstance(n, ast.If):
        add(n.test, f"({seg(n.test)}) and False", "if")
        add(n.test, f"({seg(n.test)}) or True", "if")
    elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", None), ast.Load):
        for i in range(len(n.elts)):
            add(n, ("({},)" if isinstance(n, ast.Tuple) else "[{}]").format(", ".join(seg(x) for j, x in enumerate(n.elts) if j != i)), "drop element")
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "sort", "fullmatch", "match", "deepcopy"):
        if n.func.attr == "fullmatch":
            add(n.func, seg(n.func.value) + ".match", "match")
        elif n.func.attr in ("copy", "strip"):
            add(n, seg(n.func.value), "drop call")
        elif n.func.attr == "deepcopy":
            add(n, seg(n.args[0]), "drop call")
if len(sys.argv) > 3:
    muts = [m for m in muts if int(sys.argv[3]) <= m[3] <= int(sys.argv[4])]
W = Path(tempfile.mkdtemp(prefix="pymut."))


def one(k):
    a, z, new, line, what = muts[k]
    d = W / str(k)
    shutil.copytree(REPO / "python", d / "python")
    shutil.copytree(REPO / "tools", d / "tools")
    (d / (F if F.startswith("tools/") else "python/" + F)).write_bytes(b[:a] + new.encode() + b[z:])
    tag = f"{F}:{line} [{what}] {b[a:z].decode()[:70]!r} -> {new[:70]!r}"
    try:
        r = subprocess.run(["true"] if not F.startswith("podio_") else ["timeout", "60", "python3", "-B", "-m", "unittest", "discover", "-s", "python/podio_gen", "-t", "python"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return "unit tests: " + tag
        out = []
        for p in PROPS:
            r = subprocess.run(["timeout", "300", "python3", "check.py", p], cwd=V, env=dict(os.environ, VP_REPO=str(d), VP_EVIDENCE=str(d / "ev")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return f"caught {p}: {tag}"
            if r.returncode:
                out.append(f"{p} rc {r.returncode} {r.stdout[-200:]!r}")
        return "SURVIVED: " + tag + " ".join(out)
    finally:
        shutil.rmtree(d)


print(len(muts), "mutants", flush=True)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, range(len(muts))):
        print(r, flush=True)
shutil.rmtree(W)
