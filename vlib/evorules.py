"""Turns what the generator wrote for schema evolution into C++ that a harness can execute:
the <ioread> rules of selection.xml (which ROOT would compile and run while reading), the class versions, and the
definitions of the classes as the older versions of the data model generated them (what is in the files)."""
import os, re, subprocess
from pathlib import Path


def _elements(xml, tag):
    """the generated file is what ROOT reads, which is not strictly XML: attribute values contain '<'"""
    xml = re.sub(r"<!--.*?-->", "", xml, flags=re.S)
    for m in re.finditer(r"<%s\b((?:\s+\w+=\"[^\"]*\")*)\s*(/>|>)" % tag, xml):
        at = dict(re.findall(r"(\w+)=\"([^\"]*)\"", m.group(1)))
        body = "" if m.group(2) == "/>" else xml[m.end():xml.index("</%s>" % tag, m.end())]
        c = re.search(r"<!\[CDATA\[(.*?)\]\]>", body, re.S)
        yield at, (c.group(1) if c else body)


def _split_sources(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c in ";," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def _versions(s, maxv):
    """ROOT's syntax: [1-3,5] or [-2] or [3-] or [*]"""
    vs = set()
    for part in s.strip().strip("[]").split(","):
        part = part.strip()
        if part == "*" or part == "":
            vs.update(range(1, maxv + 1))
        elif "-" in part:
            a, b = part.split("-", 1)
            vs.update(range(int(a or 1), int(b or maxv) + 1))
        else:
            vs.add(int(part))
    return sorted(v for v in vs if v <= maxv)


def old_definitions(gen_dir, pkg, ns):
    """the plain structs of one version of a model, wrapped into namespace ns"""
    files = sorted((Path(gen_dir) / pkg).glob("*.h"))
    keep = {}
    for f in files:
        n = f.stem
        t = f.read_text()
        cls = re.search(r"^class (\w+) \{", t, re.M)
        data = n.endswith("Data") and not n.endswith("CollectionData")
        comp = f"enum class" not in t and (f.parent.parent / "src" / (n + ".cc")).exists() and not (f.parent / (n + "Obj.h")).exists() \
            and not n.startswith("Mutable") and not n.endswith(("Obj", "Collection", "CollectionData"))
        if cls and (data or comp):
            keep[n] = t
    deps = {n: [d for d in re.findall(r'#include "%s/(\w+)\.h"' % pkg, t) if d in keep] for n, t in keep.items()}
    order = []

    def visit(n):
        if n not in order:
            for d in deps[n]:
                visit(d)
            if n not in order:
                order.append(n)
    for n in keep:
        visit(n)
    out = ["namespace %s {" % ns]
    for n in order:
        t = keep[n]
        t = re.sub(r"#if defined\(PODIO_JSON_OUTPUT\).*?#endif", "", t, flags=re.S)
        t = re.sub(r"^#.*$", "", t, flags=re.M)
        t = re.sub(r"^std::ostream& operator<<.*$", "", t, flags=re.M)
        t = re.sub(r"namespace v\d+ \{.*?\} // namespace v\d+", "", t, flags=re.S)
        t = re.sub(r"(?<![\w>])::(\w)", ns + r"::\1", t)
        out.append(t)
    out.append("} // namespace %s" % ns)
    return "\n".join(out)


def write(new_dir, pkg, old_dirs, repo_inc, out):
    """old_dirs: {version: dir}. Writes header `out`."""
    xml = (Path(new_dir) / "src" / "selection.xml").read_text()
    head = ["// generated from selection.xml and the older versions of the model", "#pragma once",
            "#include <array>", "#include <cstdint>", "#include <string>", "#include <type_traits>", "#include <vector>"]
    for f in sorted((Path(new_dir) / pkg).glob("*Collection.h")):
        head.append('#include "%s/%s"' % (pkg, f.name))
    for v, d in sorted(old_dirs.items()):
        head.append(old_definitions(d, pkg, "file_v%d" % v))
    versions, old = [], []
    for c, _ in _elements(xml, "class"):
        versions.append((c.get("name"), int(c.get("ClassVersion") or 0)))
    head.append("struct ClassVersion { const char* name; int version; };")
    head.append("inline const ClassVersion classVersions[] = {%s};" % ", ".join('{"%s", %d}' % x for x in versions))
    names, same = set(), []
    for v, d in sorted(old_dirs.items()):
        cur = "\n".join(p.read_text() for p in (Path(new_dir) / pkg).glob("*.h"))
        text = old_definitions(d, pkg, "file_v%d" % v)
        names |= set(re.findall(r"^\s+[\w:<>, ]+ (\w+)\{\};", text, re.M))
        stack = []
        for line in text.splitlines():
            m = re.match(r"namespace (\w+) \{", line)
            if m:
                stack.append(m.group(1))
            elif re.match(r"\} // namespace", line):
                stack.pop()
            m = re.match(r"class (\w+) \{", line)
            if m:
                q = "::".join(stack[1:] + [m.group(1)])
                if re.search(r"name=\"%s\"" % re.escape(q), xml):
                    same.append("template <> struct SameClass<::%s::%s, ::%s> : std::true_type {};" % (stack[0], q, q))
                old.append("::%s::%s" % (stack[0], q))
    head.append("template <typename Old, typename New> struct SameClass : std::is_same<Old, New> {};")
    head += same
    head.append("#define EV_MEMBERS " + " ".join("EV_MEMBER(%s)" % n for n in sorted(names)))
    # without a rule nothing connects classes of different names
    head.append("template <typename Old, typename New> struct Rules { static constexpr bool any = false; static void apply(const Old&, New&) {} };")
    head.append("template <typename Old, typename New> void evolve(const Old& o, New& n);")
    rules = {}
    for r, code in _elements(xml, "ioread"):
        for v in _versions(r.get("version") or "[*]", max(old_dirs)):
            rules.setdefault((v, r.get("sourceClass"), r.get("targetClass")), []).append(
                (_split_sources(r.get("source") or ""), [t.strip() for t in (r.get("target") or "").replace(";", ",").split(",") if t.strip()], code))
    blocks, broken = [], []
    for (v, sc, tc), rs in rules.items():
        bodies = []
        for srcs, tgts, code in rs:
            b = ["    {", "      struct { %s } onfile{};" % " ".join(s + "{};" for s in srcs)]
            for s in srcs:
                nm = re.search(r"(\w+)\s*$", s).group(1)
                b.append("      evolve(old.%s, onfile.%s);" % (nm, nm))
            for t in tgts:
                b.append("      [[maybe_unused]] auto& %s = obj.%s;" % (t, t))
            b += [code, "    }"]
            bodies.append("\n".join(b))
        blocks.append(((v, sc, tc), bodies))

    def emit(key, bodies):
        v, sc, tc = key
        return ("template <> struct Rules<file_v{v}::{sc}, ::{tc}> {{\n  static constexpr bool any = true;\n"
                "  static void apply([[maybe_unused]] const file_v{v}::{sc}& old, [[maybe_unused]] ::{tc}& obj) {{\n{b}\n  }}\n}};"
                ).format(v=v, sc=sc, tc=tc, b="\n".join(bodies))

    def ok(text):
        tmp = Path(str(out) + ".try.h")
        tmp.write_text("\n".join(head) + "\n" + text + "\n#include \"evolve.h\"\n")
        r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-w", "-x", "c++", str(tmp), "-I%s" % new_dir,
                            "-I" + str(Path(__file__).resolve().parent.parent / "harness")] + repo_inc,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tmp.unlink()
        return r.returncode == 0, r.stdout

    text = "\n".join(emit(k, b) for k, b in blocks)
    good, msg = ok(text)
    if not good and ok("")[0]:
        parts = []
        for k, bodies in blocks:
            fine = []
            for b in bodies:
                if ok(emit(k, [b]))[0]:
                    fine.append(b)
                else:
                    broken.append("%s (version %d) to %s" % (k[1], k[0], k[2]))
            if fine:
                parts.append(emit(k, fine))
        text = "\n".join(parts)
    tail = ["inline const std::vector<std::string> brokenRules = {%s};" % ", ".join('"%s"' % b for b in broken), '#include "evolve.h"']
    Path(out).write_text("\n".join(head) + "\n" + text + "\n" + "\n".join(tail) + "\n")
