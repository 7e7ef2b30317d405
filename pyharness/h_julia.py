"""The Julia generator (podio_gen/julia_generator.py, get_julia_type)"""
from pysym.engine import eq, f_and, f_or, f_not, lift
import podio_gen.generator_base as base
import podio_gen.julia_generator as jl
from podio_gen.generator_utils import MemberVariable
from podio_gen.podio_config_reader import PodioConfigReader
from pyharness.h_model import dtype, member
from pyharness.h_gen import upstream_u
DEPTH = 0

JL = {"bool": "Bool", "char": "Char", "short": "Int16", "int": "Int32", "long": "Int64", "long long": "Int64", "unsigned": "UInt32", "unsigned int": "UInt32", "unsigned long": "UInt64", "unsigned long long": "UInt64",
      "float": "Float32", "double": "Float64"}
for _u in ("", "u"):
    for _b in (16, 32, 64):
        for _s in ("", "std::"):
            JL[f"{_s}{_u}int{_b}_t"] = f"{'U' if _u else ''}Int{_b}"


class Run:
    def __init__(self, model, upstream=None):
        import copy
        self.out, self.files = [], []
        run = self

        def read(cls, yamlfile, package_name, upstream_edm=None, ignore_extracode=False):
            return cls.parse_model(copy.deepcopy(model), package_name, upstream_edm, None, ignore_extracode)

        def write(filename, content, force_write=False):
            run.files.append(filename)
            return True

        PodioConfigReader.read = classmethod(read)
        base.write_file_if_changed = write
        base._get_bytecode_cache = lambda: None

        class Gen(jl.JuliaClassGenerator):
            def _eval_template(self, template, data):
                run.out.append((template, dict(data)))
                return template

        self.gen = Gen("new", "out", "pkg", False, False, upstream)
        self.gen.process()

    def parent(self):
        r = [d for t, d in self.out if t == "ParentModule.jl.jinja2"]
        assert len(r) == 1
        return r[0]


def h_julia_types(e):
    """the Julia types of members"""
    t = e.sym("type", list(JL) + ["Comp", "ns::Comp"])
    bare = lambda x: x.split("::")[-1]
    e.check(eq(MemberVariable(name="m", type=t).julia_type, lift(lambda x: JL.get(x, bare(x)), t)), "the Julia type has the same size and sign")
    n = e.sym("size", ["1", "3", "17"])
    e.check(eq(MemberVariable(name="m", array_type=t, array_size=n).julia_type, lift(lambda x, k: "MVector{%s, %s}" % (k, JL.get(x, bare(x) + "Struct")), t, n)), "arrays have elements of the same type")
    e.cover("done")


def h_julia_order(e):
    """all structs are written and included once, after those they contain; what needs interfaces is left out"""
    order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][e.choose(6, "order")]
    up, uns = upstream_u(e)
    ns = ["ns::", ""][e.choose(2, "namespace")] if DEPTH or not uns else ""
    C = [ns + x for x in "ABC"]
    arrays = e.flip("arrays")
    # C[i] can contain C[j] for j < i
    def contents(i):
        t = e.sym("member of %d" % i, ["int"] + C[:i] + [uns + "U"])
        arr = arrays if i < 2 or not DEPTH else e.flip("array in %d" % i)
        return t, lift(lambda x: f"std::array<{x}, 2> m{i} // d" if arr else f"{x} m{i} // d", t)

    ms = [contents(i) for i in range(3)]
    vec = e.flip("vector member")
    D, E, I = ns + "D", ns + "E", ns + "I"
    itf = e.choose(3, "interfaces")
    dt = e.sym("member of the data type", ["int"] + C + [uns + "U"]) if DEPTH or not (vec and itf) else "int"
    data = [(D, dtype(**{"VectorMembers" if vec else "Members": [lift(lambda x: f"{x} md // d", dt)]}, **({"OneToManyRelations" if itf == 2 else "OneToOneRelations": [f"{I} i // d"]} if itf else {}))),
            (E, dtype(Members=["int x // d"], OneToOneRelations=[f"{E} e // d"]))]
    model = dict(schema_version=1, options=dict(exposePODMembers=False), components={C[i]: {"Members": [ms[i][1]]} for i in order}, datatypes=dict(data), interfaces={I: dtype(Members=["int x // d"], Types=[E])} if itf else {})
    r = Run(model, up)
    p = r.parent()
    inc = [x for x in p["includes"]]
    want = ["A", "B", "C", "E"] + ([] if itf else ["D"])
    e.check(sorted(inc) == sorted(want), "every struct is included once")
    e.check(sorted(r.files) == sorted([f"out/pkg/{x}Struct.jl" for x in want] + ["out/pkg/Pkg.jl"]), "every file is written once")
    pos = {x: i for i, x in enumerate(inc)}
    for i in range(3):
        for j in range(i):
            if lift(lambda x: x == C[j], ms[i][0]):
                e.check(pos["ABC"[j]] < pos["ABC"[i]], "structs are included before those that contain them")
                e.cover("nested")
        if not itf and lift(lambda x: x == C[i], dt):
            e.check(pos["ABC"[i]] < pos["D"], "components are included before the data types that contain them")
    e.check(sorted(c["class"].full_type for c in p["components"]) == sorted(C) and sorted(c["class"].full_type for c in p["datatypes"]) == sorted([E] + ([] if itf else [D])), "constructors for all structs")
    e.check(bool(p["static_arrays_import"]) == any("std::array" in str(e.concretize(m[1])) for m in ms), "StaticArrays are imported exactly if there are arrays")


def h_julia_relations(e):
    """relations become type parameters, and data types that need left out ones are left out as well"""
    names = ["D", "E", "F"]
    # upstream: V is a type like any other, W uses the interface J, X uses W
    up = None
    if e.flip("upstream"):
        up = PodioConfigReader.parse_model(dict(schema_version=1, options=dict(includeSubfolder=True), datatypes={"up::V": dtype(Members=["int v // d"]), "up::W": dtype(OneToOneRelations=["up::J j // d"]), "up::X": dtype(OneToManyRelations=["up::W w // d"])},
                                                interfaces={"up::J": dtype(Members=["int v // d"], Types=["up::V"])}), "uppkg")
    more = ["up::V", "up::W", "up::X", "up::J"] if up else []
    order = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][e.choose(3, "order")]
    rel = {}
    for n, most in zip(names, (1 if up and not DEPTH else 2, 1 + DEPTH, 1)):
        k = e.choose(most + 1, n + " relations")
        first = e.choose(2, "kind") if k == 1 else 0
        rel[n] = [(e.sym("relation of " + n, ["D", "E", "F", "I"] + (more if n == "D" else [])), (first + j) % 2) for j in range(k)]
    model = dict(schema_version=1, options=dict(exposePODMembers=False),
                 datatypes={names[i]: dtype(OneToOneRelations=[lift(lambda x: f"{x} r{j} // d", t) for j, (t, k) in enumerate(rel[names[i]]) if not k],
                                            OneToManyRelations=[lift(lambda x: f"{x} r{j} // d", t) for j, (t, k) in enumerate(rel[names[i]]) if k]) for i in order},
                 interfaces={"I": dtype(Members=[], Types=["F"])})
    r = Run(model, up)
    p = r.parent()
    out = {"I", "up::J", "up::W", "up::X"}
    for _ in range(3):
        out |= {n for n in names if any(lift(lambda x: x in out, t) for t, _ in rel[n])}
    kept = sorted(n for n in names if n not in out)
    e.check(sorted(p["includes"]) == kept, "data types that need interfaces, or data types that do, are left out")
    e.check(sorted(d["class"].full_type for d in p["datatypes"]) == kept, "constructors for all others")
    e.check(sorted(f for f in r.files if f != "out/pkg/Pkg.jl") == [f"out/pkg/{n}Struct.jl" for n in kept], "the files of all others")
    for d in p["datatypes"]:
        want = sorted({e.concretize(t) for t, _ in rel[d["class"].full_type]})
        e.check(sorted(tuple(map(str, x)) for x in d["params_jl"]) == sorted((w.split("::")[-1], w) for w in want), "the parameters are the types of the relations")
        e.cover("parameters" if want else "none")
