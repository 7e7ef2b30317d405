"""The C++ generator (podio_gen/cpp_generator.py): what it passes to the templates for a data model"""
from pysym.engine import eq, eqv, f_and, f_or, f_not, is_sym, lift, rt_in, cases
import podio_gen.generator_base as base
import podio_gen.cpp_generator as cpp
from podio_gen.podio_config_reader import PodioConfigReader
from podio_gen.schema_evolution import SchemaMigrationReader
from podio_gen.generator_utils import DefinitionError
from pyharness.h_model import dtype, member, pick, el
DEPTH = 0


class Run:
    """one run of the generator: the templates and the files with what they got"""
    def __init__(self, files, upstream=None, name="new", old=(), evolution=None, io=("ROOT",)):
        self.out, self.files = [], {}
        run = self

        def read(cls, yamlfile, package_name, upstream_edm=None, ignore_extracode=False):
            import copy
            return cls.parse_model(copy.deepcopy(files[yamlfile]), package_name, upstream_edm, None, ignore_extracode)

        def write(filename, content, force_write=False):
            run.files[filename] = content
            return True

        PodioConfigReader.read = classmethod(read)
        SchemaMigrationReader.read_yaml = staticmethod(lambda f: SchemaMigrationReader._parse_migrations(f))
        base.write_file_if_changed = write
        cpp.write_file_if_changed = write

        class Gen(cpp.CPPClassGenerator):
            def _eval_template(self, template, data):
                run.out.append((template, dict(data)))
                return template

        base._get_bytecode_cache = lambda: None
        self.gen = Gen(name, "out", "pkg", list(io), False, False, upstream, list(old), {"migrations": evolution} if evolution else None)
        self.gen.process()

    def get(self, template, cls=None):
        """the data of a template (for one class)"""
        r = [d for t, d in self.out if t == template and (cls is None or d["class"].full_type == cls)]
        assert len(r) == 1, (template, cls, len(r))
        return r[0]


def upstream(e):
    """the upstream model: component U, data type V, interface J, and a data type D like in the model, but in another namespace (or nothing)"""
    k = e.choose(3, "upstream")
    if not k:
        return None, None
    ns = ["", "up::"][e.choose(2, "upstream namespace")] if k == 2 else "up::"
    m = PodioConfigReader.parse_model(dict(schema_version=1, options=dict(includeSubfolder=k == 2), components={ns + "U": {"Members": ["int u // d"]}},
                                           datatypes={x: dtype(Members=["int v // d"]) for x in [ns + "V"] + ["up::D"] * (ns == "up::")}, interfaces={ns + "J": dtype(Members=["int v // d"], Types=[ns + "V"])}), "uppkg")
    return m, ns


def header(e, t, sub, ups):
    """the header of a type with the given name; upstream types are in the folder of their package"""
    def f(x):
        b = x.split("::")[-1]
        if ups and any(x in d for d in (ups.components, ups.datatypes, ups.interfaces)):
            return '#include "%s%s.h"' % (ups.options["includeSubfolder"], b)
        return '#include "%s%s.h"' % ("pkg/" if sub else "", b)

    return lift(f, t)


def coll(h):
    return lift(lambda x: x.replace('.h"', 'Collection.h"'), h)


def has(e, includes, want, what):
    e.check(f_or(*[eqv(x, want) for x in includes]), what)


def sane(e, includes, own, what):
    """nothing is included twice, and no header includes itself"""
    e.check(f_not(f_or(*[eqv(x, own) for x in includes])), what + " does not include itself")


def h_includes(e):
    """every generated file includes the headers of the types it uses"""
    up, uns = upstream(e)
    sub = e.flip("includeSubfolder")
    ns = ["", "ns::"][e.choose(2, "namespace")]
    cat = ["Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"][e.choose(4, "category")]
    n = 1 + e.choose(2, "members")
    D, E, I = ns + "D", ns + "E", ns + "I"
    if cat in ("Members", "VectorMembers"):
        types = ["int", "int16_t", ns + "A", ns + "B"] + ([uns + "U"] if up else [])
    else:
        types = [D, E, I] + ([uns + "V", uns + "J"] if up else [])
        if up and "up::D" in up.datatypes and sub and up.options["includeSubfolder"]:
            types.append("up::D")
    t = [e.sym("type", types) for _ in range(n)]
    array = e.flip("arrays") if cat == "Members" else False
    text = [lift((lambda x: f"std::array<{x}, 3>") if array else (lambda x: x), x) for x in t]
    d = dtype(**{cat: [member(x, "pq"[i]) for i, x in enumerate(text)]})
    both = [(D, d), (E, dtype(Members=["int x // d"]))]
    if e.flip("order"):
        both.reverse()
    model = dict(schema_version=1, options=dict(includeSubfolder=sub, exposePODMembers=False), components={ns + "A": {"Members": ["int a"]}, ns + "B": {"Members": ["int b", f"{ns}A c"]}},
                 datatypes=dict(both), interfaces={I: dtype(Members=["int x // d"], Types=[E])})
    r = Run({"new": model}, up)
    own = lambda x: header(e, x, sub, up)
    obj, mut, objh, data = r.get("Object.h.jinja2", D), r.get("MutableObject.h.jinja2", D), r.get("Obj.h.jinja2", D), r.get("Data.h.jinja2", D)
    ccoll, cdata = r.get("Collection.cc.jinja2", D), r.get("CollectionData.h.jinja2", D)
    for x in t:
        if lift(lambda v: v == "int", x):
            continue
        if lift(lambda v: v == "int16_t", x):
            if cat == "Members":
                has(e, data["includes_data"], "#include <cstdint>", "the data include <cstdint>")
            continue
        h = own(x)
        if cat == "Members":
            has(e, data["includes_data"], h, "the data include their components")
            has(e, obj["includes"], h, "the object includes the components")
            has(e, mut["includes"], h, "the mutable object includes the components")
            e.cover("component")
        elif cat == "VectorMembers":
            has(e, objh["includes_obj"], h, "the stored object includes the components of vector members")
            e.cover("vector member")
        elif not lift(lambda v: v == D, x):
            interface = lift(lambda v: v.split("::")[-1] in "IJ", x)
            if cat == "OneToOneRelations":
                has(e, r.get("Object.cc.jinja2", D)["includes_cc"], h, "the object includes its one to one relations")
                has(e, r.get("MutableObject.cc.jinja2", D)["includes_cc"], h, "the mutable object includes its one to one relations")
                has(e, r.get("Obj.cc.jinja2", D)["includes_cc_obj"], h, "the stored object includes its one to one relations")
                for fwd, who in ((obj["forward_declarations"], "object"), (objh["forward_declarations_obj"], "stored object")):
                    decl = [lift(lambda a, b: a + "::" + b if a else b, a, b) for a, bs in fwd.items() for b in bs]
                    has(e, decl, x, f"the {who} declares the types of its one to one relations")
            else:
                has(e, obj["includes"], h, "the object includes its one to many relations")
                has(e, mut["includes"], h, "the mutable object includes its one to many relations")
                has(e, objh["includes_obj"], h, "the stored object includes its one to many relations")
            has(e, cdata["includes_coll_data"], h, "the collection data include the types of relations")
            if interface:
                has(e, ccoll["includes_coll_cc"], h, "the collection includes the interfaces of relations")
                used = lift(lambda v: v[:-1] + {"I": "E", "J": "V"}.get(v[-1], v[-1]), x)
                has(e, ccoll["includes_coll_cc"], coll(own(used)), "the collection includes the collections behind interfaces")
                e.cover("interface")
            else:
                has(e, ccoll["includes_coll_cc"], coll(h), "the collection includes the collections of relations")
                e.cover("relation")
        else:
            decl = [lift(lambda a, b: a + "::" + b if a else b, a, b) for a, bs in obj["forward_declarations"].items() for b in bs]
            if cat == "OneToManyRelations":
                has(e, r.get("Obj.cc.jinja2", D)["includes_cc_obj"], own(D), "the stored object includes its own type for one to many relations")
            e.cover("own type")
    for incs, h, what in ((obj["includes"], own(D), "the object"), (mut["includes"], own(ns + "MutableD"), "the mutable object"), (objh["includes_obj"], own(ns + "DObj"), "the stored object"),
                          (data["includes_data"], own(ns + "DData"), "the data")):
        sane(e, incs, h, what)
    e.check(f_not(f_or(*[eqv(x, own(D)) for x in objh["includes_obj"]])), "no circle of includes")
    if cat == "VectorMembers" or cat == "OneToManyRelations":
        for x in (obj, mut):
            has(e, x["includes"], '#include "podio/RelationRange.h"', "ranges of relations and vector members")
    if array:
        has(e, data["includes_data"], "#include <array>", "arrays")
    e.check(bool(r.get("Obj.h.jinja2", D)["is_trivial_type"]) == (cat == "Members"), "types without relations and vector members are trivial")
    decl = [lift(lambda a, b: a + "::" + b if a else b, a, b) for a, bs in obj["forward_declarations"].items() for b in bs]
    has(e, decl, D + "Collection", "the object declares its collection")
    # (the interface is a friend of the types it stands for)
    eo = r.get("Object.h.jinja2", E)
    has(e, [lift(lambda a, b: a + "::" + b if a else b, a, b) for a, bs in eo["forward_declarations"].items() for b in bs], I, "types declare the interfaces they are used in")
    e.check([str(x) for x in eo["using_interface_types"]] == [I] and not obj["using_interface_types"], "interfaces of a type")


def h_component_includes(e):
    """components include the headers of their members"""
    up, uns = upstream(e)
    sub = e.flip("includeSubfolder")
    ns = ["", "ns::"][e.choose(2, "namespace")]
    types = ["int", "uint64_t", ns + "A"] + ([uns + "U"] if up else [])
    t = [e.sym("type", types) for _ in range(2)]
    array = e.flip("arrays")
    text = [lift((lambda x: f"std::array<{x}, 3>") if array else (lambda x: x), x) for x in t]
    comps = [(ns + "A", {"Members": ["int a"]}), (ns + "B", {"Members": [member(x, "pq"[i], "") for i, x in enumerate(text)]})]
    code = e.flip("extra code")
    if code:
        comps[1][1]["ExtraCode"] = {"includes": "#include <cmath>\n#include \"my/Other.h\"", "declaration": "int f();"}
    if e.flip("order"):
        comps.reverse()
    r = Run({"new": dict(schema_version=1, options=dict(includeSubfolder=sub), components=dict(comps))}, up)
    b = r.get("Component.h.jinja2", ns + "B")
    for x in t:
        if lift(lambda v: v == "int", x):
            continue
        if lift(lambda v: v == "uint64_t", x):
            has(e, b["includes"], "#include <cstdint>", "the component includes <cstdint>")
        else:
            has(e, b["includes"], header(e, x, sub, up), "the component includes the components it contains")
            e.cover("component")
    if array:
        has(e, b["includes"], "#include <array>", "arrays")
    if code:
        has(e, b["includes"], "#include <cmath>", "includes of the extra code")
        has(e, b["includes"], '#include "my/Other.h"', "includes of the extra code")
    sane(e, b["includes"], header(e, ns + "B", sub, up), "the component")


def h_link_includes(e):
    """links and interfaces include the collections of what they refer to"""
    up, uns = upstream(e)
    sub = e.flip("includeSubfolder")
    ns = ["", "ns::"][e.choose(2, "namespace")]
    D, E, I = ns + "D", ns + "E", ns + "I"
    other = ["up::D"] if up and "up::D" in up.datatypes and sub and up.options["includeSubfolder"] else []
    fr, to = (e.sym(x, [D, E, I] + ([uns + "V", uns + "J"] if up else []) + other) for x in ("from", "to"))
    ts = [e.sym("interface type", [D, E] + ([uns + "V"] if up else []) + other) for _ in range(1 + e.choose(2, "interface types"))]
    if len(ts) == 2:
        e.assume(f_not(eq(*ts)))
    r = Run({"new": dict(schema_version=3, options=dict(includeSubfolder=sub), datatypes={D: dtype(), E: dtype()}, interfaces={I: dtype(Members=["int x // d"], Types=ts)},
                         links={ns + "L": dtype(From=fr, To=to)})}, up)
    link, itf = r.get("LinkCollection.h.jinja2", ns + "L"), r.get("Interface.h.jinja2", I)
    for x in (fr, to):
        if lift(lambda v: v.split("::")[-1] in "IJ", x):
            has(e, link["include_types"], header(e, x, sub, up), "a link includes the interfaces it refers to")
            e.cover("interface")
        else:
            has(e, link["include_types"], coll(header(e, x, sub, up)), "a link includes the collections it refers to")
            e.cover("collection")
    e.check(f_and(eq(link["From"].full_type, fr), eq(link["To"].full_type, to)), "the ends of the link")
    e.check(len(itf["Types"]) == len(ts) and f_and(*[eq(a.full_type, b) for a, b in zip(itf["Types"], ts)]), "the types of the interface, in order")
    for x in ts:
        has(e, itf["include_types"], coll(header(e, x, sub, up)), "an interface includes the collections of its types")
    reg = r.get("DatamodelLinks.cc.jinja2")
    e.check([x["class"].full_type for x in reg["links"]] == [ns + "L"], "links are registered")


def h_nested(e):
    """namespaces are not nested: no generator writes anything for such a type"""
    n = 1 + e.choose(3, "parts")
    name = lift(lambda x: "::".join(["a", "b"][:n - 1] + [x]), e.sym("name", ["C", "B1"]))
    part = e.choose(6, "where")
    model = dict(schema_version=1, options=dict(includeSubfolder=e.flip("includeSubfolder")), components={"K": {"Members": ["int x"]}}, datatypes={"D": dtype(), "E": dtype()})
    if part == 0:
        model["components"] = {name: {"Members": ["int x"]}}
    elif part == 1:
        model["datatypes"][name] = dtype()
    elif part == 2:
        model["interfaces"] = {name: dtype(Members=["int x // d"], Types=["D"])}
    elif part == 3:
        model["links"] = {name: dtype(From="D", To="E")}
    elif part == 4:
        model["components"][name] = {"Members": ["int x"]}
        model["datatypes"]["D"] = dtype(Members=[lift(lambda x: f"{x} m // d", name)])
    else:
        model["components"] = {name: {"Members": ["int x"]}, "Q": {"Members": [lift(lambda x: f"std::array<{x}, 2> m // d", name)]}}
    try:
        Run({"new": model})
    except (DefinitionError, SystemExit):
        e.check(n == 3, "a type in a namespace is accepted")
        e.cover("refused")
        return
    e.check(n < 3, "a type in a nested namespace is refused")
    e.cover("accepted")


def h_files(e):
    """the files of a model: complete lists, no file is written twice"""
    sub = e.flip("includeSubfolder")
    ns = ["", "ns::"][e.choose(2, "namespace")]
    nc, nd, ni, nl = (e.choose(3, x) for x in ("components", "data types", "interfaces", "links"))
    e.assume(nd > 0 or (ni == 0 and nl == 0))
    io = [[], ["ROOT"], ["SIO"], ["ROOT", "SIO"]][e.choose(4, "io")]
    model = dict(schema_version=3, options=dict(includeSubfolder=sub), components={f"{ns}C{i}": {"Members": ["int x"]} for i in range(nc)}, datatypes={f"{ns}D{i}": dtype() for i in range(nd)},
                 interfaces={f"{ns}I{i}": dtype(Members=[], Types=[f"{ns}D0"]) for i in range(ni)}, links={f"{ns}L{i}": dtype(From=f"{ns}D0", To=f"{ns}D{nd - 1}") for i in range(nl)})
    r = Run({"new": model}, io=io)
    h = [f"C{i}.h" for i in range(nc)]
    cc = [f"C{i}.cc" for i in range(nc)]
    for i in range(nd):
        h += [x % i for x in ("D%dData.h", "D%d.h", "MutableD%d.h", "D%dObj.h", "D%dCollection.h", "D%dCollectionData.h")]
        cc += [x % i for x in ("D%d.cc", "MutableD%d.cc", "D%dObj.cc", "D%dCollection.cc", "D%dCollectionData.cc")]
        if "SIO" in io:
            h.append("D%dSIOBlock.h" % i)
            cc.append("D%dSIOBlock.cc" % i)
    h += [f"I{i}.h" for i in range(ni)] + [f"L{i}Collection.h" for i in range(nl)] + ["pkg.h", "DatamodelDefinition.h"]
    if nl:
        cc.append("DatamodelLinks.cc")
        if "SIO" in io:
            cc.append("DatamodelLinkSIOBlock.cc")
    want = ["out/pkg/" + x for x in h] + ["out/src/" + x for x in cc] + (["out/src/selection.xml"] if "ROOT" in io else [])
    got = [f for f in r.files if not f.endswith(".cmake")]
    e.check(sorted(got) == sorted(want), "the generated files")
    e.check(sorted(r.gen.generated_files) == sorted(want), "every file is written once, and listed")
    cmake = r.files["out/podio_generated_files.cmake"]
    for var, prefix, sel in (("headers", "${ARG_OUTPUT_FOLDER}/${datamodel}/", ".h"), ("sources", "${ARG_OUTPUT_FOLDER}/src/", ".cc"), ("selection_xml", "${ARG_OUTPUT_FOLDER}/src/", ".xml")):
        lst = cmake.split(f"SET({var}\n")[1].split(")\n" if ")\n" in cmake.split(f"SET({var}\n")[1] else ")")[0].split()
        e.check(sorted(lst) == sorted(prefix + w.rsplit("/", 1)[1] for w in want if w.endswith(sel)), f"the list of {var} for cmake")
    al = r.get("datamodel.h.jinja2")
    e.check(sorted(al["includes"]) == sorted([f"D{i}Collection.h" for i in range(nd)] + [f"L{i}Collection.h" for i in range(nl)]), "the header of the model includes all collections")
    if "ROOT" in io:
        x = r.get("selection.xml.jinja2")
        e.check(sorted(c.full_type for c in x["components"]) == sorted(model["components"]), "all components get dictionaries")
        e.check(sorted(c.full_type for c in x["datatypes"]) == sorted(model["datatypes"]), "all data types get dictionaries")
        e.check(x["version"] == 3, "the version of the dictionaries")
    e.trace("files", sorted(got))
    e.cover("all" if nc and nd and ni and nl else "some")


# ---------------------------------------------------------------- older versions
def h_rules(e):
    """the dictionaries of older versions, and the rules to read them, for renamed members"""
    k = e.choose(8, "model")
    up, uns = upstream_u(e) if k & 1 else (None, None)
    ns, comp = "ns::" if k & 2 else "", bool(k & 4)
    old = [[1], [1, 2], [2, 1]][e.choose(3, "old versions")]
    X = ns + ("C" if comp else "D")
    types = ["int", "float", ns + "S", "std::array<int, 3>"] + ([uns + "U"] if up else [])
    t = e.sym("type", types)
    name = {v: e.sym("name %d" % v, ["a", "b", "c"]) for v in (1, 2, 3) if v == 3 or v in old}
    new = e.flip("new member") if len(old) == 1 or DEPTH else False
    models = {}
    for v, n in name.items():
        ms = [member(t, n), "int k // d"] + (["int z // d"] if v == 3 and new else [])
        models[v] = dict(schema_version=v, components={ns + "S": {"Members": ["int s // d"]}, **({X: {"Members": ms}} if comp else {})}, datatypes={ns + "D": dtype(Members=[ns + "C comp // d"] if comp else ms)})
    ren = [(e.sym("from", ["a", "b", "c"]), e.sym("to", ["a", "b", "c"])) for _ in range(e.choose(3, "declared"))]
    for x in ren:
        e.assume(f_not(eq(*x)))
    cls = ns + ("D" if comp else "C") if ren and e.flip("declared for another type") else X
    evo = {cls: [dict(from_version=1, to_version=3, rename_member={"from": a, "to": b}) for a, b in ren]} if ren else None
    try:
        r = Run({"new": models[3], **{f"old{v}": models[v] for v in old}}, up, old=[f"old{v}" for v in old], evolution=evo)
    except SystemExit:
        r = None
    changed = [v for v in old if not name[v] == name[3]]
    # (the added int has another type than the renamed member, unless that is an int)
    ok = all(cls == X and any(a == name[v] and b == name[3] for a, b in ren) for v in changed)
    if r is None:
        e.check(not ok, "declared renames are accepted")
        e.cover("refused")
        return
    e.check(ok, "renames that are not declared are refused")
    x = r.get("selection.xml.jinja2")
    full = X if comp else X + "Data"
    rules = x["iorules"]
    e.check(len(rules) == len(changed), "one rule for each old version with a renamed member")
    for v in changed:
        mine = [q for q in rules if q.version == v]
        e.check(len(mine) == 1 and f_and(eq(mine[0].sourceClass, full), eq(mine[0].targetClass, full), eq(mine[0].target, name[3]), eq(mine[0].source, lift(lambda a, b: f"{a} {b}", t, name[v])),
                                         eq(mine[0].code, lift(lambda a, b: f"{a} = onfile.{b};", name[3], name[v]))), "the rule reads the old member into the new one")
        e.cover("renamed")
    if len(changed) == 2 and not name[1] == name[2]:
        e.cover("two names")
    old_versions(e, r, x, models, old)


def upstream_u(e):
    ns = ["", "up::"][e.choose(2, "upstream namespace")]
    return PodioConfigReader.parse_model(dict(schema_version=5, options=dict(includeSubfolder=True), components={ns + "U": {"Members": ["int u // d"]}}), "uppkg"), ns


def old_versions(e, r, x, models, old, renamed=()):
    """everything that exists of older versions has a definition and a dictionary"""
    want = lambda cat, ok: sorted((n, v) for v in old for n in models[v][cat] if ok(n))
    e.check(sorted((c["class"].full_type, c["version"]) for c in x["old_schema_components"]) == want("components", lambda n: True), "dictionaries of old components")
    e.check(sorted((c["class"].full_type, c["version"]) for c in x["old_schema_datatypes"]) == want("datatypes", lambda n: n in models[3]["datatypes"] or n in renamed), "dictionaries of old data types")
    e.check(sorted(x["old_schema_versions"]) == sorted(old), "the old versions")
    e.check(sorted(c.full_type for c in x["components"]) == sorted(models[3]["components"]), "all components get dictionaries")
    e.check(sorted(c.full_type for c in x["datatypes"]) == sorted(list(models[3]["datatypes"]) + list(renamed)), "all data types get dictionaries")
    for cat, tmpl in (("components", "Component.h.jinja2"), ("datatypes", "Data.h.jinja2")):
        for n in sorted({n for v in old for n in models[v][cat]}):
            if cat == "datatypes" and n not in models[3][cat] and n not in renamed:
                e.check(not any(t == tmpl and d["class"].full_type == n for t, d in r.out), "no definitions of dropped data types")
                continue
            d = r.get(tmpl, n)
            e.check(sorted(o["version"] for o in d["old_versions"]) == sorted(v for v in old if n in models[v][cat]), "definitions of all old versions")
            if cat == "components":
                e.check(d["generate_current_version"] == (n in models[3][cat]), "dropped components have no current version")
            for o in d["old_versions"]:
                ms = models[o["version"]][cat][n]["Members"]
                e.check(len(ms) == len(o["definition"]["Members"]), "members of old versions")
                for m, text in zip(o["definition"]["Members"], ms):
                    t = m.array_type if m.is_array else m.full_type
                    got = m.qualified_as_version(o["version"])
                    # own components are those of the old version, all others what they are
                    def decl(ft, s):
                        arr = ft.startswith("std::array<")
                        el = ft[11:ft.index(",")] if arr else ft
                        if el in models[o["version"]]["components"]:
                            q = "::".join([""] + el.split("::")[:-1] + [f"v{o['version']}", el.split("::")[-1]])
                            el = q
                        elif "::" in el and not arr:
                            el = "::" + el
                        return f"std::array<{el}, {ft.split(', ')[1]}" if arr else el
                    e.check(eq(got, lift(lambda ft, n_: f"{decl(ft, None)} {n_}{{}}; ///< d", m.full_type, m.name)), "declarations of old versions")
                    incs = d["includes_data" if cat == "datatypes" else "includes"]
                    for ty in [m.array_type if m.is_array else m.full_type]:
                        if not lift(lambda z: z in ("int", "float", "double"), ty):
                            has(e, incs, header(e, ty, bool(models[3].get("options", {}).get("includeSubfolder")), r.gen.upstream_edm), "the headers of what old versions use")


def h_renamed_types(e):
    """the same for renamed data types, and for dropped or new components and data types"""
    k = e.choose(8, "model")
    up, uns = upstream_u(e) if k & 1 else (None, None)
    ns, old = "ns::" if k & 2 else "", [1, 2] if k & 4 else [2]
    t = [e.sym("type", ["int", ns + "S", "std::array<int, 3>"] + ([uns + "U"] if up else []))]
    kind = e.choose(4, "what else")  # another member, vector members; dropped and new types; in some of the versions
    if kind & 1:
        t.append("float")
    extra = {"VectorMembers": ["int v // d"]} if kind & 1 else {}
    name = {v: e.sym("name %d" % v, [ns + "D", ns + "E", "other::F"]) for v in old + [3]}
    keep = {v: bool(kind & 2) and (kind == 2 or v == 1) for v in old}
    other = kind == 2
    models = {}
    for v in old + [3]:
        d = {name[v]: dtype(Members=[member(x, "pq"[i]) for i, x in enumerate(t)], **extra)}
        if v != 3 and other:
            d["G"] = dtype(Members=["float g // d"])
        models[v] = dict(schema_version=v, options=dict(exposePODMembers=False), components={ns + "S": {"Members": ["int s // d"]}, **({"B": {"Members": ["double b // d"]}} if v == 3 or keep[v] else {}),
                         **({ns + "A": {"Members": [f"{ns}S x // d", "float a // d"]}} if v != 3 and keep[v] else {})}, datatypes=d)
    # what is declared makes no difference for renames that are unique
    evo = {ns + "E": [dict(from_version=1, to_version=3, rename_datatype={"from": ns + "E", "to": ns + "D"})]} if kind == 3 or DEPTH and e.flip("declared") else None
    r = Run({"new": models[3], **{f"old{v}": models[v] for v in old}}, up, old=[f"old{v}" for v in old], evolution=evo)
    changed = [v for v in old if not name[v] == name[3]]
    x = r.get("selection.xml.jinja2")
    e.check(len(x["iorules"]) == len(changed) * len(t), "one rule for each old version with a renamed data type, and each of its members")
    for v in changed:
        for i, ty in enumerate(t):
            mine = [q for q in x["iorules"] if q.version == v and q.target == "pq"[i]]
            e.check(len(mine) == 1 and f_and(eq(mine[0].sourceClass, lift(lambda a: a + "Data", name[v])), eq(mine[0].targetClass, lift(lambda a: a + "Data", name[3])),
                                             eq(mine[0].source, lift(lambda a: f"{a} {'pq'[i]}", ty)), mine[0].code == "{0} = onfile.{0};".format("pq"[i])), "the rule reads the old data type into the new one")
        e.cover("renamed")
    text = e.concretize  # (symbolic names are decided by now)
    models = {v: dict(m, datatypes={text(n): d for n, d in m["datatypes"].items()}) for v, m in models.items()}
    old_names = sorted({text(name[v]) for v in changed})
    if len(old_names) == 2:
        e.cover("two names")
    for n in old_names:
        d = r.get("Collection.cc.jinja2", n)
        e.check(d["renamed_to_collection"] == text(name[3]) + "Collection", "the collection after the rename")
        e.check(sorted(d["renamed_from_versions"]) == [v for v in changed if text(name[v]) == n], "the versions before the rename")
    old_versions(e, r, x, models, old, old_names)




def h_changed_types(e):
    """types of members that change: impossible changes stop the generator, all others need no rules"""
    up, uns = upstream_u(e)
    comp = e.flip("component")
    types = ["int", "double", "S", uns + "U", "std::array<int, 2>", f"std::array<{uns}U, 2>", "std::array<S, 2>"]
    a, b = e.sym("old type", types), e.sym("new type", types)
    mk = lambda v, t: dict(schema_version=v, components={"S": {"Members": ["int s // d"]}, **({"C": {"Members": [member(t, "m")]}} if comp else {})},
                           datatypes={"D": dtype(Members=["C comp // d"] if comp else [member(t, "m")])})
    models = {1: mk(1, a), 3: mk(3, b)}
    try:
        r = Run({"new": models[3], "old": models[1]}, up, old=["old"])
    except SystemExit:
        r = None
    el = lambda t: t[11:-4] if t.startswith("std::array") else t
    builtin = ("int", "double")
    bad = lift(lambda x, y: x.startswith("std::array") != y.startswith("std::array") or el(x) != el(y) and not (el(x) in builtin and el(y) in builtin), a, b)
    e.check((r is None) == bad, "changes from or to components and arrays are refused, others are not")
    if r is None:
        e.cover("refused")
        return
    x = r.get("selection.xml.jinja2")
    e.check(not x["iorules"], "no rules without renames")
    old_versions(e, r, x, models, [1])
    e.cover("accepted")


# ---------------------------------------------------------------- Arrow
BITS = {"bool": ("boolean", "Boolean"), "char": ("int8", "Int8"), "short": ("int16", "Int16"), "int": ("int32", "Int32"), "long": ("int64", "Int64"), "long long": ("int64", "Int64"),
        "unsigned": ("uint32", "UInt32"), "unsigned int": ("uint32", "UInt32"), "unsigned long": ("uint64", "UInt64"), "unsigned long long": ("uint64", "UInt64"), "float": ("float32", "Float"), "double": ("float64", "Double")}
for _u in ("", "u"):
    for _b in (16, 32, 64):
        for _s in ("", "std::"):
            BITS[f"{_s}{_u}int{_b}_t"] = (f"{_u}int{_b}", f"{'UInt' if _u else 'Int'}{_b}")


def h_arrow(e):
    """the Arrow schema of data types, and the classes that fill and read its fields"""
    up, uns = upstream_u(e)
    ns = ["", "ns::"][e.choose(2, "namespace")]
    get = e.flip("getSyntax")
    S, T = ns + "S", ns + "T"
    comps = {S: [("int", "s"), ("std::array<float, 2>", "sf"), ("bool", "sb")], T: [("std::uint64_t", "d"), (f"std::array<{S}, 4>", "many"), (S, "inner"), ("std::array<std::int16_t, 2>", "b"), ("char", "a")], uns + "U": [("int", "u")]}
    names = list(BITS) + list(comps)
    k = 0 if DEPTH else 1 + e.choose(2, "which")
    m = T if k == 2 else e.sym("type", names)
    v = S if k == 1 else e.sym("vector type", names)
    array = e.flip("array")
    what = e.choose(2, "relations")
    d = dtype(Members=[lift(lambda t: f"std::array<{t}, 3> mem // d" if array else f"{t} mem // d", m), "bool last // d"], VectorMembers=[member(v, "vec"), "int16_t avec // d"])
    if what:
        d.update(OneToOneRelations=[f"{ns}D one // d", f"{ns}D another // d"], OneToManyRelations=[f"{ns}D many // d", f"{ns}D all // d"])
    model = dict(schema_version=7, options=dict(getSyntax=get, exposePODMembers=False), components={k: {"Members": [f"{t} {n} // d" for t, n in c]} for k, c in comps.items() if k != uns + "U"}, datatypes={ns + "D": d})
    r = Run({"new": model}, up, io=("ARROW",))
    x = r.get("ArrowMapper.cc.jinja2")
    e.check(len(x["datatypes"]) == 1 and x["schema_version"] == 7, "all data types, and the version")
    dt = x["datatypes"][0]

    def typ(t):
        if t.startswith("std::array<"):
            el, n = t[11:-1].split(", ")
            return f"arrow::fixed_size_list({typ(el)}, {n})"
        if t in comps:
            return "arrow::struct_({" + ", ".join(f'arrow::field("{n}", {typ(c)}, false)' for c, n in comps[t]) + "})"
        return f"arrow::{BITS[t][0]}()"

    full = lift(lambda t: f"std::array<{t}, 3>", m) if array else m
    want = [lift(lambda t: f'arrow::field("mem", {typ(t)}, false)', full), 'arrow::field("last", arrow::boolean(), false)', lift(lambda t: f'arrow::field("vec", arrow::list({typ(t)}), false)', v), 'arrow::field("avec", arrow::list(arrow::int16()), false)']
    if what:
        want += [f'arrow::field("{n}", podio::objectRefType(), false)' for n in ("one", "another")] + [f'arrow::field("{n}", arrow::list(podio::objectRefType()), false)' for n in ("many", "all")]
    e.check(len(dt["arrow_fields"]) == len(want) and f_and(*[eq(lift(lambda s: s, a), b) for a, b in zip(dt["arrow_fields"], want)]), "the fields of the schema")

    def leaf(meta, t, who):
        """the classes for values of a type that is not an array"""
        if t in comps:
            e.check(meta.get("is_struct") is True and not meta.get("is_primitive"), who + " is a struct")
            e.check(meta["builder_type"] == "arrow::StructBuilder" and meta["arrow_array_type"] == "arrow::StructArray", who + " classes of structs")
            e.check(len(meta["children"]) == len(comps[t]), who + " all members")
            for c, (ct, cn) in zip(meta["children"], comps[t]):
                field(c, ct, cn, who + ".")
        else:
            e.check(meta.get("is_primitive") is True and not meta.get("is_struct"), who + " is a value")
            e.check(eq(meta["builder_type"], f"arrow::{BITS[t][1]}Builder"), who + " the builder")
            e.check(eq(meta["arrow_array_type"], f"arrow::{BITS[t][1]}Array"), who + " the array")

    def norm(t):
        return "std::" + t if t.endswith("_t") and not t.startswith("std::") else t

    def field(meta, t, n, who):
        e.check(meta["name"] == n and meta["getter"] == ("get" + n[0].upper() + n[1:] if get else n), who + "name and getter")
        if t.startswith("std::array<"):
            el, k = t[11:-1].split(", ")
            e.check(bool(meta["is_array"]) and f_and(eq(meta["array_size"], k), eq(meta["array_type"], norm(el))), who + "array")
            leaf(meta["value_builder"], el, who + n)
            e.check(eq(meta["value_builder"]["full_type"], norm(el)), who + "type of elements")
        else:
            e.check(not meta.get("is_array") and eq(meta["full_type"], norm(t)), who + "type")
            leaf(meta, t, who + n)

    am = dt["arrow_metadata"]
    e.check([len(am[k]) for k in ("members", "vector_members", "one_to_one_relations", "one_to_many_relations")] == [2, 2, 2 * what, 2 * what], "every member and relation")
    field(am["members"][0], e.concretize(full), "mem", "")
    field(am["members"][1], "bool", "last", "")
    vec, tv = am["vector_members"][0], e.concretize(v)
    e.check(vec["name"] == "vec" and vec["getter"] == ("getVec" if get else "vec") and eq(vec["full_type"], norm(tv)), "vector members")
    leaf(vec["value_builder"], tv, "vec")
    e.check(eq(vec["value_builder"]["full_type"], norm(tv)), "type of vector members")
    e.check(am["vector_members"][1]["name"] == "avec", "vector members in order")
    leaf(am["vector_members"][1]["value_builder"], "int16_t", "avec")
    if what:
        for k, i, n, mult in (("one_to_one_relations", 0, "one", False), ("one_to_one_relations", 1, "another", False), ("one_to_many_relations", 0, "many", True), ("one_to_many_relations", 1, "all", True)):
            e.check(am[k][i] == dict(name=n, getter="get" + n.capitalize() if get else n, is_mult=mult), "relations")
    e.cover("struct" if tv in comps else "value")
