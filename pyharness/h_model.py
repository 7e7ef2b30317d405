"""Reading of data model definitions: which ones are accepted (podio_config_reader.py), and their JSON form (generator_utils.py)"""
import json
from pysym.engine import eq, f_and, f_or, f_not, is_sym, lift, untoken
from podio_gen.podio_config_reader import PodioConfigReader
from podio_gen.generator_utils import DefinitionError, DataModelJSONEncoder
DEPTH = 0


def parse(d, upstream=None):
    return PodioConfigReader.parse_model(d, "pkg", upstream)


def accepted(d, upstream=None):
    try:
        return parse(d, upstream)
    except DefinitionError:
        return None


def member(typ, name, desc=" // d"):
    """the text of a member of a symbolic type and name"""
    return lift(lambda t, n: f"{t} {n}{desc}", typ, name)


def verdict(e, m, good, what):
    e.check(not (m is None and good), what + " is accepted")
    e.check(not (m is not None and not good), what + " is refused")
    e.trace("accepted", m is not None)
    e.cover("accepted" if good else "refused")


def dtype(**kw):
    return dict(Description="d", Author="a", **kw)


def upstream_model(e):
    if not e.flip("upstream"):
        return None
    return parse(dict(schema_version=1, components={"U": {"Members": ["int u // d"]}}, datatypes={"V": dtype(Members=["int v // d"])},
                      interfaces={"J": dtype(Members=["int v // d"], Types=["V"])}))


def el(t):
    return t[11:-4] if t.startswith("std::array<") else t


COMPS = ["A", "B", "U"]
TYPES = ["int", "unsigned long", "int32_t", "std::uint64_t", "B", "U", "D", "V", "I", "J", "X", "std::array<int, 2>", "std::array<B, 2>", "std::array<U, 2>", "std::array<D, 2>",
         "std::array<X, 2>", "std::array<int16_t, 2>"]
BUILTIN = ("int", "unsigned long", "int32_t", "std::uint64_t", "int16_t")


def known_component(t, up):
    return t in ("A", "B") or (up is not None and t == "U")


def pick(e, x):
    """the value of a symbolic string on this path"""
    return e.concretize(x)


def h_components(e):
    """components: members of builtin types and of components of this or the upstream model, and nothing else"""
    up = upstream_model(e)
    types = [t for t in TYPES if t not in ("unsigned long", "std::uint64_t")]
    n = 1 + e.choose(2, "members")
    if n == 2 and not DEPTH:
        types = ["int", "B", "U", "D", "I", "X", "std::array<B, 2>"]
    t = [e.sym("type", types) for _ in range(n)]
    comps = {"A": {"Members": [member(x, "abc"[i], "") for i, x in enumerate(t)]}}
    if e.flip("order"):
        comps["B"] = {"Members": ["int x"]}
    else:
        comps = {"B": {"Members": ["int x"]}, **comps}
    key = pick(e, e.sym("key", ["", "Description", "Author", "ExtraCode", "MutableExtraCode", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "description"])) if n == 1 or DEPTH else ""
    good = True
    if key == "ExtraCode":
        k2 = pick(e, e.sym("extra code", ["declaration", "includes", "implementation", "declarationFile", "implementationFile", "const_declaration", "Declaration"]))
        if k2 == "declarationFile":
            k2 = "declaration"  # (files are not read here)
        comps["A"]["ExtraCode"] = {k2: "x"}
        good = k2 in ("declaration", "includes")
    elif key:
        comps["A"][key] = "text" if key in ("Description", "Author", "description") else []
        good = key in ("Description", "Author")
    m = accepted(dict(schema_version=1, components=comps, datatypes={"D": dtype()}, interfaces={"I": dtype(Members=["int x // d"], Types=["D"])}), up)
    for x in t:
        v = pick(e, x)
        good = good and (el(v) in BUILTIN or known_component(el(v), up))
    verdict(e, m, good, "a component")


def h_datatypes(e):
    """data types: members are builtin or components, relations are to data types or interfaces"""
    up = upstream_model(e)
    cat = ["Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"][e.choose(4, "category")]
    n = 1 + e.choose(2, "members")
    types = TYPES if n == 1 else ["int", "B", "U", "D", "V", "I", "J", "X"]
    t = [e.sym("type", types) for _ in range(n)]
    d = dtype(**{cat: [member(x, "abc"[i]) for i, x in enumerate(t)]})
    dts = {"D": d, "E": dtype()}
    m = accepted(dict(schema_version=1, components={"B": {"Members": ["int x"]}}, datatypes=dts, interfaces={"I": dtype(Members=["int x // d"], Types=["E"])},
                      options=dict(exposePODMembers=False)), up)
    good = True
    for x in t:
        v = pick(e, x)
        if cat == "Members":
            good = good and (el(v) in BUILTIN or known_component(el(v), up))
        elif cat == "VectorMembers":
            good = good and (v in BUILTIN or known_component(v, up))
        else:
            good = good and (v in ("D", "E", "I") or (up is not None and v in ("V", "J")))
    verdict(e, m, good, "a data type")


def h_datatype_keys(e):
    """data types: which entries they have"""
    d = {}
    good = True
    for k in ("Description", "Author"):
        if e.flip(k):
            d[k] = "x"
        else:
            good = False
    key = pick(e, e.sym("key", ["", "Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode", "TransientMembers", "Typedefs", "members",
                                "Types", "From"]))
    if key in ("ExtraCode", "MutableExtraCode"):
        k2 = pick(e, e.sym("extra code", ["declaration", "implementation", "includes", "const_declaration", "Includes"]))
        d[key] = {k2: "x"}
        if key == "ExtraCode":
            good = good and k2 in ("declaration", "implementation", "includes")
        else:
            e.assume(k2 in ("declaration", "implementation", "includes"))
    elif key:
        d[key] = []
        good = good and key in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations")
    other = dtype()
    dts = {"D": d, "E": other} if e.flip("order") else {"E": other, "D": d}
    m = accepted(dict(schema_version=1, datatypes=dts))
    verdict(e, m, good, "a data type")
    if m is not None:
        for x in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode"):
            e.check(x in m.datatypes["D"] and x in m.datatypes["E"], "what is not given is empty")


def h_clashes(e):
    """names of members, and of the members of components that are exposed, are unique"""
    expose = e.flip("exposePODMembers")
    up = parse(dict(schema_version=1, components={"U": {"Members": [member("int", e.sym("upstream member", ["x", "a"]), "")]}}))
    sub = [e.sym("component member", ["x", "y", "a"]) for _ in range(2)]
    e.assume(f_not(eq(*sub)))
    kinds = [e.sym("component member type", ["int", "C", "std::array<int, 2>"]), "int"]
    comp = {"Members": [member(k, s, "") for k, s in zip(kinds, sub)]}
    n = 1 + e.choose(3, "members")
    types = [e.sym("type", ["int", "B", "U", "std::array<B, 2>"] if n < 3 or DEPTH else ["int", "B"]) for _ in range(n)]
    names = [e.sym("name", ["a", "b", "x"] if n == 3 else ["a", "b", "x", "y"]) for _ in range(n)]
    d = dtype(Members=[member(t, s) for t, s in zip(types, names)])
    m = accepted(dict(schema_version=1, options=dict(exposePODMembers=expose), components={"B": comp, "C": {"Members": ["int z"]}}, datatypes={"D": d}), up)
    all_names = []
    for t, s in zip(types, names):
        all_names.append(pick(e, s))
        t = pick(e, t)
        if expose and t == "B":
            all_names += [pick(e, x) for x in sub]
        if expose and t == "U":
            all_names += [up.components["U"]["Members"][0].name]
    all_names = [pick(e, x) for x in all_names]
    verdict(e, m, len(set(all_names)) == len(all_names), "a data type with unique names of members only")


def h_interfaces(e):
    up = upstream_model(e)
    name = pick(e, e.sym("name", ["I", "D", "E", "V", "K"]))
    d = {}
    good = True
    missing = pick(e, e.sym("missing", ["", "Description", "Author", "Members", "Types"]))
    for k in ("Description", "Author", "Members", "Types"):
        if k != missing:
            d[k] = "x"
        else:
            good = False
    if "Members" in d:
        d["Members"] = ["int energy // d"]
    ts = []
    if "Types" in d:
        ts = [pick(e, e.sym("type", ["D", "E", "V", "B", "I", "int", "X", "J"])) for _ in range(1 + e.choose(2, "types"))]
        d["Types"] = ts
    key = pick(e, e.sym("key", ["", "VectorMembers", "OneToOneRelations", "ExtraCode", "From"])) if not missing else ""
    if key:
        d[key] = []
        good = False
    m = accepted(dict(schema_version=1, components={"B": {"Members": ["int x"]}}, datatypes={"D": dtype(), "E": dtype()}, interfaces={name: d}), up)
    data = ["D", "E"] + (["V"] if up else [])
    good = good and name not in data and all(t in data for t in ts)
    verdict(e, m, good, "an interface")


def h_links(e):
    up = upstream_model(e)
    name = pick(e, e.sym("name", ["L", "D", "E", "V", "I", "J"]))
    d = {}
    good = True
    missing = pick(e, e.sym("missing", ["", "Description", "Author", "From", "To"]))
    for k in ("Description", "Author", "From", "To"):
        if k != missing:
            d[k] = "x"
        else:
            good = False
    ends = []
    for k in ("From", "To"):
        if k in d:
            ends.append(pick(e, e.sym(k, ["D", "E", "V", "I", "J", "B", "L", "int", "X"])))
            d[k] = ends[-1]
    key = pick(e, e.sym("key", ["", "Members", "Types", "ExtraCode"])) if not missing else ""
    if key:
        d[key] = []
        good = False
    m = accepted(dict(schema_version=1, components={"B": {"Members": ["int x"]}}, datatypes={"D": dtype(), "E": dtype()},
                      interfaces={"I": dtype(Members=["int x // d"], Types=["D"])}, links={name: d}), up)
    ok = ["D", "E", "I"] + (["V", "J"] if up else [])
    good = good and name not in ok and all(x in ok for x in ends)
    verdict(e, m, good, "a link")


def h_version(e):
    """schema version and options"""
    vs = [None, 1, 2, 7, 0, -1, "3", "0", "x", ""]
    v = vs[e.choose(len(vs), "schema_version")]
    d = dict(datatypes={"D": dtype()})
    if v is not None:
        d["schema_version"] = v
    opts = {}
    for k in ("getSyntax", "exposePODMembers", "includeSubfolder"):
        x = e.choose(3, k)
        if x:
            opts[k] = x == 2
    if opts:
        d["options"] = dict(opts)
    m = accepted(d)
    good = v in (1, 2, 7, "3")
    verdict(e, m, good, "a schema version")
    if m is not None:
        e.check(m.schema_version == int(v), "the schema version")
        e.check(m.options["getSyntax"] == opts.get("getSyntax", False), "getSyntax")
        e.check(m.options["exposePODMembers"] == opts.get("exposePODMembers", True), "exposePODMembers")
        e.check(m.options["includeSubfolder"] == ("pkg/" if opts.get("includeSubfolder", False) else ""), "includeSubfolder")


# ---------------------------------------------------------------- the stored form
def same_value(e, a, b, where):
    """two definitions are the same"""
    if isinstance(a, dict):
        e.check(isinstance(b, dict) and len(a) == len(b), where + ": number of entries")
        for (k, x), (k2, y) in zip(a.items(), b.items()):
            e.check(eq(k, k2), where + ": names and order of the entries")
            same_value(e, x, y, where)
    elif isinstance(a, (list, tuple)):
        e.check(isinstance(b, (list, tuple)) and len(a) == len(b), where + ": length")
        for x, y in zip(a, b):
            same_value(e, x, y, where)
    elif isinstance(a, str):
        e.check(isinstance(b, str) and eq(a, b), where + ": value")
    elif hasattr(a, "_to_json"):
        e.check(type(a) is type(b), where + ": kind")
        for k in ("name", "full_type", "description", "default_val", "unit", "array_type", "array_size", "is_array", "is_builtin", "is_builtin_array", "namespace", "bare_type"):
            x, y = getattr(a, k, None), getattr(b, k, None)
            if isinstance(x, str):
                e.check(isinstance(y, str) and eq(x, y), f"{where}: {k}")
            else:
                e.check(x == y, f"{where}: {k}")
    else:
        e.check(a == b and type(a) is type(b), where + ": value")


def h_stored(e):
    """the definition that is stored gives the same model again"""
    what = e.choose(4, "part")
    up = upstream_model(e) if what == 3 else None
    opts = dict(getSyntax=e.flip("getSyntax"), exposePODMembers=e.flip("exposePODMembers"), includeSubfolder=e.flip("includeSubfolder")) if what == 3 else {}
    d = dict(schema_version=1 + e.choose(3, "version") if what == 3 else 5, options=opts)
    name = e.sym("name", ["B", "ns::B"]) if what == 0 else "B"
    t1 = e.sym("type", ["int", "int16_t", "std::uint32_t", "unsigned long long", "std::array<float, 3>", "std::array<uint16_t, 2>"]) if what < 2 else "int"
    rest = e.sym("rest", ["", " // d", "{3}", " [mm]", "{1} [GeV] // a // b", " //", "{{2}, {3}} // {x}"]) if what == 0 else ""
    d["components"] = {name: {"Members": [lift(lambda a, b: f"{a} m{b}", t1, rest), "float y [m] // where"]}}
    if what == 0:
        if e.flip("ExtraCode"):
            d["components"][name]["ExtraCode"] = {"declaration": e.sym("code", ["int f();", "a\nb \"quoted\""]), "includes": "#include <x>"}
        d["components"]["Other"] = {"Members": [lift(lambda n: f"std::array<{n}, 4> bs", name), lift(lambda n: f"{n} b // d", name)], "Description": "text", "Author": "me"}
    dt = dtype(Members=[lift(lambda a, b: f"{a} m1 {b} // {b}x", t1, e.sym("default", ["", "{3}", "[mm]", "{{4}}[GeV]"])), lift(lambda n: f"{n} comp // c", name)])
    if what == 1:
        one = e.choose(4, "category") if not DEPTH else 4
        for i, c in enumerate(("VectorMembers", "OneToOneRelations", "OneToManyRelations")):
            if e.flip(c) if DEPTH else i == one:
                dt[c] = [lift(lambda x, y: f"{x} r{y}", e.sym(c + " type", ["int", "B"] if c[0] == "V" else ["D", "E", "I"]), e.sym("comment", [" // one", "[mm] //", "//  x  "]))]
    if what == 2:
        for c in ("ExtraCode", "MutableExtraCode"):
            if e.flip(c):
                dt[c] = {"includes": "#include <y>", "declaration": e.sym("code", ["int f();", "a\nb \"quoted\""]), "implementation": "x"}
    d["datatypes"] = {"D": dt, "E": dtype()}
    d["interfaces"] = {"I": dtype(Members=["int energy [GeV] // d"], Types=["E", "D"] if e.flip("two types") else ["E"])}
    d["links"] = {"L": dtype(From=e.sym("from", ["D", "E", "I"]), To=e.sym("to", ["D", "I"]))} if what == 2 else {}
    m1 = parse(d, up)
    text = DataModelJSONEncoder().encode(m1)
    stored = untoken(json.loads(text))
    e.trace("stored", stored)
    m2 = accepted(stored, up)
    e.check(m2 is not None, "the stored definition is valid")
    for part in ("options", "components", "datatypes", "interfaces", "links"):
        same_value(e, getattr(m1, part), getattr(m2, part), part)
    e.check(m1.schema_version == m2.schema_version, "the schema version")
    e.cover(["component", "members", "extra code", "options"][what])


# ---------------------------------------------------------------- declared migrations
from podio_gen.schema_evolution import SchemaMigrationReader, ChangeType  # noqa: E402


def h_migrations(e):
    """the file with the declared changes: read as written, or refused"""
    n = 1 + e.choose(2, "migrations")
    lst, want = [], []
    good = True
    for _ in range(n):
        m = {}
        vs = [1, 2, 3, "2", 1.5, None]
        f, t = vs[e.choose(len(vs) if n == 1 else 3, "from_version")], vs[e.choose(len(vs) if n == 1 else 3, "to_version")]
        if f is not None:
            m["from_version"] = f
        if t is not None:
            m["to_version"] = t
        kind = ["rename_member", "rename_datatype", "rename_component", "Rename_member"][e.choose(4 if n == 1 else 2, "kind")]
        det = {}
        a, b = e.sym("from", ["x", "y"]), e.sym("to", ["y", "z"])
        if n == 2 or e.choose(4, "from is there"):
            det["from"] = a
        if n == 2 or e.choose(4, "to is there"):
            det["to"] = b
        cnt = 1 if n == 2 else e.choose(3, "changes")
        if cnt:
            m[kind] = det
        if cnt == 2:
            m["rename_member" if kind != "rename_member" else "rename_datatype"] = dict(det)
        lst.append(m)
        ok = isinstance(f, int) and isinstance(t, int) and f < t and cnt == 1 and kind in ("rename_member", "rename_datatype") and len(det) == 2
        good = good and ok
        if ok:
            want.append((f, t, kind, a, b))
    name = e.sym("type", ["T", "ns::T"])
    extra = e.choose(3, "other entries")
    data = {"migrations": {name: lst}}
    if extra == 1:
        data = {"migration": data["migrations"]}
        good = False
    elif extra == 2:
        data = {"migrations": [lst]}
        good = False
    try:
        res = SchemaMigrationReader._parse_migrations(data)
    except ValueError:
        res = None
    e.check(not (res is None and good), "a valid declaration is accepted")
    e.check(not (res is not None and not good), "an invalid declaration is refused")
    e.cover("accepted" if good else "refused")
    if res is None:
        return
    e.check(len(res) == 1, "one type")
    (k, ms), = res.items()
    e.check(eq(k, name), "the name of the type")
    want.sort(key=lambda w: (w[0], w[1]))
    e.check(len(ms) == len(want), "every migration")
    for w, m in zip(want, ms):
        e.check(m.from_version == w[0] and m.to_version == w[1] and m.type.value == w[2], "version and kind")
        e.check(f_and(eq(m.details["from"], w[3]), eq(m.details["to"], w[4])), "old and new name")


# ---------------------------------------------------------------- versions of data models
import argparse  # noqa: E402
from podio_class_generator import parse_version  # noqa: E402

DIGITS = "0123456789"


def one_of(c, allowed):
    from pysym import engine as E
    if is_sym(c):
        return E.ENG.branch(E.ch_in(c.chars[0], E.mask_of(allowed), None))
    return c in allowed


def h_parse_version(e):
    """versions given as text"""
    n = e.choose(6 if not DEPTH else 8, "length")
    s = e.chars("text", n, "09.-v|" if not DEPTH else "059.-v |x")
    i = 0
    parts, seps = [], 0
    ok = True
    if i < n and one_of(s[i], "v"):
        i = 1
    while True:
        j = i
        while j < n and one_of(s[j], DIGITS):
            j += 1
        if j == i:
            ok = False
            break
        parts.append(s[i:j])
        if j == n:
            break
        if not one_of(s[j], ".-"):
            ok = False
            break
        i = j + 1
    ok = ok and 2 <= len(parts) <= 3
    try:
        v = parse_version(s)
    except (argparse.ArgumentTypeError, ValueError):
        v = None
    e.check((v is not None) == ok, "a version is accepted exactly if it has two or three numbers")
    if v is not None:
        e.check(len(v) == len(parts), "number of parts")
        for a, b in zip(v, parts):
            e.check(a == int(e.concretize(b)), "the numbers")
        e.cover("accepted")
    else:
        e.cover("refused")
    e.check(parse_version(None) is None, "no version")
