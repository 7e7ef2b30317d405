"""Comparison of two versions of a data model, and the judgement on the changes (podio_schema_evolution.py)"""
from pysym.engine import eq, f_and, f_or, f_not, rt_in, str_of
from podio_gen.generator_utils import DataModel, MemberVariable
from podio_gen.schema_evolution import SchemaMigrationReader
import podio_schema_evolution as S
DEPTH = 0

NAMES = ["alpha", "beta", "gamma", "Alpha"]
CATS = ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations")


def same(a, b):
    """forks on the equality of two strings (which the code usually decided before)"""
    return a == b


def definition(e, cat, members):
    d = {e.lit(k) if False else k: [] for k in CATS}
    d[cat] = members
    return d


def members(e, n, who, types, names=NAMES):
    ms = [(e.sym(who + " name", names), e.sym(who + " type", types)) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            e.assume(f_not(eq(ms[i][0], ms[j][0])))
    return [MemberVariable(name=a, type=t, description="d") for a, t in ms]


def model(datatypes, components, version=2):
    return DataModel(datatypes=datatypes, components=components, schema_version=version, options={"getSyntax": False, "exposePODMembers": True})


def find(changes, cls, pred):
    return [c for c in changes if type(c) is cls and pred(c)]


def expect_members(e, got, klass, old, new, added, dropped):
    """got is exactly the difference between the members old and new"""
    n = 0
    for m in new:
        kept = [o for o in old if same(o.name, m.name)]
        if not kept:
            n += 1
            e.check(len(find(got, added, lambda c: c.member is m and same(c.klassname, klass))) == 1, "an added member is reported once")
        elif not same(kept[0].full_type, m.full_type):
            n += 1
            e.check(len(find(got, S.ChangedMemberType, lambda c: c.old_member is kept[0] and c.new_member is m and same(c.klassname, klass))) == 1,
                    "a changed type is reported once, with both types")
    for m in old:
        if not any(same(m.name, o.name) for o in new):
            n += 1
            e.check(len(find(got, dropped, lambda c: c.member is m and same(c.klassname, klass))) == 1, "a dropped member is reported once")
    return n


KINDS = [("Members", S.AddedMember, S.DroppedMember), ("VectorMembers", S.AddedVectorMember, S.DroppedVectorMember),
         ("OneToOneRelations", S.AddedSingleRelation, S.DroppedSingleRelation), ("OneToManyRelations", S.AddedMultiRelation, S.DroppedMultiRelation)]


def h_compare_members(e):
    """one data type or component, members of one category"""
    k = e.choose(5, "category")
    nold, nnew = e.choose(3, "old members"), e.choose(3 if not DEPTH else 4, "new members")
    types = ["int", "Comp", "ns::Comp"]
    old, new = members(e, nold, "old", types), members(e, nnew, "new", types)
    name = e.sym("class", ["T", "ns::T"])
    if k == 4:
        mo, mn = model({}, {name: {"Members": old}}), model({}, {name: {"Members": new}})
        cat, added, dropped = KINDS[0]
    else:
        cat, added, dropped = KINDS[k]
        mo, mn = model({name: definition(e, cat, old)}, {}), model({name: definition(e, cat, new)}, {})
    got = S.DataModelComparator(mn).compare(mo)
    n = expect_members(e, got, name, old, new, added, dropped)
    e.check(len(got) == n, "nothing else is reported")
    e.trace("n", n)
    if n >= 3:
        e.cover("several")


def h_compare_types(e):
    """which components and data types there are"""
    no, nn = e.choose(3, "old"), e.choose(3, "new")
    comps = e.flip("components")
    on = [e.sym("old name", ["A", "B", "ns::A", "b"]) for _ in range(no)]
    nn_ = [e.sym("new name", ["A", "B", "ns::A", "b"]) for _ in range(nn)]
    for xs in (on, nn_):
        if len(xs) == 2:
            e.assume(f_not(eq(*xs)))
    mk = lambda: {"Members": [], "VectorMembers": [], "OneToOneRelations": [], "OneToManyRelations": []}
    do, dn = {}, {}
    for x in on:
        do[x] = mk()
    for x in nn_:
        dn[x] = mk()
    mo, mn = (model({}, do), model({}, dn)) if comps else (model(do, {}), model(dn, {}))
    got = S.DataModelComparator(mn).compare(mo)
    add, drop = (S.AddedComponent, S.DroppedComponent) if comps else (S.AddedDatatype, S.DroppedDatatype)
    n = 0
    for x in nn_:
        if not any(same(x, y) for y in on):
            n += 1
            e.check(len(find(got, add, lambda c: same(c.klassname, x))) == 1, "an added type is reported once")
    for x in on:
        if not any(same(x, y) for y in nn_):
            n += 1
            e.check(len(find(got, drop, lambda c: same(c.klassname, x))) == 1, "a dropped type is reported once")
    e.check(len(got) == n, "nothing else is reported")
    e.trace("n", n)
    if n == 4:
        e.cover("all different")


def judge(mn, mo, migrations, upstream=None):
    SchemaMigrationReader.read_yaml = staticmethod(lambda f: SchemaMigrationReader._parse_migrations(f))
    j = S.SchemaEvolutionJudge(mn, evolution_file={"migrations": migrations} if migrations else None, **({"upstream_edm": upstream} if upstream else {}))
    det = S.DataModelComparator(mn).compare(mo)
    before = list(det)
    res = j.judge(mo, det)
    assert det == before, "the detected changes are an input"
    return det, res


def h_judge_rename(e):
    """renamed members: declared, undeclared, or no rename at all"""
    name = e.sym("class", ["T", "C"])
    comp = e.flip("component")
    types = ["int", "X", "ns::X"]
    nold, nnew = 1 + e.choose(2, "old members"), 1 + e.choose(2, "new members")
    old, new = members(e, nold, "old", types, NAMES[:3]), members(e, nnew, "new", types, NAMES[:3])
    xs = {e.lit("X"): {"Members": []}, e.lit("ns::X"): {"Members": []}}
    if comp:
        mo, mn = model({}, {**xs, name: {"Members": old}}), model({}, {**xs, name: {"Members": new}})
    else:
        mo, mn = model({name: definition(e, "Members", old)}, xs), model({name: definition(e, "Members", new)}, xs)
    nr = e.choose(2 if not DEPTH else 3, "renames")
    ren = [(e.sym("rename in", ["T", "C"]), e.sym("from", NAMES[:3]), e.sym("to", NAMES[:3])) for _ in range(nr)]
    if nr == 2:  # a name is renamed once, to one name
        e.assume(f_not(eq(ren[0][1], ren[1][1])))
        e.assume(f_not(eq(ren[0][2], ren[1][2])))
    mig = {}
    for k, f, t in ren:
        hit = next((kk for kk in mig if same(kk, k)), k)
        mig.setdefault(hit, []).append({"from_version": 1, "to_version": 2, "rename_member": {"from": f, "to": t}})
    for k in mig:  # (no reason to stop looking, or to fail)
        mig[k].insert(0, {"from_version": 1, "to_version": 2, "rename_datatype": {"from": k, "to": "Unused"}})
    det, res = judge(mn, mo, mig)
    # what is expected
    added = [m for m in new if not any(same(m.name, o.name) for o in old)]
    dropped = [m for m in old if not any(same(m.name, o.name) for o in new)]
    changes = list(res.schema_changes)
    applied = []
    for k, f, t in ren:
        if same(k, name):
            for a in added:
                for d in dropped:
                    if same(a.name, t) and same(d.name, f) and same(a.full_type, d.full_type):
                        applied.append((d, a))
    for d, a in applied:
        c = find(changes, S.RenamedMember, lambda c: same(c.klassname, name) and same(c.member_name_old, d.name) and same(c.member_name_new, a.name))
        e.check(len(c) == 1, "a declared rename is known")
        e.check(not find(changes, S.AddedMember, lambda c: c.member is a) and not find(changes, S.DroppedMember, lambda c: c.member is d),
                "a renamed member is neither added nor dropped")
    e.check(len(find(changes, S.RenamedMember, lambda c: True)) == len(applied), "no other renames")
    for c in det:
        if isinstance(c, (S.AddedMember, S.DroppedMember)) and any(c.member is x for p in applied for x in p):
            continue
        e.check(sum(x is c for x in changes) == 1, "all other changes stay")
    e.check(len(changes) == len(det) - len(applied), "nothing else is reported")
    # potential renames that were not declared
    w = 0
    for d in dropped:
        for a in added:
            if same(a.full_type, d.full_type) and not any(d is x or a is y for x, y in applied):
                w += 1
                e.check(any(mentions(e, m, name, d.name, a.name) for m in res.warnings), "a potential rename is pointed out")
    e.check(len(res.warnings) == w, "no other warnings")
    errs = 0
    for m in new:
        for o in old:
            if same(m.name, o.name) and not same(m.full_type, o.full_type) and not (same(o.full_type, "int") and same(m.full_type, "int")):
                errs += 1
    e.check(len(res.errors) == errs, "errors exactly for the changes of types that are not possible")
    e.trace("w", w)
    e.trace("errors", errs)
    if applied:
        e.cover("renamed")
    if w:
        e.cover("undeclared")


def mentions(e, text, *names):
    """all names appear in the message"""
    return all(rt_in(n, text) for n in names)


def h_judge_types(e):
    """changes of the types of members, with arrays and components"""
    T = ["int", "long", "Comp", "Other", "std::array<int, 2>", "std::array<double, 2>", "std::array<int, 3>", "std::array<Comp, 2>", "std::array<Other, 2>", "std::array<Comp, 3>", "up::U", "std::array<up::U, 2>", "std::int16_t"]
    # (U is a component of an upstream model)
    io, in_ = e.choose(len(T), "old type"), e.choose(len(T), "new type")

    def member(i):
        t = T[i]
        nm = e.lit("value")
        if t.startswith("std::array"):
            el, n = t[11:-1].split(", ")
            return MemberVariable(name=nm, array_type=el, array_size=n, description="d")
        return MemberVariable(name=nm, type=t, description="d")

    cls = e.sym("class", ["T", "S"])
    comp = e.flip("component")
    # components that exist in either version only
    co = {e.lit("Comp"): {"Members": []}, e.lit("Other"): {"Members": []}}
    cn = {e.lit("Comp"): {"Members": []}, e.lit("Other"): {"Members": []}}
    o, n = member(io), member(in_)
    if comp:
        mo, mn = model({}, {**co, cls: {"Members": [o]}}), model({}, {**cn, cls: {"Members": [n]}})
    else:
        mo, mn = model({cls: definition(e, "Members", [o])}, co), model({cls: definition(e, "Members", [n])}, cn)
    det, res = judge(mn, mo, {}, model({}, {e.lit("up::U"): {"Members": []}}))
    e.check(len(det) == (io != in_) and list(res.schema_changes) == list(det), "a changed type is a change")
    el = lambda t: t[11:-1].split(",")[0] if t.startswith("std::array") else t
    a, b = T[io], T[in_]
    bad = io != in_ and (a.startswith("std::array") != b.startswith("std::array") or (el(a) != el(b) and (el(a) in ("Comp", "Other", "up::U") or el(b) in ("Comp", "Other", "up::U"))))
    e.check(len(res.errors) == bad, "changes between components, builtin types and arrays are errors, other changes of types are not")
    e.check(not res.warnings, "no warnings")
    if bad:
        e.check(mentions(e, res.errors[0], cls, "value", a, b), "an error tells the member and its types")
        e.cover("forbidden")
    elif io != in_:
        e.cover("allowed")


def h_judge_unsupported(e):
    """added and dropped vector members and relations"""
    k = 1 + e.choose(3, "category")
    cat, added, dropped = KINDS[k]
    nold, nnew = e.choose(3, "old"), e.choose(3, "new")
    old, new = members(e, nold, "old", ["int", "float"] if k == 1 else ["U", "V"]), members(e, nnew, "new", ["int", "float"] if k == 1 else ["U", "V"])
    cls = e.sym("class", ["T", "S"])
    mo, mn = model({cls: definition(e, cat, old)}, {}), model({cls: definition(e, cat, new)}, {})
    det, res = judge(mn, mo, {cls: [{"from_version": 1, "to_version": 2, "rename_member": {"from": e.sym("from", NAMES), "to": e.sym("to", NAMES)}}]})
    e.check(list(res.schema_changes) == list(det), "all changes stay")
    n = len([c for c in det if isinstance(c, (added, dropped))])
    e.check(len(res.errors) == n, "every added or dropped vector member or relation is an error")
    e.check(not res.warnings, "no warnings")
    e.trace("errors", n)
    if n > 2:
        e.cover("several")


def h_judge_datatypes(e):
    """renamed data types"""
    no, nn = e.choose(3, "dropped"), e.choose(3, "added")
    on = [e.lit("Old%d" % i) for i in range(no)]
    nw = [e.lit("New%d" % i) for i in range(nn)]

    def dt(who):
        # two possible contents
        cat = e.sym("kind", ["x"]) and "Members"
        return definition(e, cat, [MemberVariable(name=e.sym(who + " member", ["p", "q"]), type="int", description="d")])

    do = {x: dt("old") for x in on}
    dn = {x: dt("new") for x in nw}
    mo, mn = model(do, {}), model(dn, {})
    nr = e.choose(3 if not DEPTH else 4, "renames")
    ren = [(e.sym("from", ["Old0", "Old1", "Old2"]), e.sym("to", ["New0", "New1", "New2"])) for _ in range(nr)]
    for i in range(nr):
        for j in range(i):
            e.assume(f_not(eq(ren[i][0], ren[j][0])))
            e.assume(f_not(eq(ren[i][1], ren[j][1])))
    mig = {}
    for f, t in ren:
        mig[f] = [{"from_version": 1, "to_version": 2, "rename_datatype": {"from": f, "to": t}}]
    det, res = judge(mn, mo, mig)
    ch = list(res.schema_changes)
    sig = lambda d: d["Members"][0].name
    rn = find(ch, S.RenamedDataType, lambda c: True)
    ad = find(ch, S.AddedDatatype, lambda c: True)
    dr = find(ch, S.DroppedDatatype, lambda c: True)
    e.check(len(rn) + len(ad) + len(dr) == len(ch), "no other changes")
    e.check(len(rn) + len(ad) == nn and len(rn) + len(dr) == no, "every type is either renamed, or added or dropped")
    for x in on:
        e.check(sum(same(c.name_old, x) for c in rn) + sum(same(c.klassname, x) for c in dr) == 1, "every old type once")
    for x in nw:
        e.check(sum(same(c.name_new, x) for c in rn) + sum(same(c.klassname, x) for c in ad) == 1, "every new type once")
    for c in rn:
        o = next(x for x in on if same(x, c.name_old))
        n = next(x for x in nw if same(x, c.name_new))
        e.check(eq(sig(do[o]), sig(dn[n])), "only types with the same members are renamed")
    for f, t in ren:
        for o in on:
            for n in nw:
                if same(o, f) and same(n, t) and same(sig(do[o]), sig(dn[n])):
                    e.check(any(same(c.name_old, o) and same(c.name_new, n) for c in rn), "a declared rename is the one that is taken")
                    e.cover("declared")
    e.check(not res.errors and not res.warnings, "no errors")
    for d in dr:
        for a in ad:
            e.check(f_not(eq(sig(do[d.klassname]), sig(dn[a.klassname]))), "no rename is overlooked")
    e.trace("renamed", len(rn))
    if len(rn) == 2:
        e.cover("two renamed")


def h_judge_components(e):
    """dropped and added components"""
    no, nn = e.choose(2, "dropped") + 1, e.choose(2, "added") + 1
    co, cn = {}, {}
    for i in range(no):
        co[e.lit("Old%d" % i)] = {"Members": members(e, e.choose(3, "old members"), "old", ["int"], NAMES[:2])}
    for i in range(nn):
        cn[e.lit("New%d" % i)] = {"Members": members(e, e.choose(3, "new members"), "new", ["int"], NAMES[:2])}
    det, res = judge(model({}, cn), model({}, co), {})
    e.check(list(res.schema_changes) == list(det) and len(det) == no + nn, "all changes stay")
    e.check(not res.errors, "no errors")
    n = 0
    for o, od in co.items():
        for k, nd in cn.items():
            names_o, names_n = [m.name for m in od["Members"]], [m.name for m in nd["Members"]]
            if len(names_o) == len(names_n) and all(any(same(x, y) for y in names_n) for x in names_o):
                n += 1
                e.check(any(mentions(e, w, o, k) for w in res.warnings), "a potential rename of a component is pointed out")
    e.check(len(res.warnings) == n, "no other warnings")
    e.trace("warnings", n)
    if n > 1:
        e.cover("several")


def h_judge_two(e):
    """two classes that change at the same time do not influence each other"""
    comp = [e.flip("component"), e.flip("component")]
    cls = [e.lit("T"), e.lit("U")]
    old, new = [], []
    for i in range(2):
        old.append(MemberVariable(name=e.sym("old name", ["alpha", "beta"]), type="int", description="d"))
        new.append(MemberVariable(name=e.sym("new name", ["alpha", "beta"]), type=e.sym("new type", ["int", "float"]), description="d"))
    mods = []
    for ms in (old, new):
        dt, co = {}, {}
        for i in range(2):
            if comp[i]:
                co[cls[i]] = {"Members": [ms[i]]}
            else:
                dt[cls[i]] = definition(e, "Members", [ms[i]])
        mods.append(model(dt, co))
    who, fr, to = e.sym("rename in", ["T", "U"]), e.sym("from", ["alpha", "beta"]), e.sym("to", ["alpha", "beta"])
    det, res = judge(mods[1], mods[0], {who: [{"from_version": 1, "to_version": 2, "rename_member": {"from": fr, "to": to}}]})
    ch = list(res.schema_changes)
    for i in range(2):
        mine = [c for c in ch if same(c.klassname, cls[i])]
        o, n = old[i], new[i]
        warned = [w for w in res.warnings if mentions(e, w, "'" + "TU"[i] + "'")]
        if same(o.name, n.name):
            if same(o.full_type, n.full_type):
                e.check(not mine and not warned, "a class that did not change")
            else:
                e.check(len(mine) == 1 and type(mine[0]) is S.ChangedMemberType and not warned, "a changed type")
        elif not same(o.full_type, n.full_type):
            e.check(len(mine) == 2 and not warned and not find(mine, S.RenamedMember, lambda c: True), "one member added, one dropped")
        elif same(who, cls[i]) and same(fr, o.name) and same(to, n.name):
            e.check(len(mine) == 1 and type(mine[0]) is S.RenamedMember and not warned, "a declared rename")
            e.cover("renamed")
        else:
            e.check(len(mine) == 2 and len(warned) == 1, "a potential rename")
            e.cover("potential")
    e.check(len(ch) == sum(1 for c in ch if any(same(c.klassname, x) for x in cls)), "no changes of other classes")
    e.check(not res.errors, "no errors")
    e.trace("changes", len(ch))


def h_judge_ambiguous(e):
    """declared renames that have members in common"""
    ns = ["alpha", "beta", "gamma", "delta"]
    old = [MemberVariable(name=x, type="int", description="d") for x in ns[:2]]
    new = [MemberVariable(name=x, type="int", description="d") for x in ns[2:]]
    mo, mn = model({}, {e.lit("T"): {"Members": old}}), model({}, {e.lit("T"): {"Members": new}})
    ren = [(e.sym("from", ns[:2]), e.sym("to", ns[2:])) for _ in range(2 + e.choose(2 + DEPTH, "renames"))]
    det, res = judge(mn, mo, {"T": [{"from_version": 1, "to_version": 2, "rename_member": {"from": f, "to": t}} for f, t in ren]})
    ch = list(res.schema_changes)
    got = find(ch, S.RenamedMember, lambda c: True)
    add, drop = find(ch, S.AddedMember, lambda c: True), find(ch, S.DroppedMember, lambda c: True)
    e.check(len(got) + len(add) + len(drop) == len(ch), "no other changes")
    for o in old:
        e.check(sum(same(c.member_name_old, o.name) for c in got) + sum(c.member is o for c in drop) == 1, "an old member is renamed once or dropped")
    for n in new:
        e.check(sum(same(c.member_name_new, n.name) for c in got) + sum(c.member is n for c in add) == 1, "a new member is the new name of one member or added")
    for c in got:
        e.check(any(same(c.member_name_old, f) and same(c.member_name_new, t) for f, t in ren), "only declared renames")
    for a in add:
        for d in drop:
            e.check(not any(same(f, d.member.name) and same(t, a.member.name) for f, t in ren), "no declared rename is left out")
            e.check(sum(mentions(e, w, d.member.name, a.member.name) for w in res.warnings) == 1, "what is left is a potential rename")
    e.check(len(res.warnings) == len(add) * len(drop) and not res.errors, "no other warnings")
    e.trace("any renamed", bool(got))  # how many of conflicting declarations apply depends on the order of a set
    e.cover("two" if len(got) == 2 else "one")


def h_judge_signature(e):
    """a data type is renamed if its members, vector members and relations stay the same"""
    def mk(who):
        n = 1 + e.choose(2, who + " members")
        cat = [e.choose(4, who + " category") for _ in range(n)]
        ms = members(e, n, who, ["X", "ns::X"], ["alpha", "beta"])
        d = definition(e, CATS[0], [])
        for c, m in zip(cat, ms):
            d[CATS[c]] = d[CATS[c]] + [m]
        return d, list(zip(cat, ms))

    (od, o), (nd, n) = mk("old"), mk("new")
    det, res = judge(model({"New": nd}, {}), model({"Old": od}, {}), {})
    equal = len(o) == len(n) and all(any(c == k and same(m.name, x.name) and same(m.full_type, x.full_type) for k, x in n) for c, m in o)
    got = res.schema_changes
    e.check(len(got) == (1 if equal else 2) and bool(find(got, S.RenamedDataType, lambda c: same(c.name_old, "Old") and same(c.name_new, "New"))) == equal, "a data type is renamed if and only if all its members stay the same")
    e.check(not res.errors and not res.warnings, "no errors")
    e.cover("renamed" if equal else "different")


def h_texts(e):
    """what is printed tells all changes, potential renames and impossible changes with their names"""
    import contextlib
    import io
    k = e.choose(13, "change")
    P, Q = e.sym("class", ["Track", "ns::Hit"]), e.sym("other class", ["Vertex", "ns::Cell"])
    a, b = e.sym("member", ["alpha", "beta"]), e.sym("other member", ["gamma", "delta"])
    MV = lambda n, t="int": MemberVariable(name=n, type=t, description="d")
    D = lambda cat="Members", *ms: definition(e, cat, list(ms))
    two = e.flip("two changes")
    words, verdict_ = [a], "change"
    co, cn, do, dn = {}, {}, {}, {}
    if k == 0:
        cn[P], words = D("Members", MV(a)), []
    elif k == 1:
        co[P], words = D("Members", MV(a)), []
    elif k == 2:
        dn[P], words = D("Members", MV(a)), []
    elif k == 3:
        do[P], words = D("Members", MV(a)), []
    elif k == 4:
        do[P], dn[Q], words = D("Members", MV(a)), D("Members", MV(a)), [Q]
    elif k == 5:
        do[P], dn[P] = D(), D("Members", MV(a))
    elif k == 6:
        co[P], cn[P] = D("Members", MV(a)), D()
    elif k == 7:
        do[P], dn[P], words = D("Members", MV(a)), D("Members", MV(a, "float")), [a, "int", "float"]
    elif k == 8:
        do[P], dn[P], words = D("Members", MV(a)), D("Members", MV(b)), [a, b]
    elif k == 9:
        do[P], dn[P], words, verdict_ = D("Members", MV(a)), D("Members", MV(b)), [a, b], "warning"
    elif k == 10:
        co[P], cn[Q], words, verdict_ = D("Members", MV(a)), D("Members", MV(a)), [Q], "warning"
    elif k == 11:
        cat = CATS[1 + e.choose(3, "category")]
        x, y = (D(), D(cat, MV(a, "Thing")))[::1 if e.flip("dropped") else -1]
        do[P], dn[P], verdict_ = x, y, "error"
    else:
        do[P], dn[P], words, verdict_ = D("Members", MV(a)), D("Members", MV(a, "Comp")), [a, "int", "Comp"], "error"
        co["Comp"], cn["Comp"] = D(), D()
    if two:
        do["Second"], dn["Second"] = D("Members", MV("first")), D("Members", MV("first", "float"))
    mo, mn = model(do, co, version=7), model(dn, cn, version=9)
    det, res = judge(mn, mo, {P: [{"from_version": 7, "to_version": 9, "rename_member": {"from": a, "to": b}}]} if k == 8 else {})
    lines = []
    S.print = lambda *x: lines.extend(x)  # (the harness does not depend on how lines are put together)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok = S.DataModelComparator(mn).print_comparison(res)
    lines += out.getvalue().split("\n")
    e.check(bool(ok) == (verdict_ != "error"), "a comparison is successful exactly if no change is impossible")
    e.check(any(mentions(e, x, "9") and mentions(e, x, "7") for x in lines), "the versions")
    for c in res.schema_changes:
        t = str_of(c)
        e.check(mentions(e, t, c.klassname), "the text of a change names its class")
        e.check(any(mentions(e, x, t) for x in lines), "every change is printed")
    mine = [c for c in res.schema_changes if same(c.klassname, P)]
    e.check(mine and all(any(mentions(e, str_of(c), w) for c in mine) for w in words if not (k == 10 and w is Q)), "the texts of the changes name what changed")
    if verdict_ != "change":
        msgs = res.warnings if verdict_ == "warning" else res.errors
        e.check(len(msgs) == 1 and mentions(e, msgs[0], P, *words), "the message names what changed")
        e.check(any(mentions(e, x, msgs[0]) for x in lines), "the message is printed")
    e.check(any(mentions(e, x, "Warning") for x in lines) == bool(res.warnings) and any(mentions(e, x, "ERROR") for x in lines) == bool(res.errors), "warnings and errors are announced")
    e.cover(verdict_)


def h_report(e):
    """what is reported to the user, and whether the comparison counts as successful"""
    import contextlib
    import io
    k = e.choose(4, "change")
    cls = e.sym("class", ["T", "S"])
    o = MemberVariable(name="a", type="int", description="d")
    n = [o, MemberVariable(name="b", type="int", description="d"), MemberVariable(name="a", type="Comp", description="d"), MemberVariable(name="c", type="float", description="d")][k]
    extra = e.flip("vector member")
    do, dn = definition(e, "Members", [o]), definition(e, "Members", [n])
    if extra:
        dn["VectorMembers"] = [MemberVariable(name="v", type="int", description="d")]
    co = {e.lit("Comp"): {"Members": []}}
    mo, mn = model({cls: do}, co), model({cls: dn}, co)
    rn = e.flip("declared")
    det, res = judge(mn, mo, {cls: [{"from_version": 1, "to_version": 2, "rename_member": {"from": "a", "to": "b"}}]} if rn else {})
    cmp_ = S.DataModelComparator(mn)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok = cmp_.print_comparison(res)
    bad = k == 2 or extra
    e.check(bool(ok) == (not bad), "a comparison is successful exactly if no change is impossible")
    e.check(bool(res.errors) == bad, "errors for the impossible changes")
    if k == 3 and not extra:  # a renamed data type as well
        x = e.lit("Gone")
        mo.datatypes[x], mn.datatypes[e.lit("Here")] = definition(e, "Members", [MemberVariable(name="g", type="int", description="d")]), definition(e, "Members", [MemberVariable(name="g", type="int", description="d")])
        det, res = judge(mn, mo, {})
        e.check(len(find(res.schema_changes, S.RenamedDataType, lambda c: same(c.klassname, x))) == 1, "a renamed data type")
    for schema_filter in (None, S.sio_filter, S.root_filter):
        by_class = cmp_.get_changed_schemata(res, schema_filter) if schema_filter else cmp_.get_changed_schemata(res)
        sel = [c for c in res.schema_changes if schema_filter is not S.root_filter or isinstance(c, (S.RenamedMember, S.RenamedDataType))]
        e.check(sum(len(v) for v in by_class.values()) == len(sel), "every change is listed once")
        for name, lst in by_class.items():
            e.check(all(any(c is x for x in sel) and same(c.klassname, name) for c in lst), "changes are listed for their class")
    e.cover("bad" if bad else "good")
