"""The Python bindings (python/podio/*.py) and the tools that use them, above a model of ROOT, cppyy and the C++ classes (cppmodel.py)"""
import os
from pathlib import Path
from pysym import engine as E
from pysym.engine import eq, f_or, is_sym
from pyharness import cppmodel as M
podio = M.install()
from podio.frame import Frame  # noqa: E402
from podio import reading, root_io, sio_io  # noqa: E402
DEPTH = 0
REPO = Path(os.environ.get("VP_REPO", "/repo"))
same = lambda a, b: E.ENG_eq(a, b)


def raised(fn, *a, **kw):
    """(what it returns, None) or (None, the exception)"""
    try:
        return fn(*a, **kw), None
    except (E.PathEnd, E.Violation, E.Incomplete, E.Diverged):
        raise
    except Exception as x:
        return None, x


def frame_of(pars=(), colls=(), what=None):
    return Frame(M.UniquePtr(dict(pars=list(pars), colls=list(colls), what=what)))


VALUES = {"int": [[7], [1, 2], []], "float": [[1.5], [2.5, 3.5, 4.5], []], "std::string": [["s"], ["t", "u"], []], "double": [[0.25], [0.5, 0.75], []]}


class Params:
    """what the parameters of a frame have to be"""
    def __init__(self): self.p = []

    def put(self, name, t, v):
        for x in self.p:
            if x[1] == t and same(x[0], name):
                x[2] = v
                return
        self.p.append([name, t, v])

    def of(self, name): return [(t, v) for n, t, v in self.p if same(n, name)]


def check_params(e, f, m, names, more=()):
    have = list(f.parameters)
    for n in names:
        got = m.of(n)
        k = sum(1 for x in have if same(x, n))
        e.check(k == (1 if got else 0), "every parameter is listed once, and nothing else")
        info, x = raised(f.get_param_info, n)
        e.check(isinstance(x, KeyError) if not got else x is None and dict(info) == {t: len(v) for t, v in got}, "the types and the sizes of a parameter")
        for t in [None, "int", "float", "double", "std::string", "str", *more]:
            v, x = raised(f.get_parameter, n, as_type=t) if t is not None else raised(f.get_parameter, n)
            if not got:
                e.check(isinstance(x, KeyError), "parameters that are not there are refused")
                continue
            if len(got) == 1:
                want = got[0][1]
            elif t is None:
                want = None
            else:
                fit = [w for u, w in got if u == t] or [w for u, w in got if (t, u) in (("str", "std::string"), ("float", "double"))]
                want = fit[0] if fit else None
            if want is None:
                e.check(isinstance(x, ValueError), "a parameter of several types is only returned as one that it has")
                e.cover("ambiguous")
            else:
                e.check(x is None and v == (want[0] if len(want) == 1 else want) and isinstance(v, list) == (len(want) != 1), "a parameter has the value that was put last")
                e.cover("value" if len(want) == 1 else "list")
    for x in have:
        e.check(f_or(*[eq(x, n) for n in names]) if is_sym(x) else x in names, "nothing else is listed")


def h_parameters(e):
    """parameters: from a file, and put from Python"""
    M.begin()
    m = Params()
    names = [e.sym("name", ["a", "b"]), "a", "b"]
    kept = []
    for i in range(e.choose(4 if DEPTH else 3, "from the file")):
        n, t = e.sym("stored name", ["a", "b"]), M.CPP_TYPES[e.choose(4, "stored type")]
        if m.of(n) and any(u == t for u, _ in m.of(n)):
            raise E.PathEnd()
        v = VALUES[t][e.choose(3, "stored size")]
        kept.append([n, t, v])
        m.put(n, t, v)
    f = frame_of(kept)
    if len(kept) < 2:
        for i in range(1 + (DEPTH and not kept)):
            put_one(e, f, m, names[0])
    check_params(e, f, m, ["a", "b"], ["bool"])


def put_one(e, f, m, name):
    kind = e.choose(4, "value")
    v = [[3, 4], [0.5, 8.5, 9.5], ["x", "y"], [2, 2.5]][kind]
    v = v[0] if kind < 3 and e.flip("single") else v if e.flip("list") else tuple(v)
    as_type = [None, "int", "float", "double", "str", "std::string", "bool"][e.choose(7, "as type")]
    _, x = raised(f.put_parameter, name, v, as_type=as_type) if as_type is not None else raised(f.put_parameter, name, v)
    t = {None: ["int", "double", "std::string", "int"][kind], "int": "int", "float": "float", "double": "double", "str": "std::string", "std::string": "std::string", "bool": None}[as_type]
    els = v if isinstance(v, (list, tuple)) else [v]
    fits = t is not None and all(isinstance(y, {"int": int, "std::string": str}.get(t, (int, float))) for y in els)
    if fits:
        e.check(x is None, "parameters of supported types are stored")
        m.put(name, t, list(els))
        e.cover("stored")
    else:
        e.check(isinstance(x, (ValueError, TypeError)), "values that do not fit are refused")
        e.cover("refused")


def h_put_twice(e):
    """several parameters put from Python, one of them empty"""
    M.begin()
    m, f = Params(), Frame()
    e.check(tuple(f.parameters) == (), "a new frame is empty")
    for i in range(3):
        n, t = e.sym("name", ["a", "b"]), e.choose(4, "type")
        if e.flip("empty"):
            v = []
        else:
            v = [[i + 1], [i + 1.5], ["s%d" % i], [i + 0.25, 9.0]][t]
        f.put_parameter(n, v if len(v) != 1 or e.flip("list") else v[0], as_type=["int", "float", "str", "double"][t])
        m.put(n, M.CPP_TYPES[t], v)
    check_params(e, f, m, ["a", "b"])


def h_collections(e):
    """collections of a frame: from a file and put from Python; what is no collection is refused"""
    M.begin()
    have = []
    for i in range(e.choose(3, "from the file")):
        n = e.sym("stored", ["a", "b", "c"])
        if any(same(n, m) for m, _ in have):
            raise E.PathEnd()
        have.append((n, M.HitCollection(100 + i, e.choose(2, "size"))))
    data = M.UniquePtr(dict(colls=list(have)))
    f = Frame(data) if have or e.flip("empty data") else Frame()
    for i in range(1 + DEPTH):
        n = e.sym("name", ["a", "b", "c"])
        what = e.choose(5, "what")
        c = [M.HitCollection(200 + i, 3), M.HitCollection(200 + i, 0), M.SomethingElse(), [1], "cppyy"][what]
        got, x = raised(f.put, c, n)
        if what > 1 or any(same(n, m) for m, _ in have):
            e.check(isinstance(x, ValueError), "what is no collection, and names that are taken, are refused")
            e.cover("refused")
        else:
            e.check(x is None and isinstance(got, M.HitCollection) and got.getID() == 200 + i and len(got) == (3, 0)[what], "the collection is in the frame")
            have.append((n, got))
            e.cover("put")
    av = list(f.getAvailableCollections())
    e.check(len(av) == len(have) and all(isinstance(x, str) for x in av), "all collections are listed")
    for n in ("a", "b", "c"):
        want = next((c for m, c in have if same(m, n)), None)
        got, x = raised(f.get, n)
        e.check(isinstance(x, KeyError) if want is None else x is None and got is want, "collections are found under their names")
        e.check(sum(1 for a in av if same(a, n)) == (want is not None), "every collection is listed once")
        e.cover("empty" if want is not None and not len(want) else "any")
    for n, c in have:
        for tok in (c, c.getID()):
            got, x = raised(f.getName, tok)
            e.check(x is None and eq(got, n), "the name of a collection")
    for tok in (77, M.HitCollection(78)):
        _, x = raised(f.getName, tok)
        e.check(isinstance(x, KeyError), "collections that are not in the frame have no name")


def h_no_data(e):
    """data that is not there is not taken for an empty frame"""
    M.begin()
    _, x = raised(Frame, M.UniquePtr(None))
    e.check(x is not None, "no frame without data")
    e.check(len(list(Frame().getAvailableCollections())) == 0, "a new frame is empty")
    e.cover("done")


# ---- files
def entry(cat, i, tag=""):
    return dict(what=f"{tag}{cat}{i}", pars=[["p", "int", [i]]], colls=[("hits", M.HitCollection(1, 2)), ("none", M.HitCollection(2, 0))])


def what(f):
    return f._frame.what


def frames_equal(a, b, but=()):
    """the content of written frames"""
    return a["what"] == b["what"] and [p for p in a["pars"] if p[0] not in but] == [p for p in b["pars"] if p[0] not in but] and [n for n, _ in a["colls"]] == [n for n, _ in b["colls"]]


FORMATS = {"ttree": ".root", "rntuple": ".root", "legacy": ".root", "sio": ".sio", "siolegacy": ".sio"}
CLASSES = {"ttree": "ROOTReader", "rntuple": "RNTupleReader", "legacy": "ROOTLegacyReader", "sio": "SIOReader", "siolegacy": "SIOLegacyReader"}


def h_iterate(e):
    """iterating over the frames of a category, and single entries"""
    M.begin()
    n = e.choose(4 + DEPTH, "entries")
    M.WORLD.files["f.root"] = dict(format="ttree", cats={"events": [entry("events", i) for i in range(n)], "other": [entry("other", i) for i in range(2)]})
    r = root_io.Reader("f.root")
    cat = e.sym("category", ["events", "other", "none"])
    colls = [None, [], ["hits"], ["hits", "missing"], ["none", "hits"]][e.choose(5, "collections")]
    it = r.get(cat, colls) if colls is not None else r.get(cat)
    size = n if same(cat, "events") else 2 if same(cat, "other") else 0
    name = "events" if same(cat, "events") else "other"
    bad = colls is not None and "missing" in colls
    pos = 0
    for k in range(2 + DEPTH):
        op = e.choose(3, "operation")
        if op == 0:
            e.check(len(it) == size, "the number of entries")
            continue
        if op == 1:
            got, x = raised(next, it)if not e.flip("all") else rest(it)
            lists = isinstance(got, list)
            if x is None and lists:
                e.check(not bad or pos >= size, "collections that are not there are refused")
                e.check([what(g) for g in got] == [name + str(i) for i in range(pos, size)], "iterating gives all entries, in order")
                pos = size
                e.cover("all")
                continue
            i = pos
        else:
            i = M.sym_int(e, "entry", -6, 5)
            got, x = raised(it.__getitem__, i)
            if i < 0:
                i = i + size
            if i < 0 or i >= size:
                e.check(isinstance(x, IndexError), "entries that are not there are refused")
                e.cover("no entry")
                if i >= size:
                    break  # (where iterating goes on is not defined then)
                continue
            i = M.concrete_int(i)
        if i >= size:
            e.check(isinstance(x, StopIteration), "iterating stops after the last entry")
            e.cover("stop")
            continue
        if bad:
            e.check(isinstance(x, ValueError), "collections that are not there are refused")
            e.cover("missing")
            break
        e.check(x is None and what(got) == name + str(i), "the entry that was asked for")
        e.check(sorted(got.getAvailableCollections()) == (sorted(colls) if colls else ["hits", "none"]), "the collections that were asked for")
        e.check(got.get_parameter("p") == i, "the parameters of the entry")
        pos = i + 1
        e.cover("entry")


def rest(it):
    return raised(lambda: [f for f in it])


def h_readers(e):
    """the reader for a file is found, and passes everything on"""
    M.begin()
    fmt = list(FORMATS)[e.choose(5, "format")]
    many = e.choose(3, "files")  # one, one in a list, two
    names = ["%d%s" % (i, FORMATS[fmt]) for i in range(1 + (many == 2))]
    v = M.Version(1, 2, 3)
    for i, n in enumerate(names):
        M.WORLD.files[n] = dict(format=fmt, cats={"events": [entry("events", k, n) for k in range(2)], "runs": []}, models={"edm": ("{def}", v), "old": ("{old}", None)}, version=M.Version(1, 0, i),
                                **({"class": ["ROOT::RNTuple", "ROOT::Experimental::RNTuple"][e.choose(2, "class")]} if fmt == "rntuple" else {}))
    arg = names[0] if many == 0 else names
    with M.Opened():
        direct = e.choose(3, "how") if many != 1 else 0
        cls = {"ttree": root_io.Reader, "rntuple": root_io.RNTupleReader, "legacy": root_io.LegacyReader, "sio": sio_io.Reader, "siolegacy": sio_io.LegacyReader}[fmt]
        if direct:
            r, x = raised(cls, arg if direct == 1 else Path(arg) if isinstance(arg, str) else [Path(a) for a in arg])
        else:
            r, x = raised(reading.get_reader, arg)
    if many == 2 and fmt.startswith("sio"):
        e.check(isinstance(x, (ValueError, TypeError)), "several files are refused where only one can be read")
        e.cover("refused")
        return
    e.check(x is None and isinstance(r, cls), "the reader for the format of the file")
    o = [o for o in M.WORLD.opened if o.names is not None]
    e.check(len(o) == 1 and type(o[0]).__name__ == CLASSES[fmt] and o[0].names == names, "all files are read")
    e.check(tuple(r.categories) == ("events", "runs"), "the categories")
    e.check([what(f) for f in r.get("events")] == [n + "events%d" % k for n in names for k in range(2)], "the frames of all files")
    legacy = "legacy" in fmt
    e.check(bool(r.is_legacy) == legacy, "legacy files")
    got, x = raised(r.get, "events", ["hits"])
    e.check(isinstance(x, ValueError) if legacy else x is None and [list(f.getAvailableCollections()) for f in r.get("events", ["hits"])] == [] and list(got[0].getAvailableCollections()) == ["hits"], "only some collections")
    e.check(tuple(r.datamodel_definitions) == (() if legacy else ("edm", "old")), "the models of the file")
    m = e.sym("model", ["edm", "old", "x"])
    d = r.get_datamodel_definition(m)
    e.check(d == ("" if legacy else "{def}" if same(m, "edm") else "{old}" if same(m, "old") else "{}"), "the definition of a model")
    e.check(r.current_file_version() is M.WORLD.files[names[0]]["version"], "the version of podio")
    got, x = raised(r.current_file_version, m)
    e.check(isinstance(x, RuntimeError) if legacy else got is v if same(m, "edm") else isinstance(x, KeyError), "the version of a model")
    e.cover("legacy" if legacy else "frames")


def h_formats(e):
    """files that cannot be read are refused"""
    M.begin()
    name = ["f.txt", "f.root.bak", "sio", "f"][e.choose(4, "name")]
    M.WORLD.files[name] = dict(format="ttree", cats={})
    with M.Opened():
        _, x = raised(reading.get_reader, name if e.flip("one") else [name])
    e.check(isinstance(x, ValueError), "unknown kinds of files are refused")
    e.cover("refused")


class Broken(root_io.BaseWriterMixin):
    """a writer that fails after it is known"""
    def __init__(self):
        super().__init__()
        raise RuntimeError("no such directory")


def h_writers(e):
    """writers write what they are given, and are finished at the end of the program at the latest"""
    M.begin()
    ws, raw = [], []
    broken = e.choose(3, "broken writer")
    for i in range(2):
        if i == broken:
            raised(Broken)
        k = e.choose(3, "kind")
        cls = [root_io.Writer, root_io.RNTupleWriter, sio_io.Writer][k]
        ws.append(cls("o%d" % i if e.flip("str") else Path("o%d" % i)))
        raw.append(M.WORLD.written[-1])
        e.check(type(raw[-1]).__name__ == ["ROOTWriter", "RNTupleWriter", "SIOWriter"][k] and raw[-1].name == "o%d" % i, "the file is written in its format")
    want = [[], []]
    for i in range(1 + DEPTH):
        w = e.choose(2, "writer")
        x = entry("x", i)
        f = frame_of(x["pars"], x["colls"], x["what"])
        colls = [None, [], ["hits"], ["missing"], ["none", "hits"]][e.choose(5, "collections")]
        cat = e.sym("category", ["events", "runs"])
        _, err = raised(ws[w].write_frame, f, cat, colls) if colls is not None or e.flip("explicit") else raised(ws[w].write_frame, f, cat)
        if colls == ["missing"]:
            e.check(err is not None, "collections that are not there cannot be written")
            continue
        e.check(err is None, "frames are written")
        want[w].append((cat, dict(x, colls=[c for c in x["colls"] if colls is None or c[0] in colls])))
        e.cover("written")
    done = e.choose(3, "finish")
    if done < 2:
        ws[done].finish()
        e.check(raw[done].finished == 1 and not raw[1 - done].finished, "one writer is finished")
    M.at_exit()
    for i in range(2):
        e.check(raw[i].finished >= 1, "all writers are finished at the end")
        e.check(len(raw[i].frames) == len(want[i]) and all(frames_equal(a[1], b[1]) for a, b in zip(raw[i].frames, want[i])), "everything is written")
        for a, b in zip(raw[i].frames, want[i]):
            e.check(eq(a[0], b[0]), "to the category that was asked for")


def h_merge_sio(e):
    """podio-merge-files on SIO files"""
    M.begin()
    n = 1 + e.choose(3 if DEPTH else 2, "files")
    names = ["f%d.sio" % i for i in range(n)]
    for i, f in enumerate(names):
        cats = {}
        for c in (["events", "metadata"], ["metadata", "runs", "events"], ["runs"], ["metadata"])[e.choose(4, "categories")]:
            cats[c] = [entry(c, k, f) for k in range((1 if c == "metadata" else 0) + (1 if i == 2 else e.choose(3 if c == "events" else 2, "entries of " + c)))]
        M.WORLD.files[f] = dict(format="sio" if n > 1 or e.flip("frames") else "siolegacy", cats=cats)
    mode = [None, "none", "all", "first"][e.choose(4, "metadata")]
    twice = e.choose(4, "twice") == 1 if n == 1 else False
    with M.Opened():
        _, x = raised(M.script, REPO / "tools/podio-merge-files", ["--output-file" if e.flip("long") else "-o", "out.sio"] + names + names[:1] * twice + (["--metadata", mode] if mode else []))
    if twice:
        e.check(x is not None and not M.WORLD.written, "no file can be merged twice")
        e.cover("twice")
        return
    e.check(x is None, "files can be merged")
    M.at_exit()
    merged(e, [M.WORLD.files[f]["cats"] for f in names], mode or "first", names, M.WORLD.files.get("out.sio"))


def merged(e, cats, mode, names, out):
    e.check(out is not None, "the output file is written")
    for c in ("events", "runs"):
        want = [x for f in cats for x in f.get(c, [])]
        got = out["cats"].get(c, [])
        e.check(len(got) == len(want) and all(frames_equal(a, b) for a, b in zip(got, want)), "every frame of every file is in the output once, in order")
        e.cover("frames" if want else "no frames")
    got = out["cats"].get("metadata", [])
    if mode == "none":
        e.check(not got, "no metadata")
        return
    have = [f["metadata"] for f in cats if "metadata" in f]
    if mode == "all" and have:
        want = [x for m in have for x in m]
    elif mode == "first" and "metadata" in cats[0]:
        want = cats[0]["metadata"][:1]
    else:
        want = [dict(what=None, pars=[], colls=[])]
    e.check(len(got) == len(want) and all(frames_equal(a, b, ("MergedInputFiles",)) for a, b in zip(got, want)), "the metadata that was asked for")
    e.check(all([p[1:] for p in a["pars"] if p[0] == "MergedInputFiles"] == [["std::string", names]] for a in got), "the metadata tells which files were merged")
    e.cover("metadata " + mode)
    e.check(set(out["cats"]) <= {"events", "runs", "metadata"}, "nothing else")


def h_convert(e):
    """podio-ttree-to-rntuple, both ways"""
    M.begin()
    back = e.flip("reverse")
    cats = {c: [entry(c, k) for k in range(e.choose(3, "entries of " + c))] for c in ("events", "metadata", "runs") if e.flip(c)}
    M.WORLD.files["in.root"] = dict(format="rntuple" if back else "ttree", cats=cats)
    _, x = raised(M.script, REPO / "tools/podio-ttree-to-rntuple", (["-r" if e.flip("short") else "--reverse"] if back else []) + ["in.root", "out.root"])
    e.check(x is None, "files can be converted")
    M.at_exit()
    out = M.WORLD.files.get("out.root")
    e.check(out is not None and out["format"] == ("ttree" if back else "rntuple"), "the output has the other format")
    for c in ("events", "metadata", "runs"):
        got, want = out["cats"].get(c, []), cats.get(c, [])
        e.check(len(got) == len(want) and all(frames_equal(a, b) for a, b in zip(got, want)), "every frame is in the output once, in order")
    e.cover("back" if back else "to rntuple")


def h_merge_root(e):
    """podio-merge-files on ROOT files: all have the same categories"""
    M.begin()
    n = 1 + e.choose(3 if DEPTH else 2, "files")
    fmt = ["ttree", "rntuple"][e.choose(2, "format")]
    names = ["f%d.root" % i for i in range(n)]
    layout = (["events", "metadata"], ["metadata", "runs", "events"], ["runs"], ["events", "runs"])[e.choose(4, "categories")]
    for f in names:
        cats = {c: [entry(c, k, f) for k in range(1 if c == "metadata" else 1 + e.choose(2, "entries of " + c))] for c in layout}
        M.WORLD.files[f] = dict(format=fmt, cats=cats, compression=404)
    before = {f: {c: list(x) for c, x in M.WORLD.files[f]["cats"].items()} for f in names}
    mode = [None, "none", "all", "first"][e.choose(4, "metadata")]
    comp = [None, "505", "0"][e.choose(3, "compression")]
    if e.flip("tool"):
        _, x = raised(M.script, REPO / "tools/podio-merge-files", ["-o", "out.root"] + names + (["--metadata", mode] if mode else []) + (["-c", comp] if comp else []))
    else:
        from podio.root_merge import merge_files
        _, x = raised(merge_files, [Path(f) for f in names] if e.flip("paths") else names, "out.root", **({"metadata": mode} if mode else {}), **({"compression": int(comp)} if comp else {}))
    e.check(x is None, "files can be merged")
    M.at_exit()
    for f in names:
        e.check(M.WORLD.files[f]["cats"] == before[f], "the input stays as it is")
    out = M.WORLD.files.get("out.root")
    merged(e, [before[f] for f in names], mode or "first", names, out)
    e.check(out["format"] == fmt, "the format stays the same")
    e.check(out["compression"] == {None: 101, "505": 505, "0": 404}[comp], "the compression that was asked for")
    e.check(all(c in M.known_cats(out) for c in out["cats"]), "all categories can be read")


class LinkType(type):
    __cpp_name__ = "Links"


def h_small(e):
    """navigators, versions and paths"""
    M.begin()
    from podio import LinkNavigator, version, utils
    what = e.choose(3, "what")
    if what == 0:
        k = e.choose(4, "collection")
        T = LinkType("T", (M.HitCollection,), dict(**({"from_type": 1} if k & 1 else {}), **({"to_type": 2} if k & 2 else {})))
        made = []
        nav = E.ENG_podio.LinkNavigator = {}
        nav[T] = lambda c: made.append(c) or "navigator"
        c = T(1)
        got, x = raised(LinkNavigator, c)
        e.check(got == "navigator" and made == [c] if k == 3 else isinstance(x, TypeError) and not made, "navigators of link collections only")
        e.cover("navigator" if k == 3 else "no links")
    elif what == 1:
        n = 1 + e.choose(3, "parts")
        parts = [e.choose(3, "part") * 7 for _ in range(n)]
        how = e.choose(3, "how")
        ver = M.Version(*parts)
        got, x = raised(version.parse, *([".".join(map(str, parts))] if how == 0 else [ver] if how == 1 else parts))
        e.check(x is None and [got.major, got.minor, got.patch] == (parts + [0, 0])[:3], "the version that was given")
        e.check(str(got) == "%d.%d.%d" % tuple((parts + [0, 0])[:3]), "the text of the version")
        e.check([version.build_version.major, version.build_version.minor, version.build_version.patch] == [1, 7, 2], "the version of the build")
        e.cover("version")
    else:
        k = e.choose(6, "paths")
        arg, want = [("a", ["a"]), (Path("a/b"), ["a/b"]), (["a", Path("b")], ["a", "b"]), (("x",), ["x"]), ([], []), (iter(["p", "q"]), ["p", "q"])][k]
        e.check(utils.convert_to_str_paths(arg) == want, "paths become text")
        e.cover("paths")
