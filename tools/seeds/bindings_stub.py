"""A stand-in for what the Python bindings see of ROOT, cppyy and the C++ classes of podio. Everything a frame or a file holds is visible in it."""
import atexit
import builtins
import io
import os
import sys
import types
sys.dont_write_bytecode = True


class E:
    ENG_eq = staticmethod(lambda a, b: a == b)


concrete_int = int


# ---- cppyy
class Null:
    """a null pointer of a collection type"""
    def __eq__(self, o): return isinstance(o, Null)
    def __ne__(self, o): return not self == o
    def __bool__(self): return False
    __hash__ = None


class Moved:
    def __init__(self, what): self.what = what
    def __smartptr__(self): return self


class CppObject:
    def __repr__(self): return "<cppyy.gbl.%s object at 0x1>" % type(self).__name__


class UniquePtr(CppObject):
    """the data of a frame that a reader returns: what it holds, or nothing"""
    def __init__(self, content): self.content = content
    def __bool__(self): return self.content is not None
    def __smartptr__(self): return self


class Optional:
    def __init__(self, v): self.v = v
    def has_value(self): return self.v is not None
    def __bool__(self): return self.v is not None
    def value(self):
        if self.v is None:
            raise RuntimeError("bad_optional_access")
        return self.v


class CollectionBase(CppObject):
    def __init__(self, ident, size=0):
        self.ident, self.size = ident, size
        self.valid = True

    def getID(self): return self.ident
    def __len__(self): return self.size
    def __bool__(self): return bool(self.size)  # (as in cppyy: empty containers are false)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)


class HitCollection(CollectionBase):
    pass


class SomethingElse(CppObject):
    """a C++ object that is not a collection"""


class BoolValue:
    def __init__(self, v): self.value = v


class IsBaseOf:
    def __getitem__(self, ts):
        b, t = ts
        return BoolValue(issubclass(t, b))


class StdException(Exception):
    def __init__(self, text=""):
        super().__init__(text)
        self.text = text

    def what(self): return self.text


class invalid_argument(StdException): pass
class bad_function_call(StdException): pass
class runtime_error(StdException): pass


class StringView:
    def __init__(self, s): self.s = s
    def data(self): return self.s
    def c_str(self): return self.s
    def __str__(self): return self.s


# ---- the frame
CPP_TYPES = ["int", "float", "std::string", "double"]


class Vector(list):
    """std::vector, also when copied"""
    def __deepcopy__(self, memo): return Vector(self)


class Template:
    def __init__(self, fn, plain=None): self.fn, self.plain = fn, plain

    def __getitem__(self, t):
        return lambda *a: self.fn(t, *a)

    def __call__(self, *a):
        return self.plain(*a)


def element(t):
    """the element type of a parameter type, and whether it is a vector"""
    if t.startswith("std::vector<") and t.endswith(">"):
        t, vec = t[12:-1].strip(), True
    else:
        vec = False
    t = {"string": "std::string"}.get(t, t)
    if t not in CPP_TYPES:
        raise TypeError("Template method resolution failed: " + t)
    return t, vec


def convert(t, v):
    ok = isinstance(v, str) if t == "std::string" else isinstance(v, int) if t == "int" else isinstance(v, (int, float))
    if not ok:
        raise TypeError("could not convert argument")
    return v


class CppFrame(CppObject):
    def __init__(self, data=None):
        if data is None:
            c = {}
        else:
            if isinstance(data, Moved):
                data = data.what
            if not isinstance(data, UniquePtr):
                raise TypeError("could not convert argument 1")
            if data.content is None:
                raise invalid_argument("FrameData is a nullptr")
            c = data.content
            data.content = None
        self.colls = list(c.get("colls", []))     # (name, collection)
        self.pars = [list(p) for p in c.get("pars", [])]  # [name, type, values]
        self.what = c.get("what")
        self.putParameter = Template(self._put, self._put_plain)
        self.getParameter = Template(self._get_par)

    # parameters
    def getParameters(self):
        f = self
        p = types.SimpleNamespace()
        p.getKeys = Template(lambda t: [StringView(k) for k, u, _ in f.pars if u == element(t)[0]])
        return p

    def _put(self, t, key, value):
        t, vec = element(t)
        if isinstance(value, (list, tuple)):
            if not vec:
                raise TypeError("could not convert argument 2")
            value = [convert(t, v) for v in value]
        else:
            if vec:
                raise TypeError("could not convert argument 2")
            value = [convert(t, value)]
        for p in self.pars:
            if p[1] == t and E.ENG_eq(p[0], key):
                p[2] = value
                return
        self.pars.append([key, t, value])

    def _put_plain(self, key, value):
        if isinstance(value, str):
            return self._put("std::string", key, value)
        if isinstance(value, float):
            return self._put("double", key, value)
        raise TypeError("none of the overloaded methods succeeded")

    def _get_par(self, t, name):
        t, vec = element(t)
        for k, u, v in self.pars:
            if u == t and E.ENG_eq(k, name):
                return Optional(Vector(v) if vec else v[0] if v else None)
        return Optional(None)

    # collections
    def getAvailableCollections(self):
        return [StringView(n) for n, _ in self.colls]

    def get(self, name):
        for n, c in self.colls:
            if E.ENG_eq(n, name):
                return c
        return Null()

    def getName(self, token):
        i = token.getID() if isinstance(token, CollectionBase) else token
        for n, c in self.colls:
            if c.ident == i:
                return Optional(n)
        return Optional(None)

    def put(self, coll, name):
        if not isinstance(coll, Moved) or not isinstance(coll.what, CollectionBase):
            raise TypeError("could not convert argument 1")
        if any(E.ENG_eq(n, name) for n, _ in self.colls):
            raise TypeError("could not convert argument 1")
        coll = coll.what
        new = HitCollection(coll.ident, coll.size)
        coll.valid, coll.size = False, 0
        self.colls.append((name, new))
        return new


# ---- files
class World:
    """the files there are, everything that is opened and everything that is written"""
    def __init__(self):
        self.files = {}    # name -> dict(format, cats = {category: [content]})
        self.opened, self.written, self.mergers = [], [], []
        self.left = []     # readers and writers


WORLD = World()


def content_of(frame):
    return dict(what=frame.what, pars=[list(p) for p in frame.pars], colls=list(frame.colls))


class CppReader:
    format, many = None, True

    def __init__(self):
        self.names, self.pos, self.calls = None, {}, []
        WORLD.opened.append(self)

    def openFiles(self, names):
        if not isinstance(names, (list, tuple)) or not all(isinstance(n, str) for n in names):
            raise TypeError("could not convert argument 1")
        for n in names:
            f = WORLD.files.get(n)
            if f is None or f["format"] != self.format:
                raise runtime_error("File " + n + " couldn't be opened")
        self.names = list(names)

    def openFile(self, name):
        if not isinstance(name, str):
            raise TypeError("could not convert argument 1")
        CppReader.openFiles(self, [name])

    def cats(self):
        out = {}
        for n in self.names:
            for c, es in WORLD.files[n]["cats"].items():
                if c in known_cats(WORLD.files[n]):
                    out.setdefault(c, []).extend(es)
        return out

    def getAvailableCategories(self): return [StringView(c) for c in self.cats()]

    def entries(self, cat):
        for c, es in self.cats().items():
            if E.ENG_eq(c, cat):
                return c, es
        return None, []

    def getEntries(self, cat): return len(self.entries(cat)[1])

    def readEntry(self, cat, i, colls=()):
        if not isinstance(i, int) or isinstance(i, bool):
            raise TypeError("could not convert argument 2")
        if i < 0:
            raise OverflowError("can't convert negative value to unsigned int")
        if self.entries(cat)[0] is None:
            return UniquePtr(None)
        self.pos[self.entries(cat)[0]] = i
        return self.readNextEntry(cat, colls)

    def readNextEntry(self, cat, colls=()):
        if not isinstance(colls, (list, tuple)):
            raise TypeError("could not convert argument 2")
        c, es = self.entries(cat)
        if c is None:
            return UniquePtr(None)
        i = self.pos.get(c, 0)
        if not i < len(es):
            return UniquePtr(None)
        i = concrete_int(i)
        got = es[i]
        for n in colls:
            if not any(E.ENG_eq(n, m) for m, _ in got["colls"]):
                raise invalid_argument(n + " is not available from Frame")
        self.pos[c] = i + 1
        return UniquePtr(dict(got, colls=[(m, x) for m, x in got["colls"] if not colls or any(E.ENG_eq(n, m) for n in colls)]))

    def getAvailableDatamodels(self): return [StringView(m) for n in self.names[:1] for m in WORLD.files[n].get("models", {})]

    def getDatamodelDefinition(self, name):
        for n in self.names[:1]:
            for m, (text, _) in WORLD.files[n].get("models", {}).items():
                if E.ENG_eq(m, name):
                    return StringView(text)
        return StringView("{}")

    def currentFileVersion(self, name=None):
        f = WORLD.files[self.names[0]]
        if name is None:
            return f.get("version")
        return Optional(next((v for m, (_, v) in f.get("models", {}).items() if E.ENG_eq(m, name)), None))


class CppWriter:
    format = None

    def __init__(self, name):
        if not isinstance(name, str):
            raise TypeError("could not convert argument 1")
        self.name, self.frames, self.finished = name, [], 0
        self.calls = []
        WORLD.written.append(self)

    def writeFrame(self, frame, cat, colls=None):
        if not isinstance(frame, CppFrame) or colls is not None and not isinstance(colls, (list, tuple)):
            raise TypeError("could not convert argument")
        if self.finished:
            raise runtime_error("finished")
        c = content_of(frame)
        if colls is not None:
            for n in colls:
                if not any(E.ENG_eq(n, m) for m, _ in c["colls"]):
                    raise invalid_argument(n + " is not available")
            c["colls"] = [(m, x) for m, x in c["colls"] if any(E.ENG_eq(n, m) for n in colls)]
        self.frames.append((cat, c))

    def finish(self):
        self.finished += 1
        if self.finished > 1:
            return
        cats = {}
        for c, x in self.frames:
            k = next((k for k in cats if E.ENG_eq(k, c)), c)
            cats.setdefault(k, []).append(x)
        WORLD.files[self.name] = dict(format=self.format, cats=cats)


def kinds(base, **names):
    return {n: type(n, (base,), dict(format=f)) for n, f in names.items()}


READERS = kinds(CppReader, ROOTReader="ttree", RNTupleReader="rntuple", ROOTLegacyReader="legacy", SIOReader="sio", SIOLegacyReader="siolegacy")
for _n in ("SIOReader", "SIOLegacyReader"):
    READERS[_n].openFiles = lambda self, names: (_ for _ in ()).throw(AttributeError("openFiles"))
WRITERS = kinds(CppWriter, ROOTWriter="ttree", RNTupleWriter="rntuple", SIOWriter="sio")


class Version:
    def __init__(self, major=0, minor=0, patch=0): self.major, self.minor, self.patch = major, minor, patch


class TFile:
    @staticmethod
    def Open(name, mode="READ"):
        f = WORLD.files.get(name)
        return TFile(name, f)

    def __init__(self, name, f): self.name, self.f = name, f
    def __bool__(self): return self.f is not None
    def IsZombie(self): return self.f is None
    def Close(self): pass
    def Write(self, *a): return 1

    def Delete(self, what):
        if what.split(";")[0] == "podio_metadata":
            self.f["known"] = None
        else:
            self.f["cats"].pop(what.split(";")[0], None)

    def GetListOfKeys(self):
        return [types.SimpleNamespace(GetName=lambda n=n: n) for n in list(self.f["cats"]) + ["podio_metadata"] * (self.f.get("known", ()) is not None)]

    def GetCompressionSettings(self): return self.f.get("compression", 101)

    def Get(self, what):
        k = {"ttree": "TTree", "rntuple": WORLD.files[self.name].get("class", "ROOT::RNTuple")}.get(self.f["format"])
        if what != "podio_metadata" or k is None:
            return Null()
        return types.SimpleNamespace(IsA=lambda: types.SimpleNamespace(GetName=lambda: k))


class TFileMerger:
    """merges what is in files: categories (trees, RNTuples), and podio_metadata, which has to know the categories"""
    kAll, kSkipListed, kOnlyListed, kIncremental = 0x1e, 0x80, 0x200, 0x2

    def __init__(self, local=True): self.inputs, self.listed, self.out = [], [], None

    def OutputFile(self, name, mode="RECREATE", compression=None):
        self.out, self.update = name, mode == "UPDATE"
        if not self.update:
            WORLD.files[name] = dict(format=None, cats={}, known=None, compression=compression)
        return name in WORLD.files

    def AddFile(self, name, *a):
        if name not in WORLD.files:
            return False
        self.inputs.append(WORLD.files[name])
        return True

    def AddObjectNames(self, n): self.listed += n.split()
    def SetFastMethod(self, on=True): pass

    def PartialMerge(self, flags):
        out = WORLD.files[self.out]
        assert not (flags & self.kSkipListed and flags & self.kOnlyListed)
        take = lambda n: n not in self.listed if flags & self.kSkipListed else n in self.listed if flags & self.kOnlyListed else True
        for f in self.inputs:
            if out["format"] not in (None, f["format"]):
                return False
            out["format"] = f["format"]
            for c, es in f["cats"].items():
                if take(c):
                    out["cats"].setdefault(c, []).extend(es)
            if take("podio_metadata"):
                known = set(known_cats(f))
                if out["known"] not in (None, known):  # (the fields do not match)
                    return False
                out["known"] = known
        return True

    Merge = lambda self, *a: self.PartialMerge(self.kAll)


def known_cats(f):
    """the categories that podio_metadata of a file knows"""
    return f["cats"] if f.get("known") is None else [c for c in f["known"]]


class Interpreter:
    def LoadFile(self, name): return 0
    def Declare(self, text): return True


class System:
    def Load(self, name): return 0
    def DynamicPathName(self, name, quiet=False): return name


EXIT = []


def install():
    """puts the model in the place of ROOT and cppyy"""
    podio = types.SimpleNamespace(Frame=CppFrame, CollectionBase=CollectionBase, version=types.SimpleNamespace(Version=Version), LinkNavigator={}, ReturnFrom=1, ReturnTo=2, LinkCollection=None,
                                  utils=types.SimpleNamespace(expand_glob=None, is_glob_pattern=None), CreateDataFrame=None, **READERS, **WRITERS)
    E.ENG_podio = podio
    std = types.SimpleNamespace(move=Moved, is_base_of=IsBaseOf(), invalid_argument=invalid_argument, bad_function_call=bad_function_call, runtime_error=runtime_error)
    root = types.ModuleType("ROOT")
    root.__version__ = "6.36.00"
    root.TFileMerger, root.kTRUE, root.kFALSE = TFileMerger, True, False
    root.TObject = types.SimpleNamespace(kOverwrite=2)
    root.podio, root.gInterpreter, root.gSystem, root.TFile = podio, Interpreter(), System(), TFile
    gbl = types.ModuleType("cppyy.gbl")
    gbl.std, gbl.podio = std, podio
    cppyy = types.ModuleType("cppyy")
    cppyy.__path__ = []
    cppyy.gbl, cppyy.nullptr, cppyy.bind_object = gbl, None, lambda p, t: Null()
    version = types.ModuleType("podio.__version__")
    version.__version__ = "1.7.2"
    tqdm = types.ModuleType("tqdm")
    tqdm.tqdm = lambda x, *a, **kw: x
    sys.modules.update({"ROOT": root, "cppyy": cppyy, "cppyy.gbl": gbl, "podio.__version__": version, "tqdm": tqdm})
    reg = atexit.register
    atexit.register = lambda f, *a, **kw: EXIT.append((f, a, kw)) or f
    try:
        import podio as bindings
    finally:
        atexit.register = reg
    return bindings


def begin():
    """nothing is left of the last path"""
    WORLD.__init__()
    for f, _, _ in EXIT:
        for k, v in list(vars(type(getattr(f, "__self__", 0))).items()) + list(getattr(getattr(f, "__self__", 0), "__dict__", {}).items()):
            if isinstance(v, (list, set, dict)):
                v.clear()


def at_exit():
    for f, a, kw in EXIT:
        f(*a, **kw)


class Opened:
    """the builtin open, for the files of the model"""
    def __enter__(self):
        self.real = builtins.open

        def fake(name, mode="r", *a, **kw):
            f = WORLD.files.get(os.fspath(name)) if isinstance(name, (str, os.PathLike)) else None
            if f is None:
                return self.real(name, mode, *a, **kw)
            head = {"sio": b"\x3c\0\0\0\xef\xbe\xad\xab\0\0\0\0\x30\0\0\0\x30\0\0\0\x11\0\0\0podio_header_info\0\0\0", "siolegacy": b"\x3c\0\0\0\xef\xbe\xad\xab\0\0\0\0\x30\0\0\0\x30\0\0\0\x10\0\0\0event_metadata"}
            return io.BytesIO(head.get(f["format"], b"root") + b"\nabc podio_header_info")
        builtins.open = fake

    def __exit__(self, *_):
        builtins.open = self.real


def script(path, argv):
    sys.argv = [str(path)] + argv
    try:
        exec(compile(open(path).read(), str(path), "exec"), dict(__name__="__main__", __file__=str(path)))
        return 0
    except SystemExit as x:
        return x.code or 0


def fail(text):
    print("FAILED:", text)
    sys.exit(1)
