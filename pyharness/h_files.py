"""Writing of the generated files (podio_gen/generator_base.py, cpp_generator.py): what is written, and when"""
import builtins
import io
import os
from pysym.engine import eq, f_and, f_or, f_not, is_sym, lift, rt_fstr
import podio_gen.generator_base as base
import podio_gen.cpp_generator as cpp
import podio_gen.julia_generator as jl
from podio_gen.podio_config_reader import PodioConfigReader
from pyharness.h_model import dtype
DEPTH = 0
ROOT = "/vp-out"


class File:
    """an open file of the file system in memory"""
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.pos = fs, name, mode, 0
        if "w" in mode:
            fs.files[name] = ""
        if "w" in mode or "a" in mode or "+" in mode:
            fs.files.setdefault(name, "")
            fs.touched.append(name)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None

    def close(self):
        pass

    def flush(self):
        pass

    def read(self, size=-1, *_):
        start, self.pos = self.pos, None
        if start is None:
            return ""
        text = self.fs.files[self.name]
        if size is None or size < 0:
            return text if start == 0 else lift(lambda t: t[start:], text)
        self.pos = start + size
        return lift(lambda t: t[start:start + size], text)

    def readline(self, *_):
        start = self.pos
        line = "" if start is None else lift(lambda t: (t[start:].splitlines(True) or [""])[0], self.fs.files[self.name])
        self.pos = None if start is None else start + len(line)
        return line

    def readlines(self, *_):
        start, self.pos = self.pos, None
        return [] if start is None else lift(lambda t: t[start:].splitlines(True), self.fs.files[self.name])

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, pos, *_):
        self.pos = pos

    def write(self, text):
        old = self.fs.files[self.name]
        self.fs.files[self.name] = text if isinstance(old, str) and not is_sym(old) and old == "" else rt_fstr(old, text)


class FS:
    """everything below ROOT is in memory: contents can be symbolic"""
    def __init__(self):
        self.files, self.touched = {}, []
        self.real = {}

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        return p if isinstance(p, str) and p.startswith(ROOT) else None

    def __enter__(self):
        fs = self

        def wrap(mod, name, f):
            real = getattr(mod, name)
            fs.real[(mod, name)] = real
            setattr(mod, name, lambda p, *a, **k: f(fs.mine(p), *a, **k) if fs.mine(p) else real(p, *a, **k))

        def open_(p, mode="r", *a, **k):
            if "r" in mode and p not in fs.files:
                raise FileNotFoundError(2, "No such file", p)
            return File(fs, p, mode)

        def replace(p, q):
            fs.files[q] = fs.files.pop(p)
            fs.touched.append(q)

        def remove(p):
            fs.files.pop(p)

        def stat(p, *a, **k):
            if p not in fs.files:
                raise FileNotFoundError(2, "No such file", p)
            return os.stat_result((0o100644,) + (0,) * 9)

        for mod in (builtins, io):
            wrap(mod, "open", open_)
        for name in ("exists", "isfile", "lexists"):
            wrap(os.path, name, lambda p: p in fs.files)
        for name in ("replace", "rename"):
            wrap(os, name, replace)
        for name in ("remove", "unlink"):
            wrap(os, name, remove)
        wrap(os, "stat", stat)
        wrap(os, "makedirs", lambda p, *a, **k: None)
        return self

    def __exit__(self, *_):
        for (mod, name), f in self.real.items():
            setattr(mod, name, f)


LIST = ROOT + "/podio_generated_files.cmake"


def generate(fs, model, contents, julia, dryrun, formatter):
    """one run of the generator -> the generated files as they should be"""
    import copy
    PodioConfigReader.read = classmethod(lambda cls, yamlfile, package_name, upstream_edm=None, ignore_extracode=False: cls.parse_model(copy.deepcopy(model), package_name, upstream_edm, None, ignore_extracode))
    base._get_bytecode_cache = lambda: None
    want = {}

    def evaluate(self, template, data):
        return contents.get(template, "content of " + template)

    if julia:
        gen = type("Gen", (jl.JuliaClassGenerator,), {"_eval_template": evaluate})("new", ROOT, "pkg", False, dryrun, None)
    else:
        gen = type("Gen", (cpp.CPPClassGenerator,), {"_eval_template": evaluate})("new", ROOT, "pkg", ["ROOT"], False, dryrun, None, [], None)
    if formatter:
        gen.formatter_func = lambda content, name: rt_fstr(content, ";")
    with fs:
        gen.process()
    return gen


def h_update(e):
    """after a run of the generator all files are what they should be, and nothing else has been written than what had to be"""
    julia = e.flip("julia")
    formatter = e.flip("formatter")
    dryrun = e.flip("dry run")
    model = dict(schema_version=1, components={"C": {"Members": ["int x // d"]}}, datatypes={"D": dtype(Members=["C c // d"])})
    templates = ["MutableStruct.jl.jinja2", "ParentModule.jl.jinja2"] if julia else [["Component.h.jinja2", "Collection.cc.jinja2"], ["Obj.h.jinja2", "selection.xml.jinja2"]][e.choose(2, "which files")]
    texts = ["", "a\n", "a\nb\n", "a\nb", " a\n", "A\n"]
    # a first run tells the files of the model (its contents are all different from what comes later)
    first = FS()
    generate(first, model, {}, julia, False, False)
    names = {"MutableStruct.jl.jinja2": ["/pkg/CStruct.jl", "/pkg/DStruct.jl"], "ParentModule.jl.jinja2": ["/pkg/Pkg.jl"], "Component.h.jinja2": ["/pkg/C.h"], "Collection.cc.jinja2": ["/src/DCollection.cc"],
             "Obj.h.jinja2": ["/pkg/DObj.h"], "selection.xml.jinja2": ["/src/selection.xml"]}
    contents = {t: e.sym("new content", texts) for t in templates}
    shown = {t: rt_fstr(c, ";") if formatter else c for t, c in contents.items()}
    # what is there: nothing, or an older version of everything; the chosen files may also be missing or hold anything
    fs = FS()
    there = e.choose(3, "output directory")  # empty, up to date, all different
    for f, c in first.files.items():
        if there:
            fs.files[f] = c if f == LIST else (c if there == 1 else "other " + c) + (";" if formatter and there == 1 else "")
    old = {}
    for t in templates:
        for f in names[t]:
            f = ROOT + f
            if e.flip("missing"):
                fs.files.pop(f, None)
            else:
                fs.files[f] = e.sym("old content", [x + (";" if formatter else "") for x in texts[:4]] + ["a"])
    if not julia and there == 1:
        k = e.choose(3, "list of files")
        if k == 1:
            fs.files.pop(LIST)
        elif k == 2:
            fs.files[LIST] = fs.files[LIST][:-1]
    before = dict(fs.files)
    fs.files["/vp-out/pkg/Mine.h"] = "not generated"
    generate(fs, model, contents, julia, dryrun, formatter)
    if dryrun:
        e.check(not fs.touched and set(fs.files) == set(before) | {"/vp-out/pkg/Mine.h"}, "a dry run writes nothing")
        e.cover("dry run")
        return
    e.check(fs.files["/vp-out/pkg/Mine.h"] == "not generated", "other files are left alone")
    special = {ROOT + f: shown[t] for t in templates for f in names[t]}
    anything = False
    e.check(set(fs.files) == set(first.files) | {"/vp-out/pkg/Mine.h"}, "all files are there")
    for f, c in first.files.items():
        if f == LIST:
            continue
        want = special.get(f, c + ";" if formatter else c)
        e.check(eq(fs.files[f], want), "the content of a generated file")
        up_to_date = f in before and lift(lambda a, b: a == b, before[f], want)
        e.check((f not in fs.touched) == up_to_date, "a file is written exactly if its content is not there yet")
        anything = anything or not up_to_date
    if not julia:
        e.check(eq(fs.files[LIST], first.files[LIST]), "the list of files")
        e.check((LIST in fs.touched) == (anything or before.get(LIST) != first.files[LIST]), "the list of files is written exactly if anything has changed")
    e.cover("changes" if anything else "no changes")
    fs.touched.clear()
    generate(fs, model, contents, julia, dryrun, formatter)
    e.check(not fs.touched, "another run writes nothing")
