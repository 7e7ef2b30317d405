"""Builds LLVM bitcode (for the symbolic executor) and native replay binaries from /repo's current working tree."""
import hashlib, itertools, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from . import evorules

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
BUILD = VERIF / "build"
CACHE = Path(os.environ.get("VP_CACHE", BUILD / "cache"))
ENGINE = VERIF / "engine"
RT = ENGINE / "rt"
IRFLAGS = ["-std=c++20", "-O1", "-gline-tables-only", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize",
           "-Wno-everything", f"-I{RT}"]
NATFLAGS = ["-std=c++20", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-c", "-Wno-everything", f"-I{RT}"]
CORE = ["CollectionIDTable.cc", "GenericParameters.cc", "DatamodelRegistry.cc", "DatamodelRegistryIOHelpers.cc",
        "UserDataCollection.cc", "CollectionBufferFactory.cc", "MurmurHash3.cpp", "SchemaEvolution.cc", "Glob.cc"]
SIO = ["SIOBlock.cc", "SIOBlockUserData.cc", "SIOFrameData.cc", "SIOWriter.cc", "SIOReader.cc", "SIOLegacyReader.cc"]
ROOT = ["ROOTWriter.cc", "ROOTReader.cc", "ROOTFrameData.cc", "ROOTLegacyReader.cc", "RNTupleWriter.cc", "RNTupleReader.cc", "RootHelpers.cc"]
PYGEN = os.environ.get("VP_PYGEN", "/usr/bin/python3")


class BuildError(Exception):
    pass


class GeneratedCodeError(BuildError):
    """the generator refuses a valid model, or what it generates from it does not compile"""


_N = itertools.count()


def unique():
    """for names of temporary files: several threads may build the same thing"""
    return "%d_%d_" % (os.getpid(), next(_N))


def run(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout


def ensure_engine():
    need = [BUILD / "vpsym", BUILD / "rt.bc", BUILD / "rt_c.bc"]
    if not all(p.exists() for p in need):
        run(["make", "-s", "-C", str(ENGINE)], timeout=900)


def _hash_tree(h, root, suffixes=None):
    root = Path(root)
    files = sorted(p for p in root.rglob("*") if p.is_file()) if root.is_dir() else [root]
    for p in files:
        if "__pycache__" in p.parts or p.suffix == ".pyc":
            continue
        h.update(str(p.relative_to(root.parent)).encode())
        h.update(p.read_bytes())


_repo_hash = None


def repo_hash():
    """Content hash of everything in the repository that ends up in what is encoded."""
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for d in ("include", "src", "python", "tools", "CMakeLists.txt", "podioVersion.in.h"):
            if (REPO / d).exists():
                _hash_tree(h, REPO / d)
        _hash_tree(h, VERIF / "models")
        _hash_tree(h, RT)
        _hash_tree(h, VERIF / "harness" / "stub")
        _hash_tree(h, VERIF / "harness" / "stub_root")
        h.update(Path(__file__).read_bytes())
        _repo_hash = h.hexdigest()[:24]
    return _repo_hash


def prune_cache(keep=2):
    """development convenience: drop products of older trees"""
    if not CACHE.exists():
        return
    ds = sorted((d for d in CACHE.iterdir() if d.is_dir()), key=lambda d: d.stat().st_mtime)
    for d in ds[:-keep]:
        if d.name != repo_hash():
            shutil.rmtree(d, ignore_errors=True)


def tree_dir():
    d = CACHE / repo_hash()
    d.mkdir(parents=True, exist_ok=True)
    os.utime(d)
    return d


def podio_version():
    v = {}
    for line in (REPO / "CMakeLists.txt").read_text().splitlines():
        m = re.search(r"_VERSION_(MAJOR|MINOR|PATCH) +([0-9]+)", line)
        if m and m.group(1) not in v:
            v[m.group(1)] = m.group(2)
    return v


def gen_version_header():
    out = tree_dir() / "vinc" / "podio"
    f = out / "podioVersion.h"
    if not f.exists():
        out.mkdir(parents=True, exist_ok=True)
        v = podio_version()
        t = (REPO / "podioVersion.in.h").read_text()
        full = "%s.%s.%s" % (v["MAJOR"], v["MINOR"], v["PATCH"])
        t = t.replace("@podio_VERSION@", full)
        for k in ("MAJOR", "MINOR", "PATCH"):
            t = t.replace("@podio_VERSION_%s@" % k, v[k])
        left = re.findall(r"@\w+@", t)
        if left:
            raise BuildError("podioVersion.in.h: unknown placeholders %s" % left)
        f.write_text(t)
    return tree_dir() / "vinc"


MODELS = {
    # name: (yaml, upstream or None, old descriptions, evolution file)
    "vm": dict(yaml="vm.yaml"),
    "va": dict(yaml="va.yaml", flat=True),
    "vx": dict(yaml="vx.yaml", upstream="vm:vm.yaml"),
    "vs": dict(yaml="vm.yaml", pkg="vm", sio=True),
    "vr": dict(yaml="vm.yaml", pkg="vm", root=True),
    "evold": dict(yaml="evold.yaml", pkg="ev"),
    "evmid": dict(yaml="evmid.yaml", pkg="ev"),
    "evnew": dict(yaml="evnew.yaml", pkg="ev", old=["evold.yaml", "evmid.yaml"], evo="evolution.yaml", rules={1: "evold", 2: "evmid"}),
}


def _atomic_dir(final, make):
    """build a directory once (concurrent checks may share the cache)"""
    if final.exists():
        return final
    tmp = Path(tempfile.mkdtemp(prefix=final.name + ".", dir=str(final.parent)))
    try:
        make(tmp)
        try:
            os.rename(tmp, final)
        except OSError:
            if not final.exists():
                raise
    finally:
        if tmp.exists():
            shutil.rmtree(tmp, ignore_errors=True)
    return final


def gen_model(name):
    m = MODELS[name]
    pkg = m.get("pkg", name)

    def make(d):
        cmd = [PYGEN, "-B", str(REPO / "python/podio_class_generator.py"), str(VERIF / "models" / m["yaml"]), str(d), pkg] + (["SIO"] if m.get("sio") else []) + ["-q"]
        if m.get("upstream"):
            n, y = m["upstream"].split(":")
            cmd += ["--upstream-edm", f"{n}:{VERIF / 'models' / y}"]
        if m.get("evo"):
            cmd += ["-e", str(VERIF / "models" / m["evo"])]
        if m.get("old"):
            cmd += ["--old-descriptions"] + [str(VERIF / "models" / o) for o in m["old"]]
        try:
            run(cmd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        except BuildError as e:
            if "Traceback (most recent call last)" in str(e) or "podio" in str(e).split("\n", 1)[-1]:
                raise GeneratedCodeError("the generator fails for the valid model %s\n%s" % (m["yaml"], e))
            raise
        if m.get("rules"):
            evorules.write(d, pkg, {v: gen_model(o) for v, o in m["rules"].items()},
                           [f"-I{REPO / 'include'}", f"-I{gen_version_header()}"], d / "evrules.h")
    return _atomic_dir(tree_dir() / ("gen_" + name), make)


def _include_flags(models):
    fl = [f"-I{REPO / 'include'}", f"-I{REPO / 'src'}", f"-I{gen_version_header()}", f"-I{VERIF / 'harness'}"]
    if any(MODELS[m].get("root") for m in models):
        fl.append(f"-I{VERIF / 'harness' / 'stub_root'}")
    fl.append(f"-I{VERIF / 'harness' / 'stub'}")
    for m in models:
        g = gen_model(m)
        fl += [f"-I{g}", f"-I{g / MODELS[m].get('pkg', m)}"] if MODELS[m].get("flat") else [f"-I{g}"]
    return fl


def _sources(models, core=True):
    srcs = []
    if core:
        srcs += [(f"core_{Path(c).stem}", REPO / "src" / c) for c in CORE]
    if any(MODELS[m].get("sio") for m in models):
        srcs += [(f"sio_{Path(c).stem}", REPO / "src" / c) for c in SIO]
    if any(MODELS[m].get("root") for m in models):
        srcs += [(f"root_{Path(c).stem}", REPO / "src" / c) for c in ROOT]
    for m in models:
        for p in sorted((gen_model(m) / "src").glob("*.cc")):
            srcs.append((f"{m}_{p.stem}", p))
    return srcs


def compile_all(models, mode, extra=(), core=True, defines=(), hdefines=(), jobs=8):
    """mode: 'ir' or 'asan' / 'tsan' / 'plain'. Returns the list of object files."""
    for m in models:
        gen_model(m)
    inc = _include_flags(models) + [f"-D{d}" for d in defines]
    tag = mode + ("_" + hashlib.sha1(" ".join(defines).encode()).hexdigest()[:6] if defines else "")
    od = tree_dir() / ("obj_" + tag)
    od.mkdir(exist_ok=True)
    suf = ".bc" if mode == "ir" else ".o"
    hfl = [f"-D{d}" for d in hdefines]
    srcs = [(k, p, []) for k, p in _sources(models, core)]
    for e in map(Path, extra):
        sig = hashlib.sha1((" ".join(list(models) + hfl)).encode())
        for p in [e] + sorted(e.parent.glob("*.h")):
            sig.update(p.read_bytes())
        srcs.append((f"x_{e.stem}_{sig.hexdigest()[:10]}", e, hfl))
    todo, objs = [], []
    for key, src, xf in srcs:
        o = od / (key + suf)
        objs.append(o)
        if not o.exists():
            todo.append((src, o, xf))
    fl = list(IRFLAGS) if mode == "ir" else list(NATFLAGS)
    if mode == "asan":
        fl += ["-fsanitize=address"]
    elif mode == "tsan":
        fl += ["-fsanitize=thread"]

    def one(t):
        src, o, xf = t
        tmp = o.with_name(o.name + ".tmp" + unique())
        try:
            run(["clang++"] + fl + inc + xf + [str(src), "-o", str(tmp)])
        except BuildError as e:
            if "/gen_" in str(src) and re.search(r"/gen_\w+/.*: (fatal )?error: ", str(e)):
                raise GeneratedCodeError("the code generated for a valid model does not compile\n%s" % e)
            raise
        os.replace(tmp, o)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    return objs


def link_ir(objs, out, internalize=None):
    tmp = str(out) + ".tmp" + unique()
    run(["llvm-link-18"] + [str(o) for o in objs] + [str(BUILD / "rt.bc"), str(BUILD / "rt_c.bc"), "-o", tmp])
    if internalize:
        run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(internalize), tmp, "-o", tmp + "2"])
        os.replace(tmp + "2", tmp)
    os.replace(tmp, out)
    return out


def native_from_ir(objs, out):
    """the very bitcode the engine executes, compiled for this machine (sample validation)"""
    tmp = str(out) + ".tmp" + unique()
    nat = native_rt("plain")
    bc = str(out) + ".l%d.bc" % os.getpid()
    run(["llvm-link-18"] + [str(o) for o in objs] + ["-o", bc])
    run(["clang++", "-O0", "-Wno-everything", "-rdynamic", bc, str(nat), "-o", tmp, "-lpthread", "-ldl"])
    os.unlink(bc)
    os.replace(tmp, out)
    return out


def native_rt(mode):
    o = tree_dir() / f"vp_native_{mode}.o"
    if not o.exists():
        fl = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread", "-DVP_TSAN"], "plain": [], "jitter": ["-DVP_JITTER"]}[mode]
        tmp = o.with_name(o.name + ".tmp" + unique())
        run(["clang++"] + NATFLAGS + fl + [str(RT / "vp_native.cpp"), "-o", str(tmp)])
        os.replace(tmp, o)
    return o


def native(models, extra, mode, out, core=True, defines=(), hdefines=()):
    objs = compile_all(models, "plain" if mode == "jitter" else mode, extra, core, defines, hdefines)
    fl = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread", "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"], "plain": [], "jitter": []}[mode]
    tmp = str(out) + ".tmp" + unique()
    run(["clang++", "-rdynamic"] + fl + [str(o) for o in objs] + [str(native_rt(mode)), "-o", tmp, "-lpthread", "-ldl"])
    os.replace(tmp, out)
    return out
