import bindings_stub as S
S.install()
from podio.root_merge import merge_files
entry = lambda x: dict(what=x, pars=[["p", "int", [1]]], colls=[("hits", S.HitCollection(1, 2))])
for f in "ab":
    S.WORLD.files[f + ".root"] = dict(format="rntuple", cats={"events": [entry(f)], "metadata": [entry("m" + f)]})
for mode, n in (("first", 1), ("all", 2)):
    merge_files(["a.root", "b.root"], "out.root", metadata=mode)
    m = S.WORLD.files["out.root"]["cats"]["metadata"]
    [x["what"] for x in m] == ["ma", "mb"][:n] or S.fail("metadata")
    all(["MergedInputFiles", "std::string", ["a.root", "b.root"]] in x["pars"] for x in m) or S.fail("the merged files are not recorded in all metadata")
[x["what"] for x in S.WORLD.files["out.root"]["cats"]["events"]] == ["a", "b"] or S.fail("events")
