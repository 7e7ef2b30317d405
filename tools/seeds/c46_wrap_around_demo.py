import bindings_stub as S
S.install()
from podio import root_io
entry = lambda i: dict(what=i, pars=[["p", "int", [i]]], colls=[("hits", S.HitCollection(1, 2))])
S.WORLD.files["f.root"] = dict(format="ttree", cats={"events": [entry(i) for i in range(3)]})
frames = root_io.Reader("f.root").get("events")
for i in range(-3, 3):
    frames[i].get_parameter("p") == i % 3 or S.fail("entry")
for i in (-4, -7, 3):
    try:
        frames[i]
        S.fail("entry %d of 3" % i)
    except IndexError:
        pass
