import bindings_stub as S
S.install()
from podio.frame import Frame
f = Frame()
f.put(S.HitCollection(3, 0), "empty")
f.put(S.HitCollection(4, 2), "full")
len(f.get("full")) == 2 or S.fail("full")
try:
    ok = f.get("empty").getID() == 3
except KeyError:
    ok = False
ok or S.fail("the empty collection is not available")
try:
    f.get("other")
    S.fail("a collection that is not there")
except KeyError:
    pass
