import bindings_stub as S
S.install()
from podio import root_io
from podio.base_writer import BaseWriterMixin
class Broken(BaseWriterMixin):
    """a writer that failed to open its file"""
    def __init__(self):
        super().__init__()
        raise RuntimeError
for i in range(2):
    root_io.Writer("a%d" % i)
    try:
        Broken()
    except RuntimeError:
        pass
root_io.RNTupleWriter("b")
S.at_exit()
all(w.finished for w in S.WORLD.written) or S.fail("a writer is not finished")
len(S.WORLD.written) == 3 or S.fail("writers")
