"""generates both models, the data of the collection has to compile on its own"""
import subprocess, sys, tempfile, os

D, R = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
with tempfile.TemporaryDirectory() as w:
    g = [sys.executable, "-B", R + "/python/podio_class_generator.py"]
    os.mkdir(w + "/a"), os.mkdir(w + "/b")
    subprocess.run(g + [D + "/c32_up.yaml", w + "/a", "uppkg", "-q"], check=True)
    subprocess.run(g + [D + "/c32_dn.yaml", w + "/b", "dnpkg", "-q", "--upstream-edm", "uppkg:" + D + "/c32_up.yaml"], check=True)
    text = open(w + "/b/dnpkg/DCollectionData.h").read()
    for t in "VW":
        if '#include "uppkg/%s.h"' % t not in text and "class %s;" % t not in text:
            sys.exit("FAILED: DCollectionData.h does not know %s" % t)
