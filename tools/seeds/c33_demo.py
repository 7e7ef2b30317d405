import subprocess, sys, tempfile, os

D, R = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
with tempfile.TemporaryDirectory() as w:
    subprocess.run([sys.executable, "-B", R + "/python/podio_class_generator.py", D + "/c33_v3.yaml", w, "demo", "-q", "-e", D + "/c33_evolution.yaml",
                    "--old-descriptions", D + "/c33_v1.yaml", D + "/c33_v2.yaml"], check=True)
    text = open(w + "/src/selection.xml").read()
    for v in (1, 2):
        if "ex::v%d::OldData" % v not in text:
            sys.exit("FAILED: no dictionary for ex::v%d::OldData" % v)
