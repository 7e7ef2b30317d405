import subprocess, sys, tempfile, os, re

D, R = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
with tempfile.TemporaryDirectory() as w:
    os.mkdir(w + "/demo")
    subprocess.run([sys.executable, "-B", R + "/python/podio_class_generator.py", D + "/c35.yaml", w, "demo", "-q", "-l", "julia"], check=True)
    text = open(w + "/demo/DStruct.jl").read()
    head = text.split("\n")[0] + text.split("\n")[1]
    for t in re.findall(r"Vector\{ (\w+T) \}", text):
        if not re.search(r"\b%s\b" % t, text.split("others::")[0]):
            sys.exit("FAILED: no type parameter %s in %s" % (t, head))
