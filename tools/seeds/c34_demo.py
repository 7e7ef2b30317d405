import subprocess, sys, tempfile, os, re

D, R = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
with tempfile.TemporaryDirectory() as w:
    subprocess.run([sys.executable, "-B", R + "/python/podio_class_generator.py", D + "/c34.yaml", w, "demo", "ARROW", "-q"], check=True)
    text = open(w + "/src/ArrowMapper.cc").read()
    m = re.search(r'arrow::field\("p", (.*)', text)
    names = re.findall(r'arrow::field\("(\w+)"', m.group(1))
    if names[:3] != ["a", "b", "c"]:
        sys.exit("FAILED: fields of the component: %s" % names)
