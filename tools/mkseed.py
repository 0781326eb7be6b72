"""mkseed.py ID : reads a seed description from stdin (python dict literal: property, needs, breaks, edits [(file, old, new)], demo) and writes seeded/ID"""
import sys, os, json, subprocess, tempfile, shutil
sid = sys.argv[1]
d = eval(sys.stdin.read())
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "seeded", sid)
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
subprocess.check_call("git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x" % (w, w), shell=True)
for f, old, new in d["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"]).decode())
shutil.rmtree(w)
shutil.copy(os.path.join(V, "tools", "seed_demo_cf.sh" if d.get("cf") is True else "seed_demo.sh"), os.path.join(out, "demo.sh"))
if d.get("cf") == "cc":
    # with the crate's default features
    p = os.path.join(out, "demo.sh")
    s = open(p).read()
    open(p, "w").write(s.replace(', default-features = false, features = ["serde", "method_lib_serde"]', ''))
open(os.path.join(out, "demo.rs"), "w").write(d["demo"].lstrip())
json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
