"""creates /verif/seeded/<id> from the definitions in defs.py; python3 mk.py [regex]"""
import os, re, shutil, subprocess, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from defs import DEFS
pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
W = "/tmp/sdw"
for d in DEFS:
    if not pat.search(d["id"]):
        continue
    shutil.rmtree(W, True)
    subprocess.run(["git", "clone", "-q", os.environ.get("SEED_BASE", "/repo"), W], check=True)
    for f, old, new in d["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (d["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    out = "/verif/seeded/" + d["id"]
    shutil.rmtree(out, True)
    os.makedirs(out + "/fmt")
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/shim/fmt/std.h", out + "/fmt/std.h")
    shutil.copy(HERE + "/demo_lib.py", out)
    open(out + "/demo.py", "w").write("import os\nimport sys\n\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demo_lib import *\n\n" + d["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    # which lines are removed: must be original
    print(d["id"], len(diff.split("\n")))
shutil.rmtree(W, True)
