#!/usr/bin/env python3
"""mkseed.py DEFS.py: builds /verif/seeded/<id>/ from SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
BASE = "627582a"
PRE = "import sys\nsys.path.insert(0, '.')\nimport numpy as np\nimport lie_nn as lie\nimport lie_nn.irreps\n"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]:
        continue
    d = "/verif/seeded/" + s["id"]
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r/lie_nn/_src", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            b = set(subprocess.run(["git", "-C", "/repo", "show", BASE + ":lie_nn/_src/" + f], capture_output=True, text=True, check=True).stdout.split("\n"))
            k = t.index(old)
            ol = t[t.rfind("\n", 0, k) + 1 : t.find("\n", k + len(old.rstrip("\n")))].split("\n")
            print(s["id"], f, "original lines:", [x in b for x in ol])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        assert diff
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
