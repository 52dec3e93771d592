"""dev: (re)creates seeded/<id>/ from dev/seeds.py: mkseed.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

TOP = os.path.dirname(HERE)
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    r = w + "/r"
    for path, old, new in s["edits"]:
        f = os.path.join(r, path)
        t = open(f).read()
        assert t.count(old) == 1, (s["id"], path, t.count(old), old)
        open(f, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    d = os.path.join(TOP, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", r])
    shutil.rmtree(w)
    print("made", s["id"])
