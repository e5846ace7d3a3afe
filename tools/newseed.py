"""newseed.py <spec.py>: spec defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]"""
import json
import os
import subprocess
import sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
W = "/tmp/newseed-wt"
for s in ns["SEEDS"]:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W], capture_output=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"], check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True, check=True).stdout
    o = os.path.join("/verif/seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nexport HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W], capture_output=True)
