#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/*.seed.py definitions: patch.diff (made against /repo's HEAD), demo files, meta.json."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])
SEEDS = []
for f in sorted(glob.glob(f"{V}/tools/seeds/*.seed.py")):
    ns = {"V": V}
    exec(open(f).read(), ns)
    SEEDS += ns["SEEDS"]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = f"{V}/seeded/{s['id']}"
    t = tempfile.mkdtemp()
    diff = ""
    for path, edits in s["edits"].items():
        src = subprocess.run(["git", "-C", os.environ.get("R", "/repo"), "show", f"HEAD:{path}"], capture_output=True, text=True, check=True).stdout
        new = src
        for old, rep in edits:
            if new.count(old) != 1:
                print(s["id"], "pattern found", new.count(old), "times in", path, repr(old)); sys.exit(1)
            new = new.replace(old, rep)
        for side, txt in (("a", src), ("b", new)):
            os.makedirs(os.path.dirname(f"{t}/{side}/{path}"), exist_ok=True)
            open(f"{t}/{side}/{path}", "w").write(txt)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "-U3", f"a/{path}", f"b/{path}"], cwd=t, capture_output=True, text=True)
        diff += r.stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    for name, txt in s["files"].items():
        open(f"{d}/{name}", "w").write(txt)
    shutil.copy(f"{V}/tools/seeds/demolib.py", f"{d}/demolib.py")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(s["id"])
