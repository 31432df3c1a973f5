#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
notes = json.load(open(f"{V}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/vf/props/{i}.py"):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 vf/run.py {i} quick", thorough_cmd=f"python3 vf/run.py {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", "TLA+ specification checked with TLC; recorded traces of the real code validated against it"),
                           level=n.get("level", "model_checking"),
                           level_note=n.get("note", "")))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 vf/setup.py", checks=checks, not_applicable=na,
               notes="TLA+/TLC. No hooks in /repo: the drivers use public classes and interpose libc calls from /verif's own executables."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
