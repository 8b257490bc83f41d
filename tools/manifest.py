"""Writes MANIFEST.json from properties.jsonl and the modules in checks/."""
import json
import os
import re

V = "/verif"
TECH = ("contract-based deductive verification: specifications on the real symfem functions, every path of the real "
        "code executed symbolically (pyvc), obligations discharged by z3 and an exact ring/field normaliser")
props = [json.loads(line) for line in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    fn = f"{V}/checks/{i}.py"
    if not os.path.isfile(fn):
        na.append({"property": i, "reason": open(f"{V}/tools/na/{i}").read().strip()
                   if os.path.isfile(f"{V}/tools/na/{i}") else "no check has been built for this property yet"})
        continue
    src = open(fn).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    note = re.search(r'^LEVEL_NOTE = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', note.group(1)))
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i}",
                   "thorough_cmd": f"env VERIF_TIER=thorough PYVC_BUDGET=20000 /opt/venv/bin/python run.py {i}", "technique": TECH,
                   "level": level, "level_note": note})
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q pyvc checks run.py replay.py", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks in /repo: the machinery instruments the source while importing it. See DESIGN.md."}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not claimed")
