"""Plants bugs and confirms them in scratch copies.

python tools/plant.py SPEC.py [IDS...]: SPEC defines BUGS, a list of dicts id, property, edits [(file, old, new)], demo (python), needs,
what_it_breaks.  Each is applied to a scratch copy of /repo; it is kept when the demo passes on the unchanged copy and fails on the
changed one and (with TESTS=1) all stable tests pass.
"""
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
SH = '''#!/bin/bash
XDG_CACHE_HOME=$(mktemp -d) || exit 2
export XDG_CACHE_HOME
trap 'rm -rf "$XDG_CACHE_HOME"' EXIT
/opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
PRE = '''import os
import sys

sys.path.insert(0, os.getcwd())
import sympy

import symfem

'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


for b in ns["BUGS"]:
    i = b["id"]
    if ids and i not in ids:
        continue
    w = f"/tmp/plant-{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.sh", "w").write(SH)
    open(f"{d}/demo.py", "w").write(PRE + b["demo"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = run(f"bash {d}/demo.sh", w, timeout=300)
    bad = None
    for f, old, new in b["edits"]:
        p = f"{w}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            bad = f"{s.count(old)} matches of {old!r} in {f}"
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(i, "BAD EDIT", bad)
        shutil.rmtree(d)
        shutil.rmtree(w)
        continue
    open(f"{d}/patch.diff", "w").write(run("git diff", w).stdout)
    r1 = run(f"bash {d}/demo.sh", w, timeout=300)
    ok = r0.returncode == 0 and r1.returncode != 0
    if not ok:
        print(i, "DEMO", r0.returncode, r0.stdout[-600:], r0.stderr[-600:], "/", r1.returncode)
    tests = "not run"
    if ok and os.environ.get("TESTS"):
        s = open("/opt/vp/test.sh").read().replace("/repo", w)
        open(f"{w}.sh", "w").write(s)
        run(f"bash {w}.sh {w}.json", w)
        os.remove(f"{w}.sh")
        res = json.load(open(f"{w}.json"))
        os.remove(f"{w}.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("passed") or base.get("tests")
        passed = set(res.get("passed", []))
        fail = [n for n in names if n not in passed]
        tests = f"{len(fail)} stable tests fail {fail[:4]}"
        ok = not fail
    print(i, "OK" if ok else "REJECTED", tests, "| last demo line:", (r1.stdout + r1.stderr).strip().splitlines()[-1:], flush=True)
    if not ok:
        shutil.rmtree(d)
    elif os.environ.get("CHECK", "1") == "1":
        e = dict(os.environ, PYVC_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["/opt/venv/bin/python", "run.py", b["property"]], cwd=V, env=e, capture_output=True, text=True)
        print("   check", b["property"], r.returncode, [x for x in r.stdout.splitlines() if "VIOLATION" in x or "UTED" in x or "UNDEC" in x][:2],
              [x for x in r.stdout.splitlines() if "VIOLATION" in x], flush=True)
    shutil.rmtree(w)
