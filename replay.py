"""python replay.py FILE: runs a recorded case on the original code (no instrumentation).

Exit 1: the case violates the property; 0: it does not; 2: it could not be run.
"""
import importlib
import json
import sys
import traceback

from pyvc import env  # noqa: F401

sys.path.insert(0, env.VERIF)

if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        data = json.load(f)
    if "case" not in data:
        print("no input recorded: the file names the failed obligations")
        sys.exit(2)
    mod = importlib.import_module(f"checks.{data['property']}")
    try:
        bad, text = mod.replay(data["case"])
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    print(text)
    sys.exit(1 if bad else 0)
