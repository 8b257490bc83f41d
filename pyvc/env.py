"""Process set-up shared by every entry point (import this first)."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)  # z3 only: /opt/venv's own packages come first

if "PYVC_SCRATCH" not in os.environ:
    _d = tempfile.mkdtemp(prefix="pyvc-")
    os.environ["PYVC_SCRATCH"] = _d
    _pid = os.getpid()

    def _clean():
        if os.getpid() == _pid:
            shutil.rmtree(_d, ignore_errors=True)

    atexit.register(_clean)
SCRATCH = os.environ["PYVC_SCRATCH"]
# importing symfem creates its cache folder: keep that inside the scratch folder
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "cache")
os.makedirs(os.environ["XDG_CACHE_HOME"], exist_ok=True)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
