"""python run.py PROPERTY: verifies one property on /repo's working tree."""
import sys

from pyvc import env  # noqa: F401

sys.path.insert(0, env.VERIF)
sys.setrecursionlimit(20000)
from pyvc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1]))
