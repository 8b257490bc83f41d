"""Write checks/degrees.json: [class, cell, order, arguments, seconds] for the containment checks of P02."""
import json
import signal
import sys
import time
from multiprocessing import Pool

sys.path.insert(0, "/verif")
from pyvc import env  # noqa: E402, F401
from checks import E01, P02  # noqa: E402


class Out(Exception):
    pass


def stop(*a):
    raise Out()


def one(t):
    name, cell, kw = t
    signal.signal(signal.SIGALRM, stop)
    rows = []
    for o in E01.orders(E01.find(name, cell), cell, 9):
        t0 = time.time()
        try:
            signal.alarm(100)
            ok, why = P02.run_space(name, cell, o, kw)
        except Out:
            break
        except Exception as ex:
            print("EX", name, cell, o, kw, repr(ex)[:80], flush=True)
            continue
        finally:
            signal.alarm(0)
        if not ok:
            print("BAD", name, cell, o, kw, why, flush=True)
        rows.append([name, cell, o, kw, round(time.time() - t0, 2)])
        if rows[-1][4] > 30:
            break
    return rows


tasks = [t for t in E01.variants() if t[2].get("variant") in (None, "equispaced", "legendre", "point", "integral", "lobatto")]
tasks += [("ReggeTP", c, {"variant": "integral"}) for c in ("quadrilateral", "hexahedron")]
out = []
with Pool(6) as p:
    for r in p.imap_unordered(one, tasks, chunksize=1):
        out += r
out.sort(key=str)
with open("/verif/checks/degrees.json", "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(r) for r in out) + "\n]\n")
