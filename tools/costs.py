"""Measure checks/costs.json: seconds to build (no matrix cache), to evaluate the duality of, and to compare the span of each registered element."""
import json
import re
import signal
import sys
import time
from multiprocessing import Pool

sys.path.insert(0, "/verif")
from pyvc import env  # noqa: E402, F401


class Out(Exception):
    pass


def stop(*a):
    raise Out()


def one(task):
    from checks import E01

    name, cell, kw, limit = task
    rows = []
    signal.signal(signal.SIGALRM, stop)
    for order in E01.orders(E01.find(name, cell), cell, 9):
        try:
            signal.alarm(limit)
            t0 = time.time()
            fs = E01.made(name, cell, order, kw).get_basis_functions()
            t1 = time.time()
            n = len(fs)
            if not hasattr(E01.made(name, cell, order, kw), "dofs"):
                rows.append([cell, name, order, kw, n, round(t1 - t0, 2), 0, 0])
                continue
            signal.alarm(limit)
            ok, why, pair = E01.run_real(name, cell, order, kw, min(1, 60 / n**2))
            t2 = time.time()
            d = (t2 - t1) / min(1, 60 / n**2)
            signal.alarm(limit)
            ok2, why2 = E01.run_space(name, cell, order, kw)
            t3 = time.time()
            rows.append([cell, name, order, kw, n, round(t1 - t0, 2), round(d, 2), round(t3 - t2, 2)])
            if not (ok and ok2):
                print("BAD", rows[-1], why, why2, flush=True)
        except Out:
            print("slow", name, cell, order, kw, flush=True)
            break
        except Exception as ex:
            signal.alarm(0)
            print("exc", name, cell, order, kw, repr(ex)[:80], flush=True)
            if order > 3:
                break
        finally:
            signal.alarm(0)
    return rows


if __name__ == "__main__":
    from checks import E01

    tasks = [(c, cell, kw, 20) for c, cell, kw in E01.variants() if len(sys.argv) < 2 or re.search(sys.argv[1], f"{c}/{cell}")]
    out = []
    if len(sys.argv) > 1:  # merge
        out = [r for r in json.load(open("/verif/checks/costs.json")) if not re.search(sys.argv[1], f"{r[1]}/{r[0]}")]
    with Pool(5, maxtasksperchild=1) as p:
        for r in p.imap_unordered(one, tasks, chunksize=1):
            out += r
            out.sort(key=lambda r: (r[0], r[1], str(r[3]), r[2]))
            with open("/verif/checks/costs.json", "w") as f:
                f.write("[" + ",\n".join(json.dumps(r) for r in out) + "]\n")
