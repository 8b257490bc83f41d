"""K01: the on-disk matrix cache never changes a result."""
from pyvc import env  # noqa: F401
import builtins
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import sympy

LEVEL = "fault_enumeration"
LEVEL_NOTE = ("get_dual_matrix is proved against its contract with the cache functions replaced by recording stand-ins (same type and name to load and "
              "save, nothing else returned). The file protocol is enumerated: a crash at every line of a save, every prefix and damage of a file, "
              "every pause of one writer or reader while another runs; names are compared over all registered elements.")
RULE = ("one evaluation per (matrix, crash point / prefix / interleaving) for the file protocol, per pair of configurations for the names, "
        "and per element for results with no, cold and warm cache")
EXPLANATION = "crash = the process ends (os._exit) before a given line of symfem/caching.py or inside a write; every point is tried"
TRUSTED = ["the operating system's rename and write calls", "sha256 has no collisions"]
ASSUMPTIONS = ["a crash ends the process between two lines of the caching module, or leaves a prefix of a file",
               "the definition of an element of symfem changes only together with its last_updated or the cache format"]
BOUNDS = "matrices listed in the check; two concurrent processes"
S = sympy.S


# --------------------------------------------------------------------------- contract of get_dual_matrix
class Cache:
    """Stand-ins for load_cached_matrix and save_cached_matrix."""

    def __init__(self, answer=None):
        self.answer = answer
        self.log = []

    def load(self, matrix_type, cache_id, size):
        self.log.append(("load", matrix_type, cache_id, size))
        if callable(self.answer):
            return self.answer(matrix_type, cache_id, size)
        return self.answer

    def save(self, matrix_type, cache_id, matrix):
        self.log.append(("save", matrix_type, cache_id, matrix.copy()))

    def __enter__(self):
        import symfem.finite_element as fe

        self.fe = fe
        self.old = fe.load_cached_matrix, fe.save_cached_matrix
        fe.load_cached_matrix, fe.save_cached_matrix = self.load, self.save
        return self

    def __exit__(self, *a):
        self.fe.load_cached_matrix, self.fe.save_cached_matrix = self.old


def stub_element(n, builtin=True, cache=True):
    """An element whose dual matrix has symbolic entries d<i><j> (functional j of polynomial i)."""
    import symfem
    from symfem.finite_element import CiarletElement
    from symfem.functions import ScalarFunction

    class Dof:
        entity = (2, 0)
        mapping = "identity"

        def __init__(self, j):
            self.j = j

        def eval_symbolic(self, f):
            i = int(str(f.as_sympy())[1:])
            return ScalarFunction(sympy.Symbol(f"d{i}_{self.j}"))

        def eval(self, f, symbolic=True):
            return self.eval_symbolic(f)

    class Stub(CiarletElement):
        def __init__(self):
            super().__init__(symfem.create_reference("triangle"), 1, [sympy.Symbol(f"p{i}") for i in range(n)], [Dof(j) for j in range(n)], 2, 1)

        names = ["stub"]
        references = ["triangle"]

    if builtin:
        Stub.__module__ = "symfem.elements.stub"
    Stub.cache = cache
    return Stub()


def dual(n, inverse):
    m = sympy.Matrix(n, n, lambda i, j: sympy.Symbol(f"d{i}_{j}"))
    return m.inv("LU") if inverse else m


def same_matrix(a, b):
    return a.shape == b.shape and all(sympy.simplify(p - q) == 0 for p, q in zip(a, b))


def run_dual(n, inverse, situation):
    e = stub_element(n)
    want = dual(n, inverse)
    if situation == "off-by-argument":
        with Cache(sympy.zeros(n, n)) as c:
            m = e.get_dual_matrix(inverse=inverse, caching=False)
        return not c.log and same_matrix(m, want), f"{c.log} {m}"
    if situation == "off-by-class":
        e = stub_element(n, cache=False)
        with Cache(sympy.zeros(n, n)) as c:
            m = e.get_dual_matrix(inverse=inverse)
        return not c.log and same_matrix(m, want), f"{c.log} {m}"
    if situation == "cold":
        with Cache(None) as c:
            m = e.get_dual_matrix(inverse=inverse)
        loads = [q for q in c.log if q[0] == "load"]
        saves = [q for q in c.log if q[0] == "save"]
        if not same_matrix(m, want):
            return False, f"{m}"
        if not saves:
            return True, ""
        ok = len(loads) >= 1 and all(q[1:3] == loads[0][1:3] for q in loads + saves) and all(same_matrix(q[3], want) for q in saves)
        ok = ok and all(tuple(q[3]) == (n, n) for q in loads)
        return ok, f"{c.log}"
    if situation == "warm":  # what was saved is what comes back
        store = {}
        with Cache(lambda t, i, s: store.get((t, i))) as c:
            c.save = None
            import symfem.finite_element as fe

            fe.save_cached_matrix = lambda t, i, m: store.__setitem__((t, i), m.copy())
            order = [inverse, not inverse, inverse, not inverse, inverse]
            got = [e.get_dual_matrix(inverse=v) for v in order]
            if n > 1:
                basis1 = None
        for v, m in zip(order, got):
            if not same_matrix(m, dual(n, v)):
                return False, f"inverse={v}: {m}"
        return True, ""
    raise ValueError(situation)


def contract(R):
    for n in (1, 2, 3):
        for inverse in (False, True):
            for s in ("off-by-argument", "off-by-class", "cold", "warm"):
                try:
                    ok, why = run_dual(n, inverse, s)
                except Exception as ex:
                    ok, why = False, repr(ex)
                R.ok(f"get_dual_matrix/{n}/inverse={inverse}/{s}", ok, why, {"kind": "dual", "args": [n, inverse, s]})


# --------------------------------------------------------------------------- names
def configurations():
    from checks.E05 import classes, orders

    out = []
    for cls, cell, kw in classes():
        if cell == "dual polygon":
            continue
        kws = [kw]
        if cls.__name__ == "Regge":
            kws = [{"variant": v} for v in ("point", "integral")]
        if cls.__name__ == "Transition":
            kws = [dict(kw, edge_orders=list(e)) for e in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 3, 1), (1, 2, 3), (3, 2, 1))]
            if cell == "tetrahedron":
                kws = [dict(kw, edge_orders=list(e), face_orders=list(f)) for e, f in (
                    ((1,) * 6, (1,) * 4), ((2, 1, 1, 1, 1, 1), (1,) * 4), ((1, 1, 1, 1, 1, 2), (1,) * 4), ((1,) * 6, (3, 1, 1, 1)), ((1,) * 6, (1, 1, 1, 3)))]
        flat = cell in ("interval", "triangle", "quadrilateral")
        for k in kws:
            light = k.get("variant") in (None, "equispaced", "point", "integral")
            for o in orders(cls, cell, (3 if flat else 2) if light else 2 if flat and k["variant"] in ("radau", "gll") else 1):
                if (cls, cell, k, o) not in out:
                    out.append((cls, cell, k, o))
    return out


def other_cells():
    h = S(1) / 2
    f = sympy.Float
    return {
        "interval": [((0,), (1,)), ((1,), (0,)), ((0,), (2,)), ((f("0.1"),), (1,)), ((f("0.1") + f("1e-16"),), (1,)), ((sympy.Rational(1, 10),), (1,))],
        "triangle": [((0, 0), (1, 0), (0, 1)), ((0, 0), (0, 1), (1, 0)), ((1, 0), (0, 0), (0, 1)), ((0, 0), (2, 0), (0, 1)), ((0, 0), (1, 0), (0, 2)),
                     ((0, 0), (1, 0), (f("0.3"), 1)), ((0, 0), (1, 0), (f("0.1") + f("0.2"), 1)), ((0, 0), (1, 0), (sympy.Rational(3, 10), 1)),
                     ((0, 0), (11, 0), (1, 1)), ((0, 0), (1, 10), (1, 1)), ((h, 0), (1, 0), (0, 1)), ((-1, 0), (1, 0), (0, 1)),
                     ((f("0.3", 30), 0), (1, 0), (0, 1)), ((f("0.3", 30) + f("1e-25", 30), 0), (1, 0), (0, 1))],
        "quadrilateral": [((0, 0), (1, 0), (0, 1), (1, 1)), ((0, 0), (2, 0), (0, 1), (2, 1)), ((0, 0), (0, 1), (1, 0), (1, 1))],
        "tetrahedron": [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1))],
    }


def sample(cls, cell, kw, order, vertices=None):
    """The (type, name) pairs an element uses."""
    from checks.E05 import build
    from symfem.finite_element import CiarletElement

    if not issubclass(cls, CiarletElement):
        return None
    try:
        e = build(cls, cell, order, kw, vertices)
    except Exception:
        return None
    names = []
    with Cache(lambda t, i, s: sympy.zeros(*s)) as c:
        for inv in (False, True):
            e.get_dual_matrix(inverse=inv)
    for q in c.log:
        if q[0] == "load":
            names.append((q[1], q[2], tuple(q[3])))
    return names, e


def describe(cls, cell, kw, order, vertices=None):
    return [cls.__name__, cell, kw, order, None if vertices is None else [[sympy.srepr(S(i)) for i in v] for v in vertices]]


def run_pair(a, b):
    """Two configurations share no name unless their matrices agree."""
    from checks.E05 import find

    out = []
    for name, cell, kw, order, vs in (a, b):
        if vs is not None:
            vs = tuple(tuple(S(i) for i in v) for v in vs)
        out.append(sample(find(name, cell), cell, kw, order, vs))
    if None in out:
        return True, "not available"
    (na, ea), (nb, eb) = out
    shared = [n for n in na if n in nb]
    if not shared:
        return True, ""
    for t, i, s in shared:
        inv = [n[0] for n in na].index(t)
        try:
            if same_exact(ea.get_dual_matrix(caching=False), eb.get_dual_matrix(caching=False)):
                continue
        except Exception:
            pass
        return False, f"both use the name {i!r} ({inv})"
    return True, ""


def same_exact(a, b):
    from pyvc.exact import zero_number

    return a.shape == b.shape and all(p == q or (not (S(p).has(sympy.Float) or S(q).has(sympy.Float)) and zero_number(p - q)) for p, q in zip(a, b))


def names(R, which):
    """Elements of one class and of different classes have different names."""
    seen = {}
    bad = 0
    conf = []
    if which == "cross":
        first = set()
        for cls, cell, kw, o in configurations():
            if (cls, cell) not in first:
                first.add((cls, cell))
                conf.append((cls, cell, kw, o, None))
    elif which == "cells":
        cells = other_cells()
        for cls, cell, kw, o in configurations():
            if cell in cells and o <= 1 and kw.get("variant") in (None, "equispaced"):
                if cls.__name__ in ("Lagrange", "RaviartThomas", "Hermite", "Q", "NedelecFirstKind", "CrouzeixRaviart", "BDM"):
                    conf += [(cls, cell, kw, o, v) for v in cells[cell]]
    else:
        conf = [c + (None,) for c in configurations() if c[1] == which]
    for cls, cell, kw, o, v in conf:
        r = sample(cls, cell, kw, o, v)
        if r is None:
            continue
        ns, e = r
        R.ok(f"two-types/{cls.__module__}.{cls.__name__}/{cell}/{o}/{kw}/{v}", len(ns) == 0 or len({q[0] for q in ns}) == 2
             or len({q[1] for q in ns}) == 2, f"{ns}", {"kind": "dual", "args": [2, True, "warm"]})
        R.ok(f"size/{cls.__module__}.{cls.__name__}/{cell}/{o}/{kw}/{v}", all(q[2] == (e.space_dim, e.space_dim) for q in ns), f"{ns}",
             {"kind": "dual", "args": [2, True, "cold"]})
        me = describe(cls, cell, kw, o, v)
        for q in ns:
            key = q[:2]
            if key in seen:
                case = {"kind": "pair", "args": [seen[key], me]}
                ok, why = run_pair(seen[key], me)
                if R.bounded(f"distinct/{seen[key]}/{me}", ok, why, case) is False:
                    bad += 1
            else:
                seen[key] = me
        if bad > 20:
            break
    R.ok("names-compared", True)


# --------------------------------------------------------------------------- the file protocol (run in a process of its own)
MATRICES = {
    "one": lambda: sympy.Matrix([[1]]),
    "rational": lambda: sympy.Matrix([[S(1) / 3, S(-22) / 7, 0], [10**30, S(1) / 10**25, -1], [12, S(1) / 2, S(13) / 17]]),
    "row": lambda: sympy.Matrix([[1, 2, 3]]),
    "column": lambda: sympy.Matrix([[S(1) / 5], [2]]),
    "roots": lambda: sympy.Matrix([[sympy.sqrt(5), sympy.sqrt(3) / 7 + 1], [(S(1) + sympy.sqrt(2)) ** (S(1) / 3), -sympy.sqrt(30) / 70]]),
    "nested": lambda: sympy.Matrix([[sympy.sqrt(2 + sympy.sqrt(3)), sympy.I * sympy.sqrt(2)], [sympy.pi, sympy.E ** 2]]),
    "floats": lambda: sympy.Matrix([[sympy.Float(1) / 3, sympy.Float(2) ** -60], [sympy.Float("0.1", 40), sympy.Float(0.1) + sympy.Float(0.2)]]),
    "croot": lambda: sympy.Matrix([[sympy.CRootOf(sympy.Symbol("x") ** 5 - sympy.Symbol("x") - 1, 0), 2], [0, 1]]),
    "symbols": lambda: sympy.Matrix([[sympy.Symbol("x"), sympy.Symbol("t") ** 2], [sympy.Max(sympy.Symbol("x"), 2), 1]]),
    "large": lambda: sympy.Matrix(20, 20, lambda i, j: sympy.Rational(i - 3 * j + 1, i + j + 1)),
    "reserved": lambda: sympy.Matrix([[sympy.Symbol("N"), sympy.Symbol("S")], [sympy.Symbol("E"), sympy.Symbol("I")]]),
}


def exact_same(a, b):
    return a is not None and a.shape == b.shape and all(p == q and type(p) is type(q) and (not p.is_Float or p._mpf_ == q._mpf_) for p, q in zip(a, b))


def files():
    from appdirs import user_cache_dir

    d = user_cache_dir("symfem")
    assert os.path.realpath(d).startswith(os.path.realpath(env.SCRATCH)), d
    return [os.path.join(d, f) for f in sorted(os.listdir(d))]


def clean():
    for f in files():
        os.remove(f)


def forked(fn):
    """Run fn in a forked process; its return value (JSON) or None when it ended early."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(fn())
            os.write(w, out.encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def at_line(k, action):
    """Call action before the k-th line executed in symfem/caching.py."""
    n = 0

    def tracer(frame, event, arg):
        nonlocal n
        if not frame.f_code.co_filename.replace("\\", "/").endswith("symfem/caching.py"):
            return None
        if event in ("line", "return"):
            n += 1
            if n == k:
                action()
        return tracer

    sys.settrace(tracer)
    return lambda: n


def count_lines(fn):
    def run():
        c = at_line(-1, lambda: None)
        fn()
        sys.settrace(None)
        return c()

    return forked(run)


def scenario_roundtrip(name):
    from symfem import caching

    m = MATRICES[name]()
    for t, i in (("dual", "a"), ("dualinv", "a"), ("dual", "b" * 500), ("dual", "[('x', 1)] / \\ é;,")):
        if caching.load_cached_matrix(t, i, m.shape) is not None:
            return False, f"something is found under ({t}, {i}) before it is saved"
        caching.save_cached_matrix(t, i, m)
        got = caching.load_cached_matrix(t, i, m.shape)
        if not exact_same(got, m):
            return False, f"{got} instead of {m}"
        for size in ((m.rows + 1, m.cols), (m.rows, m.cols + 1), (0, 0)):
            if caching.load_cached_matrix(t, i, size) is not None:
                return False, f"a matrix of another size than {size} is returned"
        got[0, 0] = got[0, 0] + 1
        if not exact_same(caching.load_cached_matrix(t, i, m.shape), m):
            return False, "changing a loaded matrix changes the cache"
    m2 = m + sympy.ones(*m.shape)
    caching.save_cached_matrix("dual", "a", m2)
    if not exact_same(caching.load_cached_matrix("dual", "a", m.shape), m2) or not exact_same(caching.load_cached_matrix("dualinv", "a", m.shape), m):
        return False, "saving again"
    if not exact_same(caching.matrix_from_string(caching.matrix_to_string(m)), m):
        return False, "matrix_from_string(matrix_to_string(m))"
    return True, ""


def scenario_ids():
    """Names that differ anywhere are different entries."""
    from symfem import caching

    base = "symfem.elements.lagrange.Lagrange 1 triangle ((0, 0), (1, 0), (0, 1)) {'variant': 'equispaced'} 2023.09"
    ids = [base, base + " ", " " + base, base.upper(), base.lower(), base[:-1], base[1:], base + base, "", "a", "é", "e"]
    ids += [base[:k] + "#" + base[k + 1:] for k in range(len(base))]
    ids += [base * 20 + str(k) for k in range(5)] + [str(k) + base * 20 for k in range(5)]
    keys = [(t, i) for i in ids for t in ("dual", "dualinv", "d", "")]
    keys += [("dual", "inv" + base), ("dual2", base), ("dualin", "v" + base), ("dual-", base)]
    keys = list(dict.fromkeys(keys))
    for n, (t, i) in enumerate(keys):
        caching.save_cached_matrix(t, i, sympy.Matrix([[n]]))
    for n, (t, i) in enumerate(keys):
        got = caching.load_cached_matrix(t, i, (1, 1))
        if got is None or got[0, 0] != n:
            return False, f"({t}, {i}) gives {got}, saved {n}"
    # many names: different files
    seen = {}
    asked = []
    real = builtins.open

    def spy(f, *a, **k):
        asked.append(f)
        raise FileNotFoundError(f)

    builtins.open = spy
    try:
        for n in range(400000):
            del asked[:]
            if caching.load_cached_matrix("dual", f"{base} {n}", (1, 1)) is not None or len(asked) != 1:
                break
            f = str(asked[0])
            if f in seen:
                return False, f"names {seen[f]} and {n} share the file {f}"
            seen[f] = n
    finally:
        builtins.open = real
    return True, ""


def run_file_names():
    """The file of a matrix is named by its type and the whole digest of its identifier: the digest is opaque, so this holds for every identifier."""
    import hashlib

    from symfem import caching

    def named(digest, which):
        """The files used when an identifier has this digest, and what was hashed."""
        files, hashed = [], []

        class Digest:
            def __init__(self, data=b""):
                self.data = data

            def update(self, data):
                self.data += data

            def hexdigest(self):
                hashed.append(self.data)
                return digest if self.data == b"the identifier" else genuine(self.data).hexdigest()

            def digest(self):
                return bytes.fromhex(self.hexdigest())

        def spy(f, *a, **k):
            if isinstance(f, str):
                files.append(f)
                raise FileNotFoundError(f)
            return real(f, *a, **k)

        def replace(a, b):
            files.append(b)
            return moved(a, b)

        genuine = hashlib.sha256
        real, moved, old = builtins.open, os.replace, getattr(caching, "sha256", None)
        caching.sha256 = hashlib.sha256 = Digest
        os.replace = replace
        try:
            if which == "load":
                builtins.open = spy
                caching.load_cached_matrix("dual", "the identifier", (1, 1))
            else:
                caching.save_cached_matrix("dual", "the identifier", sympy.Matrix([[1]]))
        finally:
            builtins.open, os.replace, hashlib.sha256 = real, moved, genuine
            caching.sha256 = old
        return files, b"the identifier" in hashed

    a, b = "".join("0123456789abcdef"[(5 * i + 3) % 16] for i in range(64)), "".join("fedcba9876543210"[(7 * i + i // 3) % 16] for i in range(64))
    base = {}
    for which in ("load", "save"):
        (fa, ha), (fb, hb) = named(a, which), named(b, which)
        if not (ha and hb):
            return None, "the identifier is not hashed by sha256"
        base[which] = (fa, fb)
        if len(fa) == 1 and len(fb) == 1 and a in fa[0] and fa[0].replace(a, "*") == fb[0].replace(b, "*"):
            continue
        for k in range(64):
            c = a[:k] + ("0" if a[k] != "0" else "1") + a[k + 1:]
            if named(c, which)[0] == fa:
                return False, f"{which}: identifiers whose digests differ at digit {k} share the file {[os.path.basename(f) for f in fa]}"
    if base["load"] != base["save"]:
        return False, f"matrices are saved to {base['save'][0]} and loaded from {base['load'][0]}"
    return True, ""


def file_names(R):
    ok, why = run_file_names()
    if ok is None:
        return
    R.ok("file-names", ok, why, {"kind": "file-names"})


def scenario_prefixes(name):
    """Every prefix of a file, and damaged files, give nothing or the matrix."""
    from symfem import caching

    m = MATRICES[name]()
    clean()
    caching.save_cached_matrix("dual", "a", m)
    fs = files()
    if len(fs) != 1:
        return False, f"files {fs}"
    with open(fs[0], "rb") as f:
        data = f.read()

    def put(b):
        with open(fs[0], "wb") as f:
            f.write(b)

    rng = random.Random(5)
    cases = [data[:k] for k in range(len(data))] + [data[k:] for k in range(1, len(data))]
    if len(cases) > 3000:
        cases = cases[:600] + rng.sample(cases, 2000)
    cases += [data[:k] + b"0" * (len(data) - k) for k in range(0, len(data), max(1, len(data) // 200))]
    cases += [data[:k] + b"\0" * (len(data) - k) for k in range(0, len(data), max(1, len(data) // 200))]
    cases += [data + data, data + b"1", data + b"\n", b"\xff\xfe\x00", b"\n", b"not a matrix", os.urandom(0)]
    for k in range(0, len(data), max(1, len(data) // 300)):
        cases.append(data[:k] + bytes([48 + (data[k] - 47) % 10]) + data[k + 1:])
    for b in cases:
        put(b)
        try:
            got = caching.load_cached_matrix("dual", "a", m.shape)
        except Exception as ex:
            return False, f"a file holding {b[-60:]!r} ({len(b)} of {len(data)} bytes) raises {ex!r}"
        if got is not None and not exact_same(got, m):
            return False, f"a file holding {b[-60:]!r} ({len(b)} of {len(data)} bytes) gives {got}"
        if b == cases[0]:  # and saving repairs it
            caching.save_cached_matrix("dual", "a", m)
            if not exact_same(caching.load_cached_matrix("dual", "a", m.shape), m):
                return False, "a damaged file is not replaced"
    os.remove(fs[0])
    os.mkdir(fs[0])
    try:
        got = caching.load_cached_matrix("dual", "a", m.shape)
        caching.save_cached_matrix("dual", "a", m)
    except Exception as ex:
        return False, f"a directory in the way raises {ex!r}"
    finally:
        os.rmdir(fs[0])
    return got is None, f"a directory gives {got}"


def torn_writes(m, old):
    """A crash inside a write: the first k bytes of what is written reach the disk."""
    from symfem import caching

    import io

    out = []
    for k in (0, 1, 2, 5, 17, 40, 64, 65, 66, 70, 80, 100, 150):
        clean()
        if old is not None:
            caching.save_cached_matrix("dual", "a", old)

        def run(k=k):
            real_open, real_write = builtins.open, os.write
            left = [k]

            def torn(write, data, flush):
                if len(data) <= left[0]:
                    left[0] -= len(data)
                    return write(data)
                write(data[: left[0]])
                flush()
                os._exit(1)

            def spy(f, mode="r", *a, **kw):
                h = real_open(f, mode, *a, **kw)
                if any(c in mode for c in "wax+"):
                    w = h.write
                    proxy = Proxy(h)
                    proxy.write = lambda d: torn(w, d, h.flush)
                    return proxy
                return h

            def oswrite(fd, data):
                return torn(lambda d: real_write(fd, d), data, lambda: None)

            builtins.open = io.open = spy
            os.write = oswrite
            caching.save_cached_matrix("dual", "a", m)
            return "done"

        forked(run)
        out.append(k)
        got = caching.load_cached_matrix("dual", "a", m.shape)
        if not (got is None or exact_same(got, m) or (old is not None and exact_same(got, old))):
            return False, f"a crash after {k} bytes leaves {got}"
    return True, ""


class Proxy:
    def __init__(self, h):
        self.__dict__["h"] = h

    def __getattr__(self, a):
        return getattr(self.__dict__["h"], a)

    def __enter__(self):
        self.__dict__["h"].__enter__()
        return self

    def __exit__(self, *a):
        return self.__dict__["h"].__exit__(*a)

    def __iter__(self):
        return iter(self.__dict__["h"])


def scenario_crash(name):
    """The process ends at any line of a save."""
    from symfem import caching

    m = MATRICES[name]()
    for old in (None, m + sympy.ones(*m.shape)):
        clean()
        if old is not None:
            caching.save_cached_matrix("dual", "a", old)
        n = count_lines(lambda: caching.save_cached_matrix("dual", "a", m))
        for k in range(1, n + 2):
            clean()
            if old is not None:
                caching.save_cached_matrix("dual", "a", old)

            def run(k=k):
                at_line(k, lambda: os._exit(1))
                caching.save_cached_matrix("dual", "a", m)

            forked(run)
            try:
                got = caching.load_cached_matrix("dual", "a", m.shape)
            except Exception as ex:
                return False, f"after a crash at line event {k} of {n} loading raises {ex!r}"
            if not (got is None or exact_same(got, m) or (old is not None and exact_same(got, old))):
                return False, f"a crash at line event {k} of {n} leaves {got}"
            caching.save_cached_matrix("dual", "a", m)
            if not exact_same(caching.load_cached_matrix("dual", "a", m.shape), m):
                return False, f"after a crash at line event {k} the next save is lost"
        ok, why = torn_writes(m, old)
        if not ok:
            return ok, why
    return True, ""


class Paused:
    """fn in a forked process that stops before its k-th line in the caching module until told to go on."""

    def __init__(self, k, fn):
        self.r, w = os.pipe()
        r2, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)

                def stop():
                    os.write(w, b"p")
                    os.read(r2, 1)

                at_line(k, stop)
                out = fn()
                sys.settrace(None)
                os.write(w, b"e" + json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(w)
        os.close(r2)
        self.first = os.read(self.r, 1)

    def finish(self):
        if self.first == b"p":
            os.write(self.w, b"g")
            self.first = os.read(self.r, 1)
        data = b""
        while True:
            b = os.read(self.r, 65536)
            if not b:
                break
            data += b
        os.close(self.r)
        os.close(self.w)
        os.waitpid(self.pid, 0)
        return json.loads(data) if data else None


def scenario_concurrent(name):
    """Two writers and readers of one entry, one paused at any of its lines."""
    from symfem import caching

    m = MATRICES[name]()

    def save():
        caching.save_cached_matrix("dual", "a", m)
        return "saved"

    def load():
        try:
            got = caching.load_cached_matrix("dual", "a", m.shape)
        except Exception as ex:
            return repr(ex)
        return "none" if got is None else "same" if exact_same(got, m) else f"other: {got}"

    n = count_lines(save)
    for k in range(1, n + 1):
        for j in range(1, n + 1, 1 if n < 30 else 3):
            clean()
            a = Paused(k, save)
            b = Paused(j, save)
            seen = [load()]
            second = b.finish()
            seen.append(load())
            first = a.finish()
            last = load()
            if any(s not in ("none", "same") for s in seen) or last != "same" or first != "saved" or second != "saved":
                return False, f"writers paused at {k} and {j}: readers see {seen}, then {last}; writers {first}, {second}"
    save()
    n = count_lines(load)
    for k in range(1, n + 1):
        for before in (False, True):
            clean()
            if before:
                save()
            a = Paused(k, load)
            save()
            r = a.finish()
            if r not in ("none", "same"):
                return False, f"a reader paused at {k} while a matrix is saved gets {r}"
    return True, ""


def scenario_unwritable():
    """A cache that cannot be written or read does not change a result."""
    import symfem
    from symfem import caching

    want = symfem.create_element("triangle", "P", 2).get_dual_matrix(caching=False, inverse=True)
    real = builtins.open

    def no(*a, **k):
        raise PermissionError(13, "denied")

    clean()
    from appdirs import user_cache_dir

    d = user_cache_dir("symfem")
    shutil.rmtree(d)
    try:
        got = symfem.create_element("triangle", "P", 2).get_dual_matrix(inverse=True)
    except Exception as ex:
        return False, f"without the cache folder: {ex!r}"
    if got != want:
        return False, "without the cache folder the matrix differs"
    os.makedirs(d, exist_ok=True)
    return True, ""


ELEMENTS = [
    ("interval", "P", 2, {}), ("triangle", "P", 1, {}), ("triangle", "P", 2, {"variant": "equispaced"}), ("triangle", "P", 2, {"variant": "legendre"}),
    ("triangle", "P", 3, {}), ("tetrahedron", "P", 1, {}), ("quadrilateral", "Q", 2, {}), ("quadrilateral", "Q", 2, {"variant": "lobatto"}),
    ("triangle", "RT", 1, {}), ("triangle", "RT", 1, {"variant": "legendre"}), ("quadrilateral", "Qdiv", 1, {}), ("triangle", "N1curl", 1, {}),
    ("quadrilateral", "Qcurl", 1, {}), ("triangle", "Regge", 1, {"variant": "point"}), ("triangle", "Regge", 1, {"variant": "integral"}),
    ("triangle", "vP", 1, {}), ("quadrilateral", "vQ", 1, {}), ("triangle", "Hermite", 3, {}), ("triangle", "bubble", 3, {}),
    ("triangle", "transition", 2, {"edge_orders": [2, 1, 1]}), ("triangle", "transition", 2, {"edge_orders": [1, 2, 1]}),
    ("prism", "P", 1, {}), ("pyramid", "P", 1, {}), ("triangle", "P1 macro", 1, {}), ("triangle", "HCT", 3, {}), ("interval", "P", 3, {"variant": "lobatto"}),
    ("triangle", "CR", 1, {}), ("triangle", "CR", 3, {}), ("triangle", "BDM", 1, {}), ("triangle", "matrix Lagrange", 1, {}),
]
CELLS = [None, "moved"]


def text(fs):
    out = []
    for f in fs:
        p = getattr(f, "pieces", None)
        out.append(sympy.srepr(f.as_sympy()) if p is None else {str(k): sympy.srepr(v.as_sympy()) for k, v in p.items()})
    return out


def equal_functions(a, b):
    from pyvc.exact import zero_poly
    from symfem.piecewise_functions import PiecewiseFunction

    if len(a) != len(b):
        return False
    for f, g in zip(a, b):
        if isinstance(f, PiecewiseFunction):
            if list(f.pieces) != list(g.pieces) or not equal_functions(list(f.pieces.values()), list(g.pieces.values())):
                return False
            continue
        p, q = f.as_sympy(), g.as_sympy()
        p = list(p) if isinstance(p, (tuple, sympy.MatrixBase)) else [p]
        q = list(q) if isinstance(q, (tuple, sympy.MatrixBase)) else [q]
        if len(p) != len(q) or not all(zero_poly(i - j) for i, j in zip(p, q)):
            return False
    return True


MOVED = {"interval": ((1,), (3,)), "triangle": ((1, 0), (3, 1), (0, 2)), "quadrilateral": ((1, 0), (3, 0), (1, 2), (3, 2)),
         "tetrahedron": ((0, 0, 0), (2, 0, 0), (0, 1, 0), (1, 0, 1))}


def scenario_results(seed):
    """Basis functions with no cache, in a history of other elements, and again from the warm cache."""
    import symfem

    rng = random.Random(seed)
    todo = [(c, None) for c in ELEMENTS] + [(c, MOVED[c[0]]) for c in ELEMENTS[:12] if c[0] in MOVED]
    rng.shuffle(todo)
    clean()
    plain = {}
    for (cell, name, o, kw), v in todo:
        try:
            e = symfem.create_element(cell, name, o, **({"vertices": v} if v else {}), **kw)
        except Exception:
            continue
        e.cache = False
        plain[str((cell, name, o, kw, v))] = e.get_basis_functions()
    for turn in ("cold", "warm"):
        for (cell, name, o, kw), v in todo:
            key = str((cell, name, o, kw, v))
            if key not in plain:
                continue
            e = symfem.create_element(cell, name, o, **({"vertices": v} if v else {}), **kw)
            if rng.random() < 0.5:
                e.get_dual_matrix()
            if not equal_functions(e.get_basis_functions(), plain[key]):
                return False, f"{key}: the basis with a {turn} cache differs"
        rng.shuffle(todo)
    return True, ""


def scenario_user(how):
    """Elements defined outside symfem: a later definition does not get an earlier one's matrix."""
    import symfem
    from symfem.finite_element import CiarletElement
    from symfem.functionals import PointEvaluation

    h = S(1) / 2

    def make(points, poly, **attrs):
        class Mine(CiarletElement):
            def __init__(self, reference, order):
                super().__init__(reference, order, poly, [PointEvaluation(reference, p, entity=(2, 0)) for p in points], 2, 1)

            names = ["mine"]
            references = ["triangle"]

        for k, v in attrs.items():
            setattr(Mine, k, v)
        return Mine

    x, y, _ = sympy.symbols("x y z")
    defs = [([(0, 0), (1, 0), (0, 1)], [S(1), x, y]), ([(h, 0), (0, h), (h, h)], [S(1), x, y]), ([(0, 0), (1, 0), (0, 1)], [S(1), x + y, y]),
            ([(1, 0), (0, 0), (0, 1)], [S(1), x, y])]
    if how == "script":
        attrs = {"__module__": "__main__"}
    else:
        attrs = {}
    r = symfem.create_reference("triangle")
    for pts, poly in defs:
        e = make(pts, poly, **attrs)(r, 1)
        fs = e.get_basis_functions()
        for i, p in enumerate(pts):
            for j, f in enumerate(fs):
                v = f.as_sympy().subs({x: p[0], y: p[1]}, simultaneous=True)
                if v != (1 if i == j else 0):
                    return False, f"points {pts}: function {j} is {v} at point {i}"
    return True, ""


def scenarios():
    out = [["roundtrip", n] for n in MATRICES]
    out += [["prefixes", n] for n in ("one", "rational", "roots", "floats", "row", "column")]
    out += [["crash", n] for n in ("rational", "roots", "column")]
    out += [["concurrent", n] for n in ("rational",)]
    out += [["results", s] for s in (1, 2)]
    out += [["ids"], ["unwritable"], ["user", "script"], ["user", "function"]]
    return out


def run_scenario(args):
    return globals()["scenario_" + args[0]](*args[1:])


def isolated(args, timeout=600):
    """Run a scenario on the original code in a process and a cache of its own."""
    d = tempfile.mkdtemp(prefix="k01-", dir=env.SCRATCH)
    fn = os.path.join(d, "case.json")
    with open(fn, "w") as f:
        json.dump({"property": "K01", "case": {"kind": "scenario", "args": args, "direct": True}}, f)
    e = dict(os.environ, PYVC_SCRATCH=d)
    try:
        p = subprocess.run([sys.executable, os.path.join(env.VERIF, "replay.py"), fn], capture_output=True, text=True, timeout=timeout, env=e,
                           cwd=env.VERIF)
        return p.returncode, (p.stdout + p.stderr[-1500:]).strip()
    except subprocess.TimeoutExpired:
        return 3, "timed out"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scenario(R, args):
    rc, out = isolated(args)
    if rc in (0, 1):
        R.bounded("holds", rc == 0, out, {"kind": "scenario", "args": args})
    else:
        R.undecided("holds", out, kind="bounded")


def units(tier):
    u = [("contract", contract), ("file-names", file_names), ("names/cells", names, "cells"), ("names/cross", names, "cross")]
    u += [(f"names/{c}", names, c) for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid")]
    extra = [["results", s] for s in range(3, 12)] + [["crash", n] for n in ("one", "floats", "large")] + [["prefixes", "large"]] \
        + [["concurrent", "column"]]
    for s in scenarios() + (extra if tier == "thorough" else []):
        u.append(("scenario/" + "-".join(map(str, s)), scenario, s))
    return u


def replay(c):
    k = c["kind"]
    if k == "dual":
        try:
            ok, out = run_dual(*c["args"])
        except Exception as ex:
            ok, out = False, repr(ex)
        return not ok, f"{c}: {out}"
    if k == "file-names":
        ok, out = run_file_names()
        return ok is False, f"{c}: {out}"
    if k == "pair":
        ok, out = run_pair(*c["args"])
        return not ok, f"{c}: {out}"
    if c.get("direct"):
        try:
            ok, out = run_scenario(c["args"])
        except Exception as ex:
            import traceback

            traceback.print_exc()
            ok, out = False, repr(ex)
        return not ok, f"{c['args']}: {out}"
    rc, out = isolated(c["args"])
    return rc == 1, out


__all__ = ["itertools"]
