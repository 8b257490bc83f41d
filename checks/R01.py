"""R01: the registry gives the element that was asked for, or refuses."""
from pyvc import env  # noqa: F401
import json
import os

import sympy

from pyvc import engine, spec

LEVEL = "proof"
LEVEL_NOTE = ("create_element runs on registered stand-in classes with a symbolic integer order and symbolic bounds: on every path it is proved that "
              "the class is called with the cell of that name and vertices, the order and the arguments it was given, exactly when the bounds admit the "
              "order, and that ValueError is raised otherwise. The same is proved for every registered name, cell and all integer orders with the "
              "classes' own bounds (their constructors recorded, not run), against the documented names and ranges. Which space each class then gives "
              "is compared on the listed orders with recorded values (bounded).")
TRUSTED = ["checks/registry.json: names and ranges from the documentation; values recorded from functions that the other properties are decided on"]
ASSUMPTIONS = ["bounds of a stand-in class: none, an integer, or a dictionary with or without the cell"]
BOUNDS = "the real constructors run for the two lowest orders (and variants) of each registered class and cell; unknown names from a list"
S = sympy.S
HERE = os.path.dirname(os.path.abspath(__file__))
CELLS = ["point", "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]


def table():
    with open(os.path.join(HERE, "registry.json")) as f:
        return json.load(f)


def cell_name(cell):
    return "dual polygon(5)" if cell == "dual polygon" else cell


# --------------------------------------------------------------------------- stand-ins
def stub(name, cells, lo=None, hi=None, base=None):
    """A class of elements that only records how it was called."""
    from symfem.finite_element import FiniteElement

    class Recorded(base or FiniteElement):
        names = [name] if isinstance(name, str) else list(name)
        references = list(cells)

        def __init__(self, *args, **kw):
            self.call = (args, kw)

        dof_plot_positions = dof_directions = dof_entities = entity_dofs = map_to_cell = get_polynomial_basis = get_basis_functions = None
        get_tensor_factorisation = None
        maximum_degree = 1

    Recorded.__abstractmethods__ = frozenset()
    if lo is not None:
        Recorded.min_order = lo
    if hi is not None:
        Recorded.max_order = hi
    return Recorded


class Registered:
    """Classes added to the registry, and removed afterwards."""

    def __init__(self, *classes):
        self.classes = classes

    def __enter__(self):
        from symfem import create

        self.create = create
        self.before = ({n: dict(m) for n, m in create._elementmap.items()}, list(create._elementlist))
        for c in self.classes:
            create.add_element(c)

    def __exit__(self, *a):
        m, li = self.before
        self.create._elementmap.clear()
        self.create._elementmap.update(m)
        self.create._elementlist[:] = li


def unchanged(ref, cell, vertices):
    """ref is the reference of that name with those vertices."""
    if ref.name != cell or ref.tdim != spec.TDIM[cell]:
        return f"the reference of {cell} is {ref.name}"
    want = vertices if vertices is not None else spec.VERTS[cell]
    if len(ref.vertices) != len(want) or any(len(a) != len(b) or any(sympy.expand(S(x) - S(y)) != 0 for x, y in zip(a, b))
                                             for a, b in zip(ref.vertices, want)):
        return f"the vertices of {cell} are {ref.vertices}"
    return ""


def called(e, cls, cell, vertices, order, kw):
    """The element is `cls` called once with these arguments."""
    if type(e) is not cls:
        return f"{type(e).__name__} instead of {cls.__name__}"
    args, k = e.call
    names = ["reference", "order"]
    given = dict(zip(names, args))
    if len(args) > 2:
        return f"called with {args}"
    for n, v in k.items():
        if n in given:
            return f"{n} is given twice"
        given[n] = v
    if set(given) != {"reference", "order"} | set(kw):
        return f"called with {sorted(given)}"
    for n, v in kw.items():
        if given[n] is not v:
            return f"{n} is {given[n]}"
    if not (given["order"] is order or sympy.expand(S(given["order"]) - order) == 0):
        return f"order {given['order']} instead of {order}"
    return unchanged(given["reference"], cell, vertices)


BOUND = {"none": lambda s, c: None, "number": lambda s, c: s, "this cell": lambda s, c: {c: s, "other": S(7)}, "other cells": lambda s, c: {"other": s}}


def limited(kind):
    return kind in ("number", "this cell")


def run_bounds(lo, hi, cell, order, m, M):
    """One order of a stand-in: ('call' or 'refuse', problem)."""
    import symfem

    cls = stub("a stand-in", [cell], BOUND[lo](m, cell), BOUND[hi](M, cell))
    token = object()
    with Registered(cls):
        try:
            e = symfem.create_element(cell, "a stand-in", order, token=token)
        except ValueError:
            return "refuse", ""
    return "call", called(e, cls, cell, None, order, {"token": token})


def bounds(R, lo, hi):
    import symfem  # noqa: F401

    for cell in ["point", "interval", "triangle", "pyramid"]:
        order, m, M = engine.syms("order m M", integer=True)
        paths = engine.explore(lambda: run_bounds(lo, hi, cell, order, m, M))
        want = sympy.true
        if limited(lo):
            want = sympy.And(want, order >= m)
        if limited(hi):
            want = sympy.And(want, order <= M)

        def case(v):
            return {"kind": "bounds", "lo": lo, "hi": hi, "cell": cell, "order": int(v.get("order", 0)), "m": int(v.get("m", 0)), "M": int(v.get("M", 0))}

        for k, p in enumerate(paths):
            if p.exc is not None:
                R.implies(f"{cell}/path{k}/no-other-error", p.pc, False, case)
                continue
            R.implies(f"{cell}/path{k}/{p.value[0]}", p.pc, want if p.value[0] == "call" else sympy.Not(want), case)
            if p.value[0] == "call":
                R.implies(f"{cell}/path{k}/arguments", p.pc, not p.value[1], case)


def admits(lo, hi, order, m, M):
    return not (limited(lo) and order < m or limited(hi) and order > M)


# --------------------------------------------------------------------------- create_element
def run_vertices(cell, vertices, embedded=False):
    import symfem

    cls = stub("a stand-in", [cell])
    token = object()
    with Registered(cls):
        try:
            e = symfem.create_element(cell, "a stand-in", 3, vertices=vertices, token=token)
        except ValueError as ex:
            return (True, "") if embedded else (False, f"refused: {ex}")
    if embedded:
        return False, "an element on a cell of the wrong geometric dimension"
    why = called(e, cls, cell, vertices, 3, {"token": token})
    return not why, why


def sym_vertices(cell, gdim):
    return tuple(tuple(sympy.Symbol(f"v{i}_{j}", real=True) for j in range(gdim)) for i in range(len(spec.VERTS[cell])))


def vertices(R):
    for cell in CELLS:
        t = spec.TDIM[cell]
        for g in range(max(t, 1) if cell != "point" else 0, 4):
            if g == 0:
                continue
            v = sym_vertices(cell, g)
            ok, why = run_vertices(cell, v, g != t)
            R.ok(f"{cell}-in-{g}d", ok, why, {"kind": "vertices", "cell": cell, "gdim": g})
            if cell != "point":
                why = run_reference(cell, v)
                R.ok(f"reference/{cell}-in-{g}d", not why, why, {"kind": "reference", "cell": cell, "gdim": g})
        why = run_reference(cell, None)
        R.ok(f"reference/{cell}", not why, why, {"kind": "reference", "cell": cell})
    for n in range(3, 11):
        why = run_polygon(n)
        R.ok(f"reference/dual-polygon-{n}", not why, why, {"kind": "polygon", "n": n})


def run_reference(cell, v):
    import symfem

    return unchanged(symfem.create_reference(cell, v) if v is not None else symfem.create_reference(cell), cell, v)


def run_polygon(n):
    import symfem

    r = symfem.create_reference(f"dual polygon({n})")
    if r.name != "dual polygon" or r.tdim != 2 or r.gdim != 2 or r.number_of_triangles != n or len(r.vertices) != 2 * n:
        return f"dual polygon({n}) is {r.name} with {r.number_of_triangles} triangles"
    return ""


UNKNOWN = ["", " ", "Lagrang", "lagrange", "LAGRANGE", "Lagrange ", " Lagrange", "p", "P1", "nedelec", "N3curl", "rt", "Lagrange1", "unknown", "None", "0"]
UNKNOWN_CELLS = ["", " ", "square", "Triangle", "triangle ", "triangles", "dual", "polygon", "cube", "line", "tet", "quad", "polygon(4)", "simplex"]


def refusal(f):
    try:
        f()
    except ValueError:
        return True, ""
    except Exception as ex:
        return False, f"{type(ex).__name__} instead of ValueError"
    return False, "accepted"


def run_unknown(cell, name):
    import symfem

    return refusal(lambda: symfem.create_element(cell, name, 2))


def run_unknown_cell(name):
    import symfem

    a = refusal(lambda: symfem.create_reference(name))
    return a if not a[0] else refusal(lambda: symfem.create_element(name, "Lagrange", 1))


def unknown(R):
    for n in UNKNOWN:
        for cell in CELLS:
            ok, why = run_unknown(cell, n)
            R.bounded(f"name/{n!r}-{cell}", ok, why, {"kind": "unknown", "cell": cell, "name": n})
    for n in UNKNOWN_CELLS:
        ok, why = run_unknown_cell(n)
        R.bounded(f"cell/{n!r}", ok, why, {"kind": "unknown-cell", "name": n})


# --------------------------------------------------------------------------- add_element
def run_add(what):
    import symfem
    from symfem import create
    from symfem.finite_element import FiniteElement

    if what == "all":
        cls = stub(["one name", "another name"], ["triangle", "prism"])
        with Registered(cls):
            for n in cls.names:
                for c in CELLS:
                    try:
                        e = symfem.create_element(c, n, 1)
                    except ValueError:
                        if c in cls.references:
                            return f"{n} on {c} is refused"
                        continue
                    if c not in cls.references or type(e) is not cls:
                        return f"{n} on {c} gives {type(e)}"
            create.add_element(cls)
            if create._elementlist.count(cls) != 1:
                return "registered twice"
        return ""
    if what in ("name taken", "name taken elsewhere"):
        cls = stub("Lagrange", ["triangle" if what == "name taken" else "point"])
        try:
            with Registered(cls):
                got = type(symfem.create_element("triangle", "Lagrange", 1))
                there = type(symfem.create_element("point", "Lagrange", 1)) if what != "name taken" else None
        except Exception:
            return "" if what == "name taken" else "refused although the name is free on that cell"
        finally:
            Registered.__exit__
        if what == "name taken":
            return "another class takes over a registered name" if got is cls else ""
        return "" if there is cls and got is not cls else "the name leads to the wrong class"
    bad = {"not a class": 3, "an instance": symfem.create_element("triangle", "Lagrange", 1), "not an element": int, "the base class": FiniteElement,
           "no names": stub([], ["triangle"])}[what]
    try:
        create.add_element(bad)
    except TypeError:
        return ""
    return "accepted"


def add(R):
    for w in ["all", "name taken", "name taken elsewhere", "not a class", "an instance", "not an element", "the base class", "no names"]:
        before = snapshot()
        try:
            why = run_add(w)
        except Exception as ex:
            why = repr(ex)
        if snapshot() != before:
            restore(before)
            if w not in ("name taken",):
                why = why or "the registry is left changed"
        R.ok(w, not why, why, {"kind": "add", "what": w})


def snapshot():
    from symfem import create

    return {n: dict(m) for n, m in create._elementmap.items()}, list(create._elementlist)


def restore(s):
    from symfem import create

    create._elementmap.clear()
    create._elementmap.update(s[0])
    create._elementlist[:] = s[1]


# --------------------------------------------------------------------------- the registered names
class Recording:
    """Record instead of run the constructors of the registered classes."""

    def __enter__(self):
        from symfem import create

        self.old = [(c, c.__dict__.get("__init__")) for c in create._elementlist]
        for c, _ in self.old:
            def init(e, *args, **kw):
                e.call = (args, kw)

            c.__init__ = init

    def __exit__(self, *a):
        for c, f in self.old:
            if f is None:
                del c.__init__
            else:
                c.__init__ = f


def run_asked(cell, name, order):
    """What happens to an order: (class, problem), or (None, '') when it is refused."""
    import symfem

    token = object()
    with Recording():
        try:
            e = symfem.create_element(cell_name(cell), name, order, token=token)
        except ValueError:
            return None, ""
        if cell == "dual polygon":
            args, kw = e.call
            ref, o = args if len(args) == 2 else (kw.get("reference"), kw.get("order"))
            why = "" if ref.name == cell and ref.number_of_triangles == 5 and (o is order or S(o) == order) else "other arguments"
        else:
            why = called(e, type(e), cell, None, order, {"token": token})
    return type(e), why


def range_of(name, cell):
    row = table()["names"].get(cell, {}).get(name)
    return row and row["range"]


def asked(R, cell):
    rows = table()["names"][cell]
    for name, row in rows.items():
        lo, hi = row["range"]
        order = engine.sym("order", integer=True)
        paths = engine.explore(lambda: run_asked(cell, name, order))
        want = sympy.true
        if lo is not None:
            want = sympy.And(want, order >= lo)
        if hi is not None:
            want = sympy.And(want, order <= hi)

        def case(v):
            return {"kind": "asked", "cell": cell, "name": name, "order": int(v.get("order", 0))}

        for k, p in enumerate(paths):
            lab = f"{name}/path{k}"
            if p.exc is not None:
                R.implies(f"{lab}/no-other-error", p.pc, False, case)
                continue
            cls, why = p.value
            R.implies(f"{lab}/{'given' if cls else 'refused'}", p.pc, want if cls else sympy.Not(want), case)
            if cls:
                with_canonical = run_asked(cell, row["family"], lo if lo is not None else 1)[0]
                good = not why and cls is with_canonical and name in cls.names and cell in cls.references
                R.implies(f"{lab}/class", p.pc, good, case)


def run_one(cell, name, order):
    """The concrete counterpart of `asked`."""
    row = table()["names"][cell][name]
    lo, hi = row["range"]
    inside = (lo is None or order >= lo) and (hi is None or order <= hi)
    try:
        cls, why = run_asked(cell, name, order)
    except Exception as ex:
        return False, f"{type(ex).__name__}: {ex}"
    if cls is None:
        return not inside, "refused" if inside else ""
    if not inside:
        return False, "an order outside the documented range is answered"
    if why:
        return False, why
    other = run_asked(cell, row["family"], lo if lo is not None else 1)[0]
    if cls is not other or name not in cls.names or cell not in cls.references:
        return False, f"{name} gives {cls.__name__}"
    return True, ""


def documented(R):
    """The registry has the documented names on the documented cells, and each class is found under all its names."""
    from symfem import create

    t = table()["names"]
    for cell in t:
        for name in t[cell]:
            R.ok(f"offered/{cell}/{name}", cell in create._elementmap.get(name, {}), "", {"kind": "offered", "cell": cell, "name": name})
    for cls in create._elementlist:
        for n in cls.names:
            for c in cls.references:
                R.ok(f"own/{cls.__module__.split('.')[-1]}.{cls.__name__}/{c}/{n}", create._elementmap.get(n, {}).get(c) is cls, "",
                     {"kind": "own", "cell": c, "name": n, "cls": cls.__name__, "module": cls.__module__})
    for n, m in create._elementmap.items():
        for c, cls in m.items():
            R.ok(f"known/{c}/{n}", n in cls.names and c in cls.references and cls in create._elementlist, "", {"kind": "known", "cell": c, "name": n})
    taken = {}
    for n, m in create._elementmap.items():
        for c in m:
            taken.setdefault(c, set()).add(n)
    # a name that is not offered on a cell is refused there
    for cell in CELLS:
        for n in sorted(set(create._elementmap) - taken.get(cell, set())):
            ok, why = run_unknown(cell, n)
            R.ok(f"elsewhere/{cell}/{n}", ok, why, {"kind": "unknown", "cell": cell, "name": n})


# --------------------------------------------------------------------------- what the classes give
POINT = [S(5) / 16, S(7) / 32, S(11) / 64]


def fingerprint(e):
    """Size, shape and one value of each function."""
    from symfem.symbols import x

    n = e.reference.tdim
    vals = []
    shape = None
    for f in e.get_basis_functions():
        v = f.subs(x[:n], POINT[:n]) if n else f
        v = v.as_sympy() if hasattr(v, "as_sympy") else v
        if isinstance(v, sympy.MatrixBase):
            sh, v = list(v.shape), list(v)
        elif isinstance(v, (tuple, list)):
            sh, v = [len(v)], list(v)
        else:
            sh, v = [], [v]
        if shape is not None and shape != sh:
            return [None, None, None, None]
        shape = sh
        vals += [float(S(c).subs(list(zip(x, POINT)))) for c in v]
    counts = [sum(len(e.entity_dofs(d, k)) for k in range(e.reference.sub_entity_count(d))) for d in range(n + 1)]
    return [e.space_dim, shape, counts, [round(c, 10) for c in vals]]


def run_print(cell, name, order, kw, want):
    import symfem

    e = symfem.create_element(cell_name(cell), name, order, **kw)
    if e.order != order or e.reference.name != cell:
        return False, f"order {e.order} on {e.reference.name}"
    if kw and any(e.init_kwargs().get(k, v) != v for k, v in kw.items()):
        return False, f"arguments {e.init_kwargs()}"
    got = fingerprint(e)
    for a, b, what in zip(got[:3], want[:3], ("dimension", "value shape", "functionals of each dimension")):
        if a != b:
            return False, f"{what} {a} instead of {b}"
    for k, (a, b) in enumerate(zip(got[3], want[3])):
        if abs(a - b) > 1e-7 * (1 + abs(b)):
            return False, f"value {k} at {POINT[:e.reference.tdim]} is {a} instead of {b}"
    return True, ""


def given(R, cell, rows):
    for name, order, kw, want in rows:
        lab = f"{name}-{order}" + "".join(f"-{v}" for v in kw.values())
        c = {"kind": "print", "cell": cell, "name": name, "order": order, "kw": kw}
        try:
            ok, why = run_print(cell, name, order, kw, want)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(lab, ok, why, c)


def units(tier):
    t = table()
    u = [(f"bounds/{lo}-{hi}", bounds, lo, hi) for lo in BOUND for hi in BOUND]
    u += [("create/vertices", vertices), ("create/unknown", unknown), ("add", add), ("documented", documented)]
    u += [(f"asked/{cell}", asked, cell) for cell in t["names"]]
    for cell, rows in t["values"].items():
        for k in range(0, len(rows), 12):
            u.append((f"given/{cell}/{k}", given, cell, rows[k:k + 12]))
    return u


def replay(c):
    from symfem import create

    k = c["kind"]
    try:
        if k == "bounds":
            got, why = run_bounds(c["lo"], c["hi"], c["cell"], c["order"], c["m"], c["M"])
            ok = not why and (got == "call") == admits(c["lo"], c["hi"], c["order"], c["m"], c["M"])
            text = f"order {c['order']}: {got} {why}"
        elif k == "vertices":
            g, t = c["gdim"], spec.TDIM[c["cell"]]
            ok, text = run_vertices(c["cell"], sym_vertices(c["cell"], g), g != t)
        elif k == "reference":
            text = run_reference(c["cell"], sym_vertices(c["cell"], c["gdim"]) if "gdim" in c else None)
            ok = not text
        elif k == "polygon":
            text = run_polygon(c["n"])
            ok = not text
        elif k == "unknown":
            ok, text = run_unknown(c["cell"], c["name"])
        elif k == "unknown-cell":
            ok, text = run_unknown_cell(c["name"])
        elif k == "add":
            text = run_add(c["what"])
            ok = not text
        elif k == "asked":
            ok, text = run_one(c["cell"], c["name"], c["order"])
        elif k == "offered":
            ok, text = c["cell"] in create._elementmap.get(c["name"], {}), f"{c['name']} is not offered on {c['cell']}"
        elif k == "own":
            cls = [e for e in create._elementlist if e.__name__ == c["cls"] and e.__module__ == c["module"]][0]
            ok, text = create._elementmap.get(c["name"], {}).get(c["cell"]) is cls, f"{c['name']} is another class"
        elif k == "known":
            cls = create._elementmap[c["name"]][c["cell"]]
            ok, text = c["name"] in cls.names and c["cell"] in cls.references, f"{cls.__name__} does not have the name {c['name']}"
        else:
            row = [r for r in table()["values"][c["cell"]] if r[:3] == [c["name"], c["order"], c["kw"]]][0]
            ok, text = run_print(c["cell"], c["name"], c["order"], c["kw"], row[3])
    except Exception as ex:
        return True, f"{type(ex).__name__}: {ex}"
    return not ok, text
