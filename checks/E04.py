"""E04: tabulation returns the values of the basis functions in the requested layout."""
from pyvc import env  # noqa: F401
import itertools

import sympy

from checks.F01 import basis_class, func
from pyvc import smt
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("tabulate_basis and tabulate_basis_float of FiniteElement run on an element whose basis functions have uninterpreted entries, at "
              "points with symbolic coordinates: each entry of the table is proved to be the right component of the right function at the right "
              "point. Proved for every function and point, for each listed number of points, functions and components; bounded runs on real elements.")
TRUSTED = ["get_basis_functions returns the element's basis (property E01)"]
ASSUMPTIONS = ["0-3 points, 1-4 functions, value shapes up to length 4 / 3x3", "floating-point tables: values correct to 1e-12 relative"]
BOUNDS = "0-3 points, 1-4 functions, scalar, vectors of length 1-4, matrices up to 3x3; bounded: listed real elements"
S = sympy.S

ORDERS = ["xyz,xyz", "xxyyzz", "xx,yy,zz", "xyzxyz"]
SHAPES = [(), (2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (3, 3)]
FORMS = ["tuple", "list", "matrix"]


def entry(name, form):
    """One component of a basis function; form: how it depends on the point."""
    f = sympy.Function(name)
    if form == "constant":
        return sympy.Symbol("c" + name)
    return f(*X)


def components(shape):
    if shape == ():
        return [()]
    return list(itertools.product(*[range(n) for n in shape]))


def build(shape, name, form="uninterpreted"):
    g = lambda *i: entry(name + "".join(map(str, i)), form)  # noqa: E731
    if shape == ():
        return g()
    if len(shape) == 1:
        return tuple(g(i) for i in range(shape[0]))
    return tuple(tuple(g(i, j) for j in range(shape[1])) for i in range(shape[0]))


def comp(v, c):
    for i in c:
        v = v[i]
    return v


def element(values, shape, tdim, kind="plain"):
    """An element with the given basis functions."""
    from symfem.finite_element import FiniteElement
    from symfem import create_reference

    class Stub(FiniteElement):
        def __init__(self):
            r = create_reference({1: "interval", 2: "triangle", 3: "tetrahedron"}[tdim])
            n = 1
            for s in shape:
                n *= s
            super().__init__(r, 1, len(values), tdim, n, shape if len(shape) == 2 else None)
            self.calls = 0
            fs = [func(v) for v in values]
            self.basis = [basis_class()(f) for f in fs] if kind == "basis" else fs

        def get_basis_functions(self, use_tensor_factorisation=False):
            self.calls += 1
            return self.basis

        dof_plot_positions = dof_directions = dof_entities = entity_dofs = map_to_cell = get_polynomial_basis = None
        maximum_degree = 1

    return Stub()


def at(e, p):
    return S(e).subs(dict(zip(X, p)), simultaneous=True)


def layout(values, shape, points, order):
    """The documented table."""
    cs = components(shape)
    out = []
    for p in points:
        v = [[at(comp(f, c), p) for c in cs] for f in values]
        if shape == ():
            out.append([r[0] for r in v])
        elif order == "xyz,xyz":
            out.append(v)
        elif order == "xyzxyz":
            out.append([i for r in v for i in r])
        elif order == "xxyyzz":
            out.append([r[k] for k in range(len(cs)) for r in v])
        else:
            out.append([[r[k] for r in v] for k in range(len(cs))])
    return out


def plain(t):
    """A table as nested lists (a matrix value as the list of its entries row by row)."""
    if isinstance(t, sympy.MatrixBase):
        return list(t)
    if isinstance(t, (list, tuple)):
        return [plain(i) for i in t]
    from symfem.functions import AnyFunction

    if isinstance(t, AnyFunction):
        return plain(t.as_sympy())
    return t


def flat_matrix(t, shape, order):
    """xyz,xyz tables of matrices may also nest the rows."""
    if len(shape) == 2 and order == "xyz,xyz":
        return [[[i for r in m for i in r] if m and isinstance(m[0], list) else m for m in row] for row in t]
    return t


def agree(a, b, tol=None):
    if isinstance(a, list) != isinstance(b, list):
        return False, f"{a} where {b} was expected"
    if isinstance(a, list):
        if len(a) != len(b):
            return False, f"{len(a)} entries instead of {len(b)}: {a}"
        for i, (p, q) in enumerate(zip(a, b)):
            r = agree(p, q, tol)
            if not r[0]:
                return r
        return True, ""
    if tol is not None:
        d = sympy.nsimplify(a, rational=True) - q_(b)
        if d.free_symbols:
            d = sympy.expand(d)
        return (abs(sympy.N(d)) <= tol * max(1, abs(sympy.N(b))), f"{a} instead of {b}")
    d = S(a) - S(b)
    return (d == 0 or smt.is_zero(d)), f"{a} instead of {b}"


def q_(v):
    return sympy.nsimplify(v, rational=True) if S(v).has(sympy.Float) else S(v)


def pts(n, g, tag="p"):
    return [tuple(sympy.Symbol(f"{tag}{i}_{k}", real=True) for k in range(g)) for i in range(n)]


def given(points, form):
    if form == "tuple":
        return tuple(tuple(p) for p in points)
    if form == "list":
        return [list(p) for p in points]
    return [sympy.Matrix([list(p)]) if i % 2 else sympy.Matrix([[c] for c in p]) for i, p in enumerate(points)]


def run_table(shape, nf, npts, tdim, order, form, kind="plain", entries="uninterpreted"):
    values = [build(shape, f"F{i}_", entries) for i in range(nf)]
    e = element(values, shape, tdim, kind)
    points = pts(npts, tdim)
    default = order == "default"
    t = e.tabulate_basis(given(points, form)) if default else e.tabulate_basis(given(points, form), order)
    o = "xyzxyz" if default else order
    return agree(flat_matrix(plain(list(t)), shape, o), layout(values, shape, points, o))


def tables(R, shape):
    for tdim in (1, 2, 3):
        for nf in (1, 2, 3, 4):
            for npts in (0, 1, 2, 3):
                for order in ORDERS + ["default"]:
                    for form in FORMS if npts == 2 else FORMS[:1]:
                        case = {"kind": "table", "args": [list(shape), nf, npts, tdim, order, form]}
                        try:
                            ok, why = run_table(shape, nf, npts, tdim, order, form)
                        except Exception as ex:
                            ok, why = False, repr(ex)
                        R.ok(f"{tdim}d/{nf}functions/{npts}points/{order}/{form}", ok, why, case)
    for order in ORDERS:
        for kind, entries in (("basis", "uninterpreted"), ("plain", "constant")):
            case = {"kind": "table", "args": [list(shape), 3, 2, 2, order, "tuple", kind, entries]}
            try:
                ok, why = run_table(shape, 3, 2, 2, order, "tuple", kind, entries)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.ok(f"{kind}-{entries}/{order}", ok, why, case)


def run_floats(shape, nf, npts, tdim, form, seed=0):
    """Coefficients that are exact in binary: the table is exact."""
    dy = [S(3) / 4, S(-5), S(1) / 8, S(0), S(7) / 2, S(1)]
    n = seed

    def build_f(name):
        nonlocal n
        n += 1
        u = sympy.Function(name)(*X[:tdim])
        w = sympy.Function(name + "w")(*X[:tdim])
        return dy[n % 6] * u + dy[(n + 2) % 6] * w + dy[(n + 3) % 6]

    values = []
    for i in range(nf):
        if shape == ():
            values.append(build_f(f"F{i}"))
        elif len(shape) == 1:
            values.append(tuple(build_f(f"F{i}_{c}") for c in range(shape[0])))
        else:
            values.append(tuple(tuple(build_f(f"F{i}_{r}{c}") for c in range(shape[1])) for r in range(shape[0])))
    e = element(values, shape, tdim)
    points = pts(npts, tdim)
    want = layout(values, shape, points, "xyz,xyz")
    for again in range(2):  # the float basis is kept: the second call must not depend on the first
        q = points if again == 0 else list(reversed(points))
        w = want if again == 0 else list(reversed(want))
        t = flat_matrix(plain(list(e.tabulate_basis_float(given(q, form)))), shape, "xyz,xyz")
        t = rational(t)
        ok, why = agree(t, w)
        if not ok:
            return False, f"call {again + 1}: {why}"
    return True, ""


def rational(t):
    if isinstance(t, list):
        return [rational(i) for i in t]
    return sympy.nsimplify(S(t), rational=True)


def floats(R):
    for shape in SHAPES:
        for tdim in (1, 2, 3):
            for nf, npts in ((1, 1), (2, 3), (3, 2), (4, 0)):
                for form in FORMS[:2]:
                    case = {"kind": "floats", "args": [list(shape), nf, npts, tdim, form]}
                    try:
                        ok, why = run_floats(shape, nf, npts, tdim, form)
                    except Exception as ex:
                        ok, why = False, repr(ex)
                    R.ok(f"{shape}/{tdim}d/{nf}functions/{npts}points/{form}", ok, why, case)


def run_history(shape, script, tdim=2):
    """A sequence of tabulations of two elements: each gives what a first call would give."""
    els = []
    for k in range(2):
        values = [build(shape, f"E{k}F{i}_") for i in range(3 - k)]
        els.append((element(values, shape, tdim), values))
    sets = [pts(2, tdim, "p"), pts(3, tdim, "q"), list(reversed(pts(2, tdim, "p"))), pts(2, tdim, "p")]
    for n, (k, s, o) in enumerate(script):
        e, values = els[k]
        if o == "float":
            t = flat_matrix(plain(list(e.tabulate_basis_float(sets[s]))), shape, "xyz,xyz")
            ok, why = agree(rational(t), layout(values, shape, sets[s], "xyz,xyz"))
        elif o == "bad":
            try:
                e.tabulate_basis(sets[s], "zyx")
                ok, why = shape == (), "an unknown layout is answered"
            except ValueError:
                ok, why = True, ""
        else:
            t = flat_matrix(plain(list(e.tabulate_basis(sets[s], o))), shape, o)
            ok, why = agree(t, layout(values, shape, sets[s], o))
        if not ok:
            return False, f"call {n + 1} ({script[n]}): {why}"
        now = [plain(f) for f in e.basis]
        if not agree(now, [plain_values(v) for v in values])[0]:
            return False, f"call {n + 1} changed the basis functions"
    return True, ""


def plain_values(v):
    if isinstance(v, tuple) and isinstance(v[0], tuple):
        return [i for r in v for i in r]
    return list(v) if isinstance(v, tuple) else v


def history(R, shape):
    ops = ORDERS + ["float", "bad"]
    for a, b in itertools.product(ops, repeat=2):
        script = [(0, 0, a), (0, 1, b), (1, 0, a), (0, 2, a), (1, 3, b), (0, 3, b), (0, 0, a)]
        case = {"kind": "history", "shape": list(shape), "script": script}
        try:
            ok, why = run_history(shape, script)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.ok(f"{a}-then-{b}", ok, why, case)
    for _ in range(20 if not R.thorough else 200):
        script = [(R.rng.randrange(2), R.rng.randrange(4), R.rng.choice(ops)) for _ in range(6)]
        case = {"kind": "history", "shape": list(shape), "script": script}
        try:
            ok, why = run_history(shape, script)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.ok("script-" + "-".join(f"{k}{s}{o}" for k, s, o in script), ok, why, case)


def refusals(R):
    for shape in [s for s in SHAPES if s]:
        for bad in ("xyz", "", "xyz,xyz ", "xxyyzz,", "XYZXYZ", "xx,yyzz"):
            ok, why = run_refuse(shape, bad)
            R.ok(f"{shape}/{bad!r}", ok, why, {"kind": "refuse", "shape": list(shape), "order": bad})


def run_refuse(shape, bad):
    values = [build(shape, f"F{i}_") for i in range(2)]
    e = element(values, shape, 2)
    for n in (1, 2):
        try:
            t = e.tabulate_basis(pts(n, 2), bad)
        except ValueError:
            continue
        except Exception as ex:
            return False, repr(ex)
        return False, f"layout {bad!r} gives {t}"
    return True, ""


REAL = [
    ("interval", "P", 0, {}), ("interval", "P", 3, {}), ("triangle", "P", 2, {}), ("tetrahedron", "P", 1, {}), ("quadrilateral", "Q", 2, {}),
    ("interval", "vP", 2, {}), ("triangle", "vP", 1, {}), ("hexahedron", "vQ", 1, {}), ("triangle", "N1curl", 2, {}),
    ("tetrahedron", "RT", 1, {}), ("quadrilateral", "Qdiv", 1, {}), ("hexahedron", "Qcurl", 1, {}), ("triangle", "Regge", 1, {}),
    ("tetrahedron", "Regge", 0, {}), ("triangle", "HHJ", 1, {}), ("quadrilateral", "Regge", 0, {}), ("triangle", "AW", 3, {}),
    ("triangle", "matrix Lagrange", 1, {}), ("triangle", "symmetric matrix Lagrange", 1, {}), ("triangle", "HCT", 3, {}),
    ("triangle", "P1-iso-P2", 1, {}), ("triangle", "Guzman-Neilan", 1, {}), ("triangle", "Bernardi-Raugel", 1, {}),
    ("triangle", "bubble enriched vector Lagrange", 1, {}), ("triangle", "EG", 2, {}), ("triangle", "LFEG", 1, {}),
    ("triangle", "Bernstein", 2, {}), ("quadrilateral", "direct serendipity", 3, {}), ("pyramid", "P", 1, {}), ("prism", "P", 1, {}),
    ("prism", "Nedelec", 1, {}), ("quadrilateral", "AC", 1, {}), ("triangle", "P1 macro", 1, {}), ("triangle", "Alfeld-Sorokina", 2, {}),
    ("dual polygon(4)", "dual", 1, {}), ("dual polygon(6)", "BC", 1, {}), ("interval", "P1-iso-P2", 1, {}), ("interval", "EG", 2, {}),
]


def run_real(cell, name, order, kw):
    import symfem

    e = symfem.create_element(cell, name, order, **kw)
    fs = e.get_basis_functions()
    tdim = e.reference.tdim
    r = sympy.Rational
    points = {1: [(0,), (r(1, 3),), (r(2, 3),)], 2: [(r(1, 8), r(1, 5)), (r(1, 2), r(1, 7)), (r(1, 9), r(1, 3)), (r(1, 11), r(1, 2))],
              3: [(r(1, 8), r(1, 5), r(1, 9)), (r(1, 7), r(1, 10), r(1, 2))]}[tdim]
    vals = [[plain(value_at(f, p)) for f in fs] for p in points]
    scalar = not isinstance(vals[0][0], list)
    n = 1 if scalar else len(vals[0][0])
    if n != e.range_dim:
        return False, f"values of {n} components, range_dim {e.range_dim}"
    for o in ORDERS + ORDERS[:2]:
        t = flat_matrix(plain(list(e.tabulate_basis(points, o))), (2, 2) if e.range_shape else (), o)
        if scalar or (n == 1 and o == "xyz,xyz"):
            want = vals
        elif o == "xyz,xyz":
            want = vals
        elif o == "xyzxyz":
            want = [[c for f in row for c in f] for row in vals]
        elif o == "xxyyzz":
            want = [[f[c] for c in range(n) for f in row] for row in vals]
        else:
            want = [[[f[c] for f in row] for c in range(n)] for row in vals]
        ok, why = agree(t, want)
        if not ok:
            return False, f"{o}: {why}"
    for q, w in ((points, vals), (points[::-1], vals[::-1])):
        t = flat_matrix(plain(list(e.tabulate_basis_float(q))), (2, 2) if e.range_shape else (), "xyz,xyz")
        ok, why = agree(t, w, 1e-11)
        if not ok:
            return False, f"floats: {why}"
    return True, ""


def value_at(f, p):
    """The value of a basis function at a point, computed from its own pieces."""
    from symfem.piecewise_functions import PiecewiseFunction

    if isinstance(f, PiecewiseFunction):
        f = f.get_piece(p)
    v = f.as_sympy()
    if isinstance(v, sympy.MatrixBase):
        return v.applyfunc(lambda e: at(e, p))
    if isinstance(v, tuple):
        return tuple(at(e, p) for e in v)
    return at(v, p)


def real(R, cell, name, order, kw):
    case = {"kind": "real", "args": [cell, name, order, kw]}
    try:
        ok, why = run_real(cell, name, order, kw)
    except Exception as ex:
        import traceback

        ok, why = False, traceback.format_exc() + repr(ex)
    R.bounded("tables", ok, why, case)


def units(tier):
    u = [(f"table/{s}", tables, s) for s in SHAPES]
    u += [(f"history/{s}", history, s) for s in [(), (2,), (3,), (2, 2)]]
    u += [("floats", floats), ("refusals", refusals)]
    u += [(f"real/{c}-{n}-{o}", real, c, n, o, k) for c, n, o, k in REAL]
    return u


def replay(c):
    k = c["kind"]
    if k == "table":
        ok, text = _try(run_table, tuple(c["args"][0]), *c["args"][1:])
    elif k == "floats":
        ok, text = _try(run_floats, tuple(c["args"][0]), *c["args"][1:])
    elif k == "history":
        ok, text = _try(run_history, tuple(c["shape"]), [tuple(s) for s in c["script"]])
    elif k == "refuse":
        ok, text = run_refuse(tuple(c["shape"]), c["order"])
    else:
        ok, text = _try(run_real, *c["args"])
    return not ok, f"{c}: {text}"


def _try(f, *a):
    try:
        return f(*a)
    except Exception as ex:
        return False, repr(ex)
