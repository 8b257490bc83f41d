"""P02: declared polynomial degrees bound the functions."""
from pyvc import env  # noqa: F401
import itertools
import json
import os
import random

import sympy

from checks.E01 import label
from checks.E05 import find, orders
from checks.P01 import space
from pyvc import engine, span, spec
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("maximum_degree of scalar, vector and matrix functions and of elements runs on symbolic exponents and opaque entries and is proved to be the "
              "largest degree in the sense of the cell. The declared sub- and superdegrees of every class are proved, for a symbolic order, to be the "
              "formulas recorded in the check; for the families spanned by monomials these formulas are proved right for all orders from the exponents. "
              "That the formulas are the true degrees of the spaces that the constructors make is decided by exact linear algebra on the listed orders "
              "(bounded).")
TRUSTED = ["sympy.Poly(f, *x).monoms() returns the exponents of f"]
ASSUMPTIONS = ["up to three monomials, and functions of up to three entries, in the symbolic obligations for maximum_degree"]
BOUNDS = "containment and tightness: every registered class, cell and variant, orders listed in checks/degrees.json"
S = sympy.S
HERE = os.path.dirname(os.path.abspath(__file__))
MEASURED = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism"]


# --------------------------------------------------------------------------- the degree of a function
def measure(cell, e):
    """The order of the lowest Lagrange space with a monomial (spec)."""
    if cell in ("interval", "triangle", "tetrahedron"):
        return S(sum(e))
    if cell == "prism":
        return sympy.Max(e[0] + e[1], e[2])
    return sympy.Max(*e)


class Monomials:
    """Stands for the polynomials with the given exponents."""

    def __init__(self, monoms):
        self.m = monoms

    def monoms(self):
        return list(self.m)


def run_monoms(cell, monoms):
    import symfem
    import symfem.functions as F

    class Shim:
        """sympy with a Poly that answers with the given exponents."""

        Poly = staticmethod(lambda *a, **k: Monomials(monoms))

        def __getattr__(self, n):
            return getattr(sympy, n)

    ref = symfem.create_reference(cell)
    f = F.ScalarFunction(X[0])
    old = F.sympy
    F.sympy = Shim()
    try:
        return f.maximum_degree(ref)
    finally:
        F.sympy = old


def is_max(value, entries):
    return sympy.And(*[value >= e for e in entries], sympy.Or(*[sympy.Eq(value, e) for e in entries]))


def flat_measures(cell, monoms):
    """Values of which the largest is the degree."""
    out = []
    for e in monoms:
        m = measure(cell, e)
        out += list(m.args) if isinstance(m, sympy.Max) else [m]
    return out


def exponents(cell, n):
    d = spec.TDIM[cell]
    return [tuple(engine.sym(f"e{i}_{j}", integer=True) if j < d else S(0) for j in range(3)) for i in range(n)]


def scalar(R, cell, n):
    monoms = exponents(cell, n)
    d = spec.TDIM[cell]
    pre = [c >= 0 for e in monoms for c in e[:d]]
    try:
        paths = engine.explore(lambda: run_monoms(cell, monoms), pre, max_paths=2000)
        if any(p.exc is not None for p in paths):
            raise [p.exc for p in paths if p.exc is not None][0]
    except Exception:  # not written over monoms: decide on real functions only (unit `concrete`)
        concrete(R, cell, 400)
        return

    def case(m):
        return {"kind": "monoms", "cell": cell, "monoms": [[int(m.get(str(c), 0)) if c != 0 else 0 for c in e] for e in monoms]}

    for k, p in enumerate(paths):
        R.implies(f"path{k}", list(pre) + p.pc, is_max(S(p.value), flat_measures(cell, monoms)), case)


def run_function(cell, monoms):
    """A real function with these monomials."""
    import symfem
    from symfem.functions import ScalarFunction

    d = spec.TDIM[cell]
    monoms = [tuple(e[:d]) + (0,) * (3 - d) for e in monoms]
    f = sum((S(k + 2) * sympy.prod([a**b for a, b in zip(X, e)]) for k, e in enumerate(dict.fromkeys(monoms))), S(0))
    got = ScalarFunction(f).maximum_degree(symfem.create_reference(cell))
    want = max(S(c) for c in flat_measures(cell, monoms))
    return got == want, f"{f} has degree {got} instead of {want} on the {cell}"


def some_functions(cell, count, seed):
    """Unexpanded expressions, with terms that cancel."""
    rng = random.Random(seed)
    d = spec.TDIM[cell]
    v = X[:d]
    for i in range(count):
        kind = i % 5
        a = [sum(rng.randint(-2, 2) * w for w in v) + rng.randint(-2, 2) for _ in range(3)]
        if kind == 0:
            f = sympy.prod([w ** rng.randint(0, 4) for w in v]) + rng.randint(-1, 1) * sympy.prod([w ** rng.randint(0, 4) for w in v])
        elif kind == 1:
            f = a[0] * a[1] * a[2]
        elif kind == 2:
            f = a[0] ** rng.randint(0, 4) - v[0] ** 2 * a[1]
        elif kind == 3:
            f = (a[0] * a[1] * a[2]) + a[0] - sympy.expand(a[0] * a[1] * a[2])
        else:
            f = S(rng.randint(-1, 1)) * rng.choice([1, sympy.sqrt(2)])
        yield S(f)


def run_concrete(cell, f):
    import symfem
    from symfem.functions import ScalarFunction

    got = ScalarFunction(f).maximum_degree(symfem.create_reference(cell))
    e = sympy.expand(f)
    monoms = [m + (0,) * (3 - len(m)) for m in sympy.Poly(e, *X).monoms()] if e != 0 else [(0, 0, 0)]
    want = max(S(c) for c in flat_measures(cell, monoms))
    return got == want, f"{f} has degree {got} instead of {want} on the {cell}"


def concrete(R, cell, count):
    for i, f in enumerate(some_functions(cell, count, 3)):
        try:
            ok, why = run_concrete(cell, f)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"function{i}", ok, why, {"kind": "function", "cell": cell, "f": str(f)})


def run_entries(shape, values):
    """maximum_degree of a vector or matrix whose entries have the given degrees."""
    import symfem
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction

    ref = symfem.create_reference("triangle")
    n = len(values)
    syms = [sympy.Symbol(f"entry{i}") for i in range(n)]
    if len(shape) == 1:
        f = VectorFunction(tuple(syms))
    else:
        f = MatrixFunction(tuple(tuple(syms[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])))
    by = dict(zip(syms, values))
    old = ScalarFunction.maximum_degree
    ScalarFunction.maximum_degree = lambda self, cell: by[self.as_sympy()] if cell is ref else None
    try:
        return f.maximum_degree(ref)
    finally:
        ScalarFunction.maximum_degree = old


def entries(R):
    for shape in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2)]:
        vs = [engine.sym(f"d{i}", integer=True) for i in range(shape[0] * (shape[1] if len(shape) > 1 else 1))]
        lab = "x".join(map(str, shape))
        for k, p in enumerate(engine.explore(lambda: run_entries(shape, vs), [v >= 0 for v in vs])):
            def case(m):
                return {"kind": "entries", "shape": list(shape), "values": [int(m.get(str(v), 0)) for v in vs]}

            if p.exc is not None:
                R.implies(f"{lab}/path{k}/no-error", [v >= 0 for v in vs] + p.pc, False, case)
            else:
                R.implies(f"{lab}/path{k}", [v >= 0 for v in vs] + p.pc, is_max(S(p.value), vs), case)


def run_set(cell, values, order=7):
    """maximum_degree of a Ciarlet element whose functions have the given degrees."""
    import symfem
    from symfem.finite_element import CiarletElement
    from symfem.functions import ScalarFunction
    from symfem.functionals import PointEvaluation

    ref = symfem.create_reference(cell)
    syms = [sympy.Symbol(f"entry{i}") for i in range(len(values))]
    by = dict(zip(syms, values))

    class E(CiarletElement):
        names = ["stub"]

    e = E(ref, order, list(syms), [PointEvaluation(ref, ref.vertices[0], (0, 0)) for _ in values], 1, 1)
    old = ScalarFunction.maximum_degree
    ScalarFunction.maximum_degree = lambda self, c: by[self.as_sympy()] if c == ref else None
    try:
        return e.maximum_degree
    finally:
        ScalarFunction.maximum_degree = old


def sets(R):
    for cell in MEASURED:
        for n in (1, 2, 3):
            vs = [engine.sym(f"d{i}", integer=True) for i in range(n)]
            for k, p in enumerate(engine.explore(lambda: run_set(cell, vs), [v >= 0 for v in vs])):
                def case(m):
                    return {"kind": "set", "cell": cell, "values": [int(m.get(str(v), 0)) for v in vs]}

                if p.exc is not None:
                    R.implies(f"{cell}/{n}/path{k}/no-error", [v >= 0 for v in vs] + p.pc, False, case)
                else:
                    R.implies(f"{cell}/{n}/path{k}", [v >= 0 for v in vs] + p.pc, is_max(S(p.value), vs), case)


# --------------------------------------------------------------------------- the declared degrees, for every order
D = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}
SIMPLEX = ("interval", "triangle", "tetrahedron")
NAMES = ("lagrange_subdegree", "lagrange_superdegree", "polynomial_subdegree", "polynomial_superdegree")


def same(f):
    return lambda c, k: [f(c, k)] * 4


def two(sub, sup):
    """Spaces on simplices: the Lagrange spaces are the complete spaces."""
    return lambda c, k: [sub(c, k), sup(c, k)] * 2


def _max(a, b):
    return sympy.Max(a, b)


FULL = same(lambda c, k: k)
# (Lagrange sub, Lagrange super, polynomial sub, polynomial super) of the space of order k on a cell
TABLE = {
    "ArnoldBoffiFalk": lambda c, k: [k, k + 2, k, 2 * k + 2],
    "AC": lambda c, k: [sympy.Piecewise((k, k < 2), (sympy.floor(k / 2), True)), k + 1, k, k + 1],
    "Argyris": FULL, "BDM": FULL, "Bernstein": FULL, "CrouzeixRaviart": FULL, "FortinSoulie": FULL, "Hermite": FULL, "HellanHerrmannJohnson": FULL,
    "VectorLagrange": lambda c, k: [k, k, k, 2 * k if c == "prism" else k], "MatrixLagrange": FULL, "SymmetricMatrixLagrange": FULL, "Morley": FULL, "MorleyWangXu": FULL,
    "NedelecSecondKind": FULL, "Regge": FULL, "Taylor": FULL,
    "Lagrange": lambda c, k: [k, k, k, {"prism": 2 * k, "pyramid": sympy.Piecewise((0, k < 1), (-1, True))}.get(c, k)],
    "ArnoldWinther": two(lambda c, k: k - 1, lambda c, k: k), "NonConformingArnoldWinther": two(lambda c, k: k - 1, lambda c, k: k),
    "BDDF": lambda c, k: [sympy.floor(k / 3), k + 1, k, k + 1],
    "BDFM": lambda c, k: [k - 1 if c in SIMPLEX else sympy.floor(k / D[c]), k, k - 1, k],
    "Bell": lambda c, k: [4, 5, 4, 5],
    "BernardiRaugel": two(lambda c, k: k, lambda c, k: k + D[c] - 1),
    "BognerFoxSchmit": lambda c, k: [k, k, k, 2 * k],
    "Bubble": lambda c, k: [-1, k, -1, k if c in SIMPLEX else k * D[c]],
    "BubbleEnrichedLagrange": two(lambda c, k: k, lambda c, k: k + 2), "BubbleEnrichedVectorLagrange": two(lambda c, k: k, lambda c, k: k + 2),
    "ConformingCrouzeixRaviart": two(lambda c, k: k, lambda c, k: sympy.Piecewise((1, k < 2), (k + 1, True))),
    "DPC": lambda c, k: [sympy.floor(k / D[c]), k, k, k], "VectorDPC": lambda c, k: [sympy.floor(k / D[c]), k, k, k],
    "EnrichedGalerkin": lambda c, k: [k, k, k, k if c in SIMPLEX else k * D[c]],
    "VectorEnrichedGalerkin": lambda c, k: [k, k, k, k if c in SIMPLEX else k * D[c]],
    "HuangZhang": lambda c, k: [k - 1, k, k - 1, 2 * k - 1],
    "MardalTaiWinther": two(lambda c, k: 1, lambda c, k: k + D[c] - 2),
    "NedelecFirstKind": two(lambda c, k: k - 1, lambda c, k: k), "RaviartThomas": lambda c, k: [k - 1, k, k - 1, k if c in SIMPLEX else (k - 1) * D[c] + 1],
    "Nedelec": lambda c, k: [k - 1, k, k - 1, 2 * k if c == "prism" else k * D[c] - 1],
    "Q": lambda c, k: [k, k, k, k * D[c]], "VectorQ": lambda c, k: [k, k, k, k * D[c]],
    "RannacherTurek": lambda c, k: [0, 2, 1, 2],
    "ReggeTP": lambda c, k: [k, k + 1, k, (k + 1) * D[c] - 1],
    "Serendipity": lambda c, k: [sympy.Piecewise((1, k < D[c]), (sympy.floor(k / D[c]), True)), k, k, k + D[c] - 1],
    "SerendipityCurl": lambda c, k: [sympy.Piecewise((1, sympy.Eq(k, 2)), (sympy.floor(k / 3), True)) if D[c] == 3 else sympy.floor(k / 2), k + 1, k,
                                     k + D[c] - 1],
    "SerendipityDiv": lambda c, k: [sympy.floor(k / D[c]), k + 1, k, k + 1],
    "TNT": lambda c, k: [k, k + 1, k + 1, _max(k * D[c], k + D[c])],
    "TNTcurl": lambda c, k: [k, k + 1, k, 2 * k + 1 if D[c] == 2 else _max(3 * k, 2 * k + 2)],
    "TNTdiv": lambda c, k: [k, k + 1, k, k * D[c] + 1],
    "TrimmedSerendipityHcurl": lambda c, k: [sympy.Piecewise((1, sympy.And(k > 1, k <= D[c])), (sympy.floor((k - 1) / D[c]), True)), k, k - 1,
                                             k + D[c] - 2],
    "TrimmedSerendipityHdiv": lambda c, k: [sympy.Piecewise((1, sympy.Eq(k, D[c])), (sympy.floor((k - 1) / D[c]), True)), k, k - 1, k],
    "WuXu": lambda c, k: [3 if c == "interval" else k, k + 1, 3 if c == "interval" else k, k + 1],
}
NONE = -1  # recorded for "no such space" (a superdegree is never negative)


def pieces_of(e):
    """[(condition, value)] of a formula."""
    e = S(e)
    if isinstance(e, sympy.Piecewise):
        out, before = [], sympy.true
        for v, c in e.args:
            out.append((sympy.And(before, c), S(v)))
            before = sympy.And(before, sympy.Not(c))
        return out
    if isinstance(e, sympy.Max):
        a = e.args
        return [(sympy.And(*[v >= w for w in a]), v) for v in a]
    return [(sympy.true, e)]


def bare(cls, cell, order):
    """An instance with nothing but a cell and an order."""
    import symfem

    e = object.__new__(cls)
    e.reference = symfem.create_reference(cell)
    e.order = order
    return e


def bounds(cls, cell):
    def b(a):
        v = getattr(cls, a, None)
        return v.get(cell) if isinstance(v, dict) else v

    return b("min_order"), b("max_order")


def formulas(R, name, cell):
    cls = find(name, cell)
    k = engine.sym("k", integer=True)
    lo, hi = bounds(cls, cell)
    pre = [k >= (0 if lo is None else lo)] + ([k <= hi] if hi is not None else [])
    want = TABLE[name](cell, k)
    for prop, w in zip(NAMES, want):
        try:
            paths = engine.explore(lambda: getattr(bare(cls, cell, k), prop), pre)
        except Exception:
            paths = None
        if paths is None or any(isinstance(p.exc, (AttributeError, TypeError)) for p in paths):
            # needs more than the order: real elements, the lowest orders
            for o in orders(cls, cell, 3):
                ok, why = run_formula(name, cell, prop, o, True)
                R.bounded(f"{prop}/order{o}", ok, why, {"kind": "formula", "name": name, "cell": cell, "prop": prop, "order": o})
            continue

        def case(m):
            return {"kind": "formula", "name": name, "cell": cell, "prop": prop, "order": int(m.get("k", lo or 0))}

        for i, p in enumerate(paths):
            if isinstance(p.exc, NotImplementedError):
                continue
            if p.exc is not None:
                R.implies(f"{prop}/path{i}/no-error", pre + p.pc, False, case)
                continue
            v = S(NONE) if p.value is None else S(p.value)
            goal = sympy.Or(*[sympy.And(c, sympy.Eq(v, q)) for c, q in pieces_of(w)])
            if not isinstance(v, sympy.Max):
                R.implies(f"{prop}/path{i}", pre + p.pc, goal, case)
            else:
                R.implies(f"{prop}/path{i}", pre + p.pc, sympy.Or(*[sympy.And(c, d, sympy.Eq(q, u)) for c, q in pieces_of(w) for d, u in pieces_of(v)]), case)


def run_formula(name, cell, prop, order, real=False):
    cls = find(name, cell)
    try:
        if real:
            raise AttributeError
        got = getattr(bare(cls, cell, order), prop)
    except (AttributeError, TypeError):
        import symfem

        got = getattr(symfem.create_element(cell, cls.names[0], order), prop)
    except NotImplementedError:
        return True, ""
    want = TABLE[name](cell, S(order))[NAMES.index(prop)]
    want = None if S(want) == NONE and "super" in prop else want
    return got == want, f"{prop} of {name} of order {order} on the {cell} is {got} instead of {want}"


# --------------------------------------------------------------------------- the formulas, for every order of monomial families
def lag(cell, e, k):
    """Monomial e lies in the Lagrange space of order k."""
    d = D[cell]
    e = e[:d]
    pos = sympy.And(*[a >= 0 for a in e])
    if cell in SIMPLEX:
        return sympy.And(pos, sum(e) <= k)
    if cell == "prism":
        return sympy.And(pos, e[0] + e[1] <= k, e[2] <= k)
    return sympy.And(pos, *[a <= k for a in e])


def complete(cell, e, k):
    e = e[:D[cell]]
    return sympy.And(*[a >= 0 for a in e], sum(e) <= k)


def box(cell, e, tops):
    e = e[:D[cell]]
    return sympy.And(*[a >= 0 for a in e], *[a <= t for a, t in zip(e, tops)])


# family: (cells, exponents of component 0 of the space of order k)
MONOMIAL = {
    "Lagrange": (("interval", "triangle", "tetrahedron", "prism"), lag), "VectorLagrange": (("interval", "triangle", "tetrahedron", "prism"), lag),
    "Q": (("quadrilateral", "hexahedron"), lag), "VectorQ": (("quadrilateral", "hexahedron"), lag),
    "DPC": (("interval", "quadrilateral", "hexahedron"), complete), "VectorDPC": (("quadrilateral", "hexahedron"), complete),
    "Regge": (("triangle", "tetrahedron"), lag), "BDM": (("triangle", "tetrahedron"), lag), "NedelecSecondKind": (("triangle", "tetrahedron"), lag),
    "HellanHerrmannJohnson": (("triangle", "tetrahedron"), lag), "MatrixLagrange": (("triangle", "tetrahedron"), lag),
    "SymmetricMatrixLagrange": (("triangle", "tetrahedron"), lag), "Taylor": (SIMPLEX, lag), "Bernstein": (SIMPLEX, lag),
    "Nedelec": (("quadrilateral", "hexahedron"), lambda c, e, k: box(c, e, [k - 1, k, k])),
    "RaviartThomas": (("quadrilateral", "hexahedron"), lambda c, e, k: box(c, e, [k, k - 1, k - 1])),
    "ArnoldBoffiFalk": (("quadrilateral",), lambda c, e, k: box(c, e, [k + 2, k])),
}




def monomial(R, name, cell):
    cond = MONOMIAL[name][1]
    cls = find(name, cell)
    k = sympy.Symbol("k", integer=True)
    d = D[cell]
    e = [sympy.Symbol(f"e{i}", integer=True) for i in range(d)] + [S(0)] * (3 - d)
    lo, hi = bounds(cls, cell)
    pre = [k >= (0 if lo is None else lo)] + ([k <= hi] if hi is not None else [])
    f = TABLE[name](cell, k)
    q = sympy.Symbol("q", integer=True)

    def value(w):
        """Conditions that define q as the formula."""
        return sympy.Or(*[sympy.And(c, sympy.Eq(q, v)) if not v.has(sympy.floor) else
                          sympy.And(c, *[sympy.And(g.args[0].as_numer_denom()[0] >= q * g.args[0].as_numer_denom()[1],
                                                   g.args[0].as_numer_denom()[0] < (q + 1) * g.args[0].as_numer_denom()[1]) for g in [v]])
                          for c, v in pieces_of(w)])

    corners = [[S(0)] * 3, [k, S(0), S(0)], [k - 1, S(0), S(0)], [k + 2, k, S(0)], [k, k, k], [k - 1, k, k], [k, k - 1, k - 1], [q + 1, S(0), S(0)],
               [q + 1, q + 1, q + 1], [k + 1, S(0), S(0)], [S(0), k + 1, S(0)], [k, S(0), k], [S(0), q + 1, S(0)]]
    corners = [c[:d] + [S(0)] * (3 - d) for c in corners]
    for i, (sp, prop) in enumerate(zip((lag, lag, complete, complete), NAMES)):
        c = {"kind": "space", "name": name, "cell": cell, "prop": prop}
        h = pre + [value(f[i])]
        if "sub" in prop:
            R.implies(f"{prop}/contained", h + [sp(cell, e, q)], cond(cell, e, k), lambda m: c)
            R.implies(f"{prop}/tight", h, sympy.Or(*[sympy.And(sp(cell, w, q + 1), sympy.Not(cond(cell, w, k))) for w in corners]), lambda m: c)
        else:
            R.implies(f"{prop}/contains", h + [cond(cell, e, k)], sp(cell, e, q), lambda m: c)
            R.implies(f"{prop}/tight", h, sympy.Or(*[sympy.And(cond(cell, w, k), sympy.Not(sp(cell, w, q - 1))) for w in corners]), lambda m: c)


# --------------------------------------------------------------------------- the spaces that are made
def scalars(cell, kind, k):
    d = spec.TDIM[cell]
    if k < 0:
        return []
    if kind == "polynomial" or cell in SIMPLEX:
        return space("polynomial_set_1d", d, 1, k)
    if cell in ("prism", "pyramid"):
        return space(f"{cell}_polynomial_set_1d", 3, 1, k)
    return space("quolynomial_set_1d", d, 1, k)


class Plain:
    def __init__(self, v):
        self.v = v

    def as_sympy(self):
        return self.v


def valued(fs, n, symmetric):
    """All functions with n components in the scalar space (symmetric matrices if symmetric)."""
    if n == 1:
        return [Plain(f) for f in fs]
    if not symmetric:
        return [Plain(tuple(f if i == j else S(0) for j in range(n))) for f in fs for i in range(n)]
    m = {4: 2, 9: 3}[n]
    return [Plain(tuple(f if (i, j) in ((a, b), (b, a)) else S(0) for i in range(m) for j in range(m))) for f in fs for a in range(m) for b in range(a, m)]


def is_symmetric(ps):
    n = len(ps[0][0][1])
    if n not in (4, 9):
        return False
    m = {4: 2, 9: 3}[n]
    return all(sympy.expand(c[i * m + j] - c[j * m + i]) == 0 for p in ps for _, c in p for i in range(m) for j in range(i))


def functions(name, cell, order, kw):
    from checks.E05 import build

    e = build(find(name, cell), cell, order, kw)
    e.cache = False
    try:
        return e, e.get_polynomial_basis()
    except NotImplementedError:
        return e, e.get_basis_functions()


def contained_in(cell, fs, kind, k, n, symmetric, sub):
    sp = span.Space(cell if cell == "pyramid" else None)
    a = sp.rows(fs)
    b = sp.rows(valued(scalars(cell, kind, k), n, symmetric)) if k >= 0 else []
    return span.contained(b, a) if sub else span.contained(a, b)


def run_space(name, cell, order, kw):
    e, fs = functions(name, cell, order, kw)
    ps = [span.pieces(f) for f in fs]
    n, symmetric = len(ps[0][0][1]), is_symmetric(ps)
    top = None
    for kind in ("lagrange", "polynomial"):
        try:
            sub, sup = getattr(e, f"{kind}_subdegree"), getattr(e, f"{kind}_superdegree")
        except NotImplementedError:
            continue
        args = (n, symmetric)
        if sub < -1 or sup is not None and sup < 0:
            return False, f"{kind} degrees {sub}, {sup}"
        if not contained_in(cell, fs, kind, sub, *args, True):
            return False, f"the {kind} space of degree {sub} is not contained"
        if contained_in(cell, fs, kind, sub + 1, *args, True):
            return False, f"the {kind} space of degree {sub + 1} is contained"
        if sup is None:
            if contained_in(cell, fs, kind, 3 * order + 4, *args, False):
                return False, f"is contained in a {kind} space"
        else:
            if not contained_in(cell, fs, kind, sup, *args, False):
                return False, f"is not contained in the {kind} space of degree {sup}"
            if contained_in(cell, fs, kind, sup - 1, *args, False):
                return False, f"is contained in the {kind} space of degree {sup - 1}"
        if kind == "lagrange":
            top = sup
    try:
        m = e.maximum_degree
    except NotImplementedError:
        return True, ""
    if top is not None and m != top:
        return False, f"maximum degree {m} instead of {top}"
    if cell != "pyramid":
        if any(q is not None for p in ps for q, _ in p):
            return True, ""
        d = 0
        for p in ps:
            for c in p[0][1]:
                c = sympy.expand(c)
                if c != 0:
                    d = max([d] + [S(v) for v in flat_measures(cell, [u + (0,) * (3 - len(u)) for u in sympy.Poly(c, *X).monoms()])])
        if m != d:
            return False, f"maximum degree {m} instead of {d}"
    return True, ""


def spaces(R, rows):
    for name, cell, order, kw in rows:
        try:
            ok, why = run_space(name, cell, order, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"{name}-{cell}-{order}/{label(kw)}", ok, why, {"kind": "space", "name": name, "cell": cell, "order": order, "kw": kw})


def listed():
    with open(os.path.join(HERE, "degrees.json")) as f:
        return json.load(f)


def units(tier):
    u = [(f"degree/{cell}/{n}", scalar, cell, n) for cell in MEASURED for n in (1, 2, 3)]
    u += [(f"functions/{cell}", concrete, cell, 60 if tier == "quick" else 400) for cell in MEASURED]
    u += [("entries", entries), ("sets", sets)]
    from checks.E05 import classes

    seen = set()
    for cls, cell, kw in classes():
        n = cls.__name__
        if n in TABLE and cell in D and (n, cell) not in seen:
            seen.add((n, cell))
            u.append((f"declared/{n}-{cell}", formulas, n, cell))
    u += [(f"formulas/{n}-{c}", monomial, n, c) for n, (cells, _) in MONOMIAL.items() for c in cells if (n, c) in seen]
    rows = [r for r in listed() if r[4] <= (8 if tier == "quick" else 120)]
    rows.sort(key=lambda r: -r[4])
    batch, cost = [], 0
    for r in rows:
        batch.append(r[:4])
        cost += r[4]
        if cost > 4:
            u.append((f"spaces/{len(u)}", spaces, batch))
            batch, cost = [], 0
    if batch:
        u.append((f"spaces/{len(u)}", spaces, batch))
    return u


def replay(c):
    k = c["kind"]
    try:
        if k == "monoms":
            ok, text = run_function(c["cell"], [tuple(e) for e in c["monoms"]])
        elif k == "function":
            ok, text = run_concrete(c["cell"], S(sympy.sympify(c["f"], locals={"x": X[0], "y": X[1], "z": X[2]})))
        elif k == "entries":
            got = run_entries(tuple(c["shape"]), [S(v) for v in c["values"]])
            ok, text = got == max(c["values"]), f"degree {got} of entries of degrees {c['values']}"
        elif k == "set":
            got = run_set(c["cell"], [S(v) for v in c["values"]])
            ok, text = got == max(c["values"]), f"degree {got} of functions of degrees {c['values']}"
        elif k == "formula":
            ok, text = run_formula(c["name"], c["cell"], c["prop"], c["order"])
        else:
            ok, text = run_space(c["name"], c["cell"], c.get("order", 2), c.get("kw", {}))
    except Exception as ex:
        return True, f"{type(ex).__name__}: {ex}"
    return not ok, text
