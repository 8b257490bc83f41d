"""E01: basis functions are the dual basis of the declared degrees of freedom."""
from pyvc import env
import itertools
import json
import os
import random

import sympy

from checks.E05 import build, find, orders
from checks.F01 import func
from checks.P01 import space as pspace
from pyvc import spec
from pyvc.exact import zero_number
from pyvc.span import Space, comps, rank
from pyvc.spec import S, X

LEVEL = "proof"
LEVEL_NOTE = ("get_dual_matrix and get_basis_functions run on an element whose functionals take symbolic values on uninterpreted polynomials: the dual matrix, its "
              "inverse and the duality of the functions are proved for all values (symbolically up to 3 functions, on sparse symbolic patterns and random "
              "rationals above). With linear functionals (D01) this is duality for every unisolvent element. Registered elements: duality evaluated exactly, "
              "and spans compared with spaces written from the definitions (bounded).")
TRUSTED = ["functionals are linear and evaluate their definitions (D01)", "sympy's matrix inverse returns an inverse where it returns (checked here on symbolic matrices)"]
ASSUMPTIONS = ["elements with more than 3 functions: the same code on random rational and patterned symbolic matrices (bounded)"]
BOUNDS = "registered elements: all orders whose evaluation takes at most about 3 s, sampled pairs up to 25 s (quick); spans of the families listed in `declared`"


# ---------------------------------------------------------------- contract
SHAPES = {"scalar": 1, "vector": 2, "matrix": 4}


def stub(n, entries, shape="scalar", cache=False):
    """An element with polynomials p0, p1, ... and functionals d_j with d_j(p_i) = entries[i][j], linear."""
    import symfem
    from symfem.finite_element import CiarletElement
    from symfem.functions import ScalarFunction

    P = [[sympy.Function(f"p{i}_{c}")(*X[:2]) for c in range(SHAPES[shape])] for i in range(n)]

    def wrap(cs):
        if shape == "scalar":
            return func(cs[0])
        return tuple(cs) if shape == "vector" else ((cs[0], cs[1]), (cs[2], cs[3]))

    def coefficients(f):
        cs = comps(f)
        if len(cs) != SHAPES[shape]:
            raise ValueError("shape")
        out = []
        for i in range(n):
            c = [sympy.expand(e).coeff(P[i][k]) for k, e in enumerate(cs)]
            if len(set(map(sympy.together, c))) != 1:
                raise ValueError(f"components are combined differently: {c}")
            out.append(c[0])
        return out

    class Dof:
        entity = (2, 0)
        mapping = "identity"

        def __init__(self, j):
            self.j = j

        def eval_symbolic(self, f):
            return ScalarFunction(sum((c * entries[i][self.j] for i, c in enumerate(coefficients(f))), S(0)))

        def eval(self, f, symbolic=True):
            return self.eval_symbolic(f).as_sympy()

    class Stub(CiarletElement):
        def __init__(self):
            super().__init__(symfem.create_reference("triangle"), 1, [wrap(p) for p in P], [Dof(j) for j in range(n)], 2, SHAPES[shape],
                             (2, 2) if shape == "matrix" else None)

        names = ["stub"]
        references = ["triangle"]

    Stub.cache = cache
    e = Stub()
    return e, coefficients


def pattern(kind, n):
    s = lambda i, j: sympy.Symbol(f"d{i}_{j}")  # noqa: E731
    rng = random.Random(f"{env.SEED}:{kind}:{n}")
    if kind == "symbolic":
        return [[s(i, j) for j in range(n)] for i in range(n)]
    if kind == "upper":
        return [[s(i, j) if j >= i else S(0) for j in range(n)] for i in range(n)]
    if kind == "lower":
        return [[s(i, j) if j <= i else S(0) for j in range(n)] for i in range(n)]
    if kind == "cycle":
        return [[s(i, j) if j == (i + 1) % n else S(0) for j in range(n)] for i in range(n)]
    if kind == "zero-corner":
        return [[S(0) if i == j == 0 else s(i, j) for j in range(n)] for i in range(n)]
    if kind == "sparse":
        p = list(range(n))
        rng.shuffle(p)
        return [[s(i, j) if p[i] == j or (i == 0 and j == p[-1]) else S(0) for j in range(n)] for i in range(n)]
    if kind == "roots":
        r = [S(1), sympy.sqrt(2), sympy.sqrt(3), sympy.sqrt(5), S(0), sympy.Rational(1, 3), -sympy.sqrt(6)]
        while True:
            m = [[rng.choice(r) for _ in range(n)] for _ in range(n)]
            if abs(sympy.N(sympy.Matrix(m).det())) > 1e-6:
                return m
    while True:
        m = [[sympy.Rational(rng.randint(-9, 9), rng.randint(1, 5)) if rng.random() < 0.7 else S(0) for _ in range(n)] for _ in range(n)]
        if sympy.Matrix(m).det() != 0:
            return m


def null(e):
    e = S(e)
    if e.is_number:
        return zero_number(e)
    return sympy.cancel(sympy.together(e)) == 0


def run_contract(kind, n, shape, flag):
    m = pattern(kind, n)
    e, coefficients = stub(n, m, shape)
    e.cache = False
    D = e.get_dual_matrix()
    if D.shape != (n, n) or any(not null(D[i, j] - m[i][j]) for i in range(n) for j in range(n)):
        return False, f"dual matrix {D} instead of {m}"
    inv = e.get_dual_matrix(inverse=True)
    prod = sympy.Matrix(m) * inv
    if inv.shape != (n, n) or any(not null(prod[i, j] - (1 if i == j else 0)) for i in range(n) for j in range(n)):
        return False, f"inverse dual matrix {inv}"
    for _ in range(2):
        fs = e.get_basis_functions() if flag is None else e.get_basis_functions(use_tensor_factorisation=flag)
        if len(fs) != n:
            return False, f"{len(fs)} functions"
        for i, f in enumerate(fs):
            c = coefficients(f)
            for k in range(n):
                v = sum((c[q] * m[q][k] for q in range(n)), S(0)) - (1 if i == k else 0)
                if not null(v):
                    return False, f"functional {k} of function {i} is not {int(i == k)}: coefficients {c}"
        if e.get_basis_function(n - 1).get_function().as_sympy() != fs[n - 1].as_sympy():
            return False, "get_basis_function returns another function"
    if [[D[i, j] for j in range(n)] for i in range(n)] != [[e.get_dual_matrix()[i, j] for j in range(n)] for i in range(n)]:
        return False, "the dual matrix changed"
    return True, ""


def contract(R):
    cases = [("symbolic", n, s, f) for n in (1, 2, 3) for s in SHAPES for f in (None, False) if not (n == 3 and (s != "scalar" or f is not None))]
    cases += [(k, n, "scalar", None) for k in ("upper", "lower", "cycle", "sparse") for n in (2, 3, 4, 5) if not (n == 5 and k in ("upper", "lower"))]
    cases += [("zero-corner", 2, "vector", None), ("zero-corner", 3, "scalar", None)]
    for c in cases:
        try:
            ok, why = run_contract(*c)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.ok("/".join(map(str, c)), ok, why, {"kind": "contract", "args": c}, backend="ring")
    for c in [("random", n, s, None) for n in range(1, 9) for s in SHAPES] + [("roots", n, "scalar", None) for n in (2, 3)]:
        try:
            ok, why = run_contract(*c)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded("/".join(map(str, c)), ok, why, {"kind": "contract", "args": c})


SINGULAR = {
    "equal-rows": [["a", "b"], ["a", "b"]],
    "multiple": [["a", "b"], ["2*a", "2*b"]],
    "zero": [["0", "0"], ["0", "0"]],
    "sum": [["1", "2", "3"], ["4", "5", "6"], ["5", "7", "9"]],
    "roots": [["sqrt(2)", "2"], ["1", "sqrt(2)"]],
    "one": [["0"]],
}


def run_singular(name):
    m = [[S(q) for q in r] for r in SINGULAR[name]]
    e, _ = stub(len(m), m)
    e.cache = False
    try:
        fs = e.get_basis_functions()
    except Exception:
        return True, ""
    return False, f"functionals that are not unisolvent gave {[str(f.as_sympy()) for f in fs]}"


def singular(R):
    for n in SINGULAR:
        ok, why = run_singular(n)
        R.bounded(n, ok, why, {"kind": "singular", "name": n})
    ok, why = run_lengths()
    R.bounded("lengths", ok, why, {"kind": "lengths"})


def run_lengths():
    """As many functionals as polynomials."""
    import symfem
    from symfem.finite_element import CiarletElement

    e, _ = stub(3, pattern("symbolic", 3))

    class H(CiarletElement):
        names = ["stub"]

    for basis, dofs in ((e._basis[:2], e.dofs), (e._basis, e.dofs[:2])):
        try:
            h = H(symfem.create_reference("triangle"), 1, basis, dofs, 2, 1)
            h.cache = False
            h.get_basis_functions()
        except Exception:
            continue
        return False, f"{len(basis)} polynomials and {len(dofs)} functionals were accepted"
    return True, ""


# ---------------------------------------------------------------- the declared spaces
def mono(e):
    return sympy.prod([a ** b for a, b in zip(X, e)])


def P(k, d):
    return [mono(e) for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]


def vec(fs, r):
    return [tuple(f if i == j else S(0) for j in range(r)) for f in fs for i in range(r)]


def sym(fs, d):
    return [tuple(f if {a, b} == {i, j} else S(0) for a in range(d) for b in range(d)) for f in fs for i in range(d) for j in range(i, d)]


def bary(cell):
    d = spec.TDIM[cell]
    return [1 - sum(X[:d])] + list(X[:d])


def facets_of(cell):
    """[(parametrisation of the facet, normal)] of a default cell."""
    d = spec.TDIM[cell]
    t = sympy.symbols("s0 s1")
    out = []
    sub = spec.EDGES[cell] if d == 2 else spec.FACES[cell]
    vs = spec.VERTS[cell]
    for f in sub:
        a = vs[f[0]]
        axes = [tuple(S(q) - p for p, q in zip(a, vs[f[k]])) for k in (1, 2)[:d - 1]]
        at = tuple(p + sum(t[k] * ax[i] for k, ax in enumerate(axes)) for i, p in enumerate(a))
        n = (axes[0][1], -axes[0][0]) if d == 2 else spec.cross(*axes)
        out.append((at, n))
    return out


def high_part(e, variables, degree):
    """The coefficients of terms of degree above the given one."""
    p = sympy.Poly(sympy.expand(e), *variables)
    return {m: c for m, c in p.terms() if sum(m) > degree and c != 0}


def restrict(f, at):
    return S(f).subs(dict(zip(X, at)), simultaneous=True)


def declared(name, cell, k):
    """('span', functions) or ('constrained', functions, constraint): the space from its definition; None where not listed."""
    d = spec.TDIM[cell]
    simplex = cell in spec.SIMPLEX
    t = sympy.symbols("s0 s1")[:d - 1]
    if name == "Lagrange" and cell == "prism":
        return "span", pspace("prism_polynomial_set_1d", 3, None, k)
    if name == "Lagrange" and cell == "pyramid":
        return "span", pspace("pyramid_polynomial_set_1d", 3, None, k)
    if name in ("Lagrange", "DPC", "Bernstein", "Taylor", "CrouzeixRaviart", "Hermite", "Argyris", "Morley", "FortinSoulie", "MorleyWangXu"):
        return "span", P(k, d)
    if name == "Serendipity":
        return "span", P(k, d) + (pspace("serendipity_set_1d", d, None, k) if d > 1 else [])
    if name in ("VectorLagrange", "BDM", "NedelecSecondKind", "VectorDPC"):
        return "span", vec(P(k, d), d)
    if name == "MatrixLagrange":
        return "span", vec(P(k, d), d * d)
    if name in ("SymmetricMatrixLagrange", "Regge", "HellanHerrmannJohnson"):
        return "span", sym(P(k, d), d)
    if name == "NedelecFirstKind":
        return "span", vec(P(k - 1, d), d) + pspace("Hcurl_polynomials", d, d, k)
    if name == "RaviartThomas" and simplex:
        return "span", vec(P(k - 1, d), d) + pspace("Hdiv_polynomials", d, d, k)
    if name == "Nedelec" and cell == "prism":
        tri = vec(P(k - 1, 2), 2) + pspace("Hcurl_polynomials", 2, 2, k)
        return "span", [(f[0] * X[2] ** i, f[1] * X[2] ** i, S(0)) for f in tri for i in range(k + 1)] + [
            (S(0), S(0), f * X[2] ** i) for f in P(k, 2) for i in range(k)]
    box = lambda tops: [mono(e) for e in itertools.product(*[range(q + 1) for q in tops])]  # noqa: E731
    if name == "Q":
        return "span", box([k] * d)
    if name == "VectorQ":
        return "span", vec(box([k] * d), d)
    if name in ("Nedelec", "RaviartThomas"):
        own, other = (k - 1, k) if name == "Nedelec" else (k, k - 1)
        return "span", [tuple(f if i == j else S(0) for j in range(d)) for i in range(d) for f in box([own if j == i else other for j in range(d)])]
    if name == "ArnoldBoffiFalk":
        return "span", [(f, S(0)) for f in box([k + 2, k])] + [(S(0), f) for f in box([k, k + 2])]
    if name == "HuangZhang":
        return "span", [(f, S(0)) for f in box([k, k - 1])] + [(S(0), f) for f in box([k - 1, k])]
    if name == "AC":
        sup = pspace("Hdiv_serendipity", 2, 2, k) if k else [(X[0], -X[1])]
        return "span", vec(P(k, 2), 2) + pspace("Hdiv_polynomials", 2, 2, k + 1) + sup
    if name in ("SerendipityCurl", "SerendipityDiv"):
        return "span", vec(P(k, d), d) + pspace("Hcurl_serendipity" if name == "SerendipityCurl" else "Hdiv_serendipity", d, d, k)
    if name == "BDDF":
        rot = [tuple(sympy.diff(f[(i + 2) % 3], X[(i + 1) % 3]) - sympy.diff(f[(i + 1) % 3], X[(i + 2) % 3]) for i in range(3)) for f in [
            v for j in range(k + 1) for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) for v in [
                tuple(X[a] * X[b] ** (j + 1) * X[c] ** (k - j) if i == c else S(0) for i in range(3))]]]
        return "span", vec(P(k, 3), 3) + rot
    if name == "TNT":
        return "span", box([k] * d) + [X[i] ** (k + 1) * mono([0 if j == i else e[j - (j > i)] for j in range(d)])
                                       for i in range(d) for e in itertools.product((0, 1), repeat=d - 1)]
    if name == "BognerFoxSchmit":
        return "span", box([3, 3])
    if name == "RannacherTurek":
        return "span", [S(1)] + list(X[:d]) + [X[i] ** 2 - X[i + 1] ** 2 for i in range(d - 1)]
    if name == "Bubble":
        b = sympy.prod(bary(cell)) if simplex else sympy.prod([v * (1 - v) for v in X[:d]])
        return "span", [b * f for f in (P(k - d - 1, d) if simplex else box([k - 2] * d))]
    if name == "WuXu":
        return "span", P(k, d) + [sympy.prod(bary(cell)) * f for f in P(1, d)]
    if name == "KongMulderVeldhuizen" and (cell, k) != ("tetrahedron", 2):
        return "span", P(k, d) + ([sympy.prod(bary(cell)) * f for f in P(k - 2, d)] if k > 1 else [])
    if name == "BernardiRaugel":
        lam = bary(cell)
        out = vec(P(k, d), d)
        for i in range(d + 1):
            b = sympy.prod([q for j, q in enumerate(lam) if j != i])
            out.append(tuple(b * sympy.diff(lam[i], v) for v in X[:d]))
        if k == 2:
            out += vec([sympy.prod(lam)], 3)
        return "span", out
    if name == "BDFM":
        fac = facets_of(cell)

        def c(f):
            return [(i, m, q) for i, (at, n) in enumerate(fac) for m, q in high_part(sum(restrict(g, at) * m for g, m in zip(f, n)), t, k - 1).items()]
        return "constrained", vec(P(k, d), d), c
    if name == "Bell":
        fac = facets_of(cell)

        def c(f):
            return [(i, m, q) for i, (at, n) in enumerate(fac)
                    for m, q in high_part(sum(restrict(sympy.diff(f[0], v), at) * w for v, w in zip(X, n)), t, 3).items()]
        return "constrained", [(f,) for f in P(5, 2)], c
    if name == "MardalTaiWinther" and d == 2:
        fac = facets_of(cell)

        def c(f):
            out = [("div", m, q) for m, q in high_part(sum(sympy.diff(g, v) for g, v in zip(f, X)), X[:2], 0).items()]
            return out + [(i, m, q) for i, (at, n) in enumerate(fac) for m, q in high_part(sum(restrict(g, at) * w for g, w in zip(f, n)), t, 1).items()]
        return "constrained", vec(P(3, 2), 2), c
    if name == "MardalTaiWinther":
        b = sympy.prod(bary(cell))
        curl = lambda f: tuple(sympy.diff(f[(i + 2) % 3], X[(i + 1) % 3]) - sympy.diff(f[(i + 1) % 3], X[(i + 2) % 3]) for i in range(3))  # noqa: E731
        return "span", vec(P(1, 3), 3) + [curl(tuple(b * q for q in f)) for f in vec(P(1, 3), 3)]
    if name == "ArnoldWinther":
        def c(f):
            return [(i, m, q) for i in range(2) for m, q in high_part(sum(sympy.diff(f[2 * i + j], X[j]) for j in range(2)), X[:2], k - 2).items()]
        return "constrained", sym(P(k, 2), 2), c
    if name == "NonConformingArnoldWinther":
        fac = facets_of(cell)

        def c(f):
            return [(i, m, q) for i, (at, n) in enumerate(fac)
                    for m, q in high_part(sum(restrict(f[2 * a + b], at) * n[a] * n[b] for a in range(2) for b in range(2)), t, 1).items()]
        return "constrained", sym(P(2, 2), 2), c
    return None


def run_space(name, cell, order, kw):
    fs = made(name, cell, order, kw).get_basis_functions()
    want = declared(name, cell, order)
    sp = Space(cell)
    rows = sp.rows(fs)
    rb = rank(rows)
    if rb != len(fs):
        return False, f"{len(fs)} functions span {rb} dimensions"
    if want is None:
        return True, "independent"
    con = None
    if want[0] == "constrained":
        con = want[2]
    sup = sp.rows([w if isinstance(w, tuple) else (w,) for w in want[1]])
    dim = rank(sup)
    if rank(rows + sup) != dim:
        return False, f"functions outside the space of dimension {dim}"
    if con is not None:
        dim -= rank([{(a, b): q for a, b, q in con([S(g) for g in w])} for w in want[1]])
        for i, f in enumerate(fs):
            bad = [x for x in con(comps(f)) if not zero_number(x[2])]
            if bad:
                return False, f"function {i} breaks the constraint {bad[0]}"
    return dim == rb, f"{rb} functions; the space has dimension {dim}"


_made = [None, None]


def made(name, cell, order, kw):
    """The element, with its functions computed without the matrix cache."""
    key = (name, cell, order, str(kw))
    if _made[0] != key:
        e = build(find(name, cell), cell, order, kw)
        e.cache = False
        e.get_basis_functions()
        _made[:] = [key, e]
    return _made[1]


def run_real(name, cell, order, kw, limit, pairs=None):
    """limit: seconds that all evaluations would take over those wanted (pairs are sampled)."""
    e = made(name, cell, order, kw)
    fs = e.get_basis_functions()
    n = len(e.dofs)
    if len(fs) != n:
        return False, f"{n} functionals and {len(fs)} functions", None
    if pairs is None:
        pairs = [(i, j) for i in range(n) for j in range(n)]
        if limit < 1:
            rng = random.Random(f"{env.SEED}:{name}:{cell}:{order}:{kw}")
            keep = max(2, int(len(pairs) * limit))
            diag = rng.sample(range(n), min(n, max(1, keep // 3)))
            off = [p for p in pairs if p[0] != p[1]]
            pairs = [(i, i) for i in diag] + rng.sample(off, min(len(off), keep - len(diag)))
    for i, j in pairs:
        v = S(e.dofs[i].eval(fs[j]))
        if not zero_number(v - (1 if i == j else 0)):
            return False, f"functional {i} of function {j} is {v}", (i, j)
    return True, "", None


COSTS = [tuple(r) for r in json.load(open(os.path.join(os.path.dirname(__file__), "costs.json")))]
SPECIAL = {"Regge": [{"variant": "point"}, {"variant": "integral"}]}


def real(R, rows):
    for name, cell, order, kw, limit in rows:
        case = {"kind": "real", "name": name, "cell": cell, "order": order, "kw": kw}
        where = f"{order}/{label(kw)}"
        pair = None
        try:
            ok, why, pair = run_real(name, cell, order, kw, limit)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"{where}/dual", ok, why, {**case, "pairs": [pair] if pair else None, "limit": limit})
        if (not ok and pair is None) or kw.get("variant", "equispaced") in ("lobatto", "legendre", "radau", "gll"):
            continue  # the space does not depend on the variant
        try:
            ok, why = run_space(name, cell, order, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"{where}/span", ok, why, {**case, "kind": "space"})


def variants():
    """(class name, cell, keyword arguments) of everything registered."""
    from checks.E05 import classes

    out = []
    for cls, cell, kw in classes():
        name = cls.__name__
        if cell == "dual polygon":
            continue
        kws = [kw]
        if name in SPECIAL and kw:
            kws = SPECIAL[name]
        if name == "Transition":
            kws = [dict(kw, edge_orders=list(q)) for q in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 3, 1), (1, 2, 3))]
            if cell == "tetrahedron":
                kws = [dict(kw, edge_orders=list(q), face_orders=list(f)) for q, f in (
                    ((1,) * 6, (1,) * 4), ((2, 1, 1, 1, 1, 1), (1,) * 4), ((1, 1, 1, 1, 3, 1), (3, 1, 4, 1)), ((1,) * 6, (1, 1, 1, 3)))]
            if kw["variant"] != "equispaced":
                kws = kws[:2]
        out += [(name, cell, k) for k in kws if (name, cell, k) not in out]
    return out


def label(kw):
    return "".join(f"{v}".replace(" ", "").replace("[", "-").replace("]", "").replace(",", "") for v in kw.values()) or "default"


def units(tier):
    u = []
    full, top = (1.5, 12) if tier == "quick" else (20, 120)
    groups = {}
    for cell, name, order, kw, n, b, t, s in COSTS:
        if b + s > top:
            continue
        if tier == "quick" and kw.get("variant", "equispaced") in ("lobatto", "legendre", "radau", "gll") and b + t > full:
            continue
        limit = 1 if b + t <= full else full / t / 2
        groups.setdefault((name, cell), []).append((b + min(t, limit * t) + s + 0.1, (name, cell, order, kw, limit)))
    for (name, cell), rows in groups.items():
        part, cost, k = [], 0, 0
        for c, r in rows + [(1e9, None)]:
            if part and cost + c > 5:
                u.append((cost, (f"element/{name}/{cell}/{k}", real, part)))
                part, cost, k = [], 0, k + 1
            part.append(r)
            cost += c
    return [("contract", contract), ("singular", singular)] + [q for _, q in sorted(u, key=lambda x: -x[0])]


def replay(c):
    k = c["kind"]
    try:
        if k == "contract":
            ok, why = run_contract(*c["args"])
        elif k == "singular":
            ok, why = run_singular(c["name"])
        elif k == "lengths":
            ok, why = run_lengths()
        elif k == "space":
            ok, why = run_space(c["name"], c["cell"], c["order"], c["kw"])
        else:
            ok, why, _ = run_real(c["name"], c["cell"], c["order"], c["kw"], c["limit"], [tuple(p) for p in c["pairs"]] if c["pairs"] else None)
    except Exception as ex:
        ok, why = False, repr(ex)
    return not ok, f"{c}: {why}"
