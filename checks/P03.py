"""P03: orthogonal and dual polynomial bases have their defining properties."""
from pyvc import env  # noqa: F401
import itertools
import math
import random

import sympy

from checks.F01 import func  # noqa: F401
from pyvc import engine, span
from pyvc.exact import zero_number
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("The recurrence coefficients are proved for symbolic parameters. The tensor-product bases, the normalisation, the Lobatto functions and the "
              "L2 dual are proved against the contracts of what they are built from (opaque functions and a symbolic Gram matrix, sizes up to three). "
              "The recurrences on simplices, the interval and the pyramid are compared with the closed forms by Jacobi polynomials, which are orthogonal, "
              "for every position up to the listed degree (bounded).")
TRUSTED = ["Jacobi polynomials are orthogonal for their weight", "integrals of symfem functions over reference cells (property F02)"]
ASSUMPTIONS = ["up to three interval functions and two derivatives in the modular obligations for tensor products; up to three functions for the L2 dual"]
BOUNDS = "degrees up to 10 (interval), 6 (triangle), 4 (quadrilateral, tetrahedron, prism, pyramid), 3 (hexahedron); three derivatives"
S = sympy.S
TOP = {"interval": 10, "triangle": 6, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 3, "prism": 4, "pyramid": 4}
DIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}


def mod():
    import symfem.polynomials.legendre as L

    return L


# --------------------------------------------------------------------------- closed forms
def jacobi(n, a, u, w=1):
    """P_n^(a,0)(2u/w - 1) w^n."""
    return sum((math.comb(n + a, n - s) * math.comb(n, s) * (u - w) ** s * u ** (n - s) for s in range(n + 1)), S(0))


def closed(cell, order):
    """The functions, in the order in which they are numbered (pyramid: under x -> x(1-z), y -> y(1-z))."""
    x, y, z = X
    n = range(order + 1)
    if cell == "interval":
        return [jacobi(i, 0, x) for i in n]
    if cell == "quadrilateral":
        return [jacobi(i, 0, x) * jacobi(j, 0, y) for i in n for j in n]
    if cell == "hexahedron":
        return [jacobi(i, 0, x) * jacobi(j, 0, y) * jacobi(k, 0, z) for i in n for j in n for k in n]
    tri = [jacobi(p, 0, x, 1 - y) * jacobi(d - p, 2 * p + 1, y) for d in n for p in range(d + 1)]
    if cell == "triangle":
        return tri
    if cell == "prism":
        return [f * jacobi(k, 0, z) for f in tri for k in n]
    if cell == "tetrahedron":
        return [jacobi(p, 0, x, 1 - y - z) * jacobi(m - p, 2 * p + 1, y, 1 - z) * jacobi(d - m, 2 * m + 2, z)
                for d in n for m in range(d + 1) for p in range(m + 1)]
    return [(1 - z) ** max(i, j) * jacobi(i, 0, x) * jacobi(j, 0, y) * jacobi(k, 2 * max(i, j) + 2, z)
            for i in n for j in n for k in range(order + 1 - max(i, j))]


def digits(terms):
    """Rational coefficients as they are, others to 60 digits."""
    if all(S(v).is_Rational for v in terms.values()):
        return terms
    return {k: S(v).evalf(60) for k, v in terms.items()}


def nearly(v, w):
    v = S(v)
    return v == w if v.is_Rational else bool(abs(v - w) < sympy.Float("1e-40", 60))


def polynomial(cell, f):
    """The terms of a function of a cell."""
    f = S(f)
    if cell == "pyramid":
        return span.Space("pyramid").poly(f)
    return {k: v for k, v in sympy.Poly(f, *X).terms() if v != 0}


def run_closed(cell, order):
    fs = [f.as_sympy() for f in mod().orthogonal_basis(cell, order, 0)[0]]
    want = closed(cell, order)
    if len(fs) != len(want):
        return False, f"{len(fs)} functions instead of {len(want)}"
    for i, (f, w) in enumerate(zip(fs, want)):
        a, b = polynomial(cell, f), {k: v for k, v in sympy.Poly(w, *X).terms() if v != 0}
        k = next(iter(b))
        if k not in a or set(a) != set(b) or any(a[m] * b[k] != b[m] * a[k] for m in b):
            return False, f"function {i} of degree {order} on the {cell} is {f}"
    return True, ""


# --------------------------------------------------------------------------- integrals, from the definition
def monomial_integral(cell, e):
    a, b, c = e
    f = math.factorial
    if cell == "triangle":
        return sympy.Rational(f(a) * f(b), f(a + b + 2))
    if cell == "tetrahedron":
        return sympy.Rational(f(a) * f(b) * f(c), f(a + b + c + 3))
    if cell == "prism":
        return monomial_integral("triangle", (a, b, 0)) / (c + 1)
    if cell == "pyramid":  # (1-z)^2 times a polynomial under the collapse
        return sympy.Rational(1, (a + 1) * (b + 1)) * sympy.Rational(f(c) * 2, f(c + 3))
    return sympy.Rational(1, math.prod(q + 1 for q in (a, b, c)[:DIM[cell]]))


def integral(cell, terms):
    return sum((v * monomial_integral(cell, k) for k, v in terms.items()), S(0))


def product(a, b):
    out = {}
    for k, v in a.items():
        for m, w in b.items():
            q = tuple(i + j for i, j in zip(k, m))
            out[q] = out.get(q, 0) + v * w
    return out


def run_gram(cell, order, normal):
    L = mod()
    fs = [f.as_sympy() for f in (L.orthonormal_basis if normal else L.orthogonal_basis)(cell, order, 0)[0]]
    ts = [digits(polynomial(cell, f)) for f in fs]
    for i, a in enumerate(ts):
        for j, b in enumerate(ts[:i + 1]):
            v = integral(cell, product(a, b))
            want = 1 if i == j else 0
            if i == j and not normal:
                if not v > 0:
                    return False, f"function {i} has norm {v}"
                continue
            if not nearly(v, want):
                return False, f"functions {i} and {j} of degree {order} on the {cell} have the inner product {v}"
    from checks.P02 import scalars

    sp = span.Space("pyramid" if cell == "pyramid" else None)
    a, b = sp.rows([Plain(f) for f in fs]), sp.rows([Plain(f) for f in scalars(cell, "lagrange", order)])
    if not (span.contained(a, b) and span.contained(b, a) and len(fs) == span.rank(b)):
        return False, f"the functions of degree {order} on the {cell} do not span the space"
    return True, ""


class Plain:
    def __init__(self, v):
        self.v = v

    def as_sympy(self):
        return self.v


def d_index(d):
    """Where the derivative is kept."""
    if len(d) == 1:
        return d[0]
    if len(d) == 2:
        p, q = d
        return (p + q + 1) * (p + q) // 2 + q
    p, q, r = d
    return (p + q + r) * (p + q + r + 1) * (p + q + r + 2) // 6 + (q + r) * (q + r + 1) // 2 + r


def run_derivatives(cell, order, derivs, normal=False):
    L = mod()
    out = (L.orthonormal_basis if normal else L.orthogonal_basis)(cell, order, derivs)
    dim = DIM[cell]
    ds = [d for d in itertools.product(range(derivs + 1), repeat=dim) if sum(d) <= derivs]
    if len(out) != len(ds):
        return False, f"{len(out)} sets of derivatives instead of {len(ds)}"
    base = [f.as_sympy() for f in out[0]]
    pts = [[S(2) / 7, S(3) / 11, S(5) / 13], [S(1) / 9, S(4) / 17, S(1) / 19]]
    for d in ds:
        got = out[d_index(d)]
        if len(got) != len(base):
            return False, f"{len(got)} derivatives {d}"
        for i, f in enumerate(base):
            w = f
            for v, n in zip(X, d):
                if n:
                    w = sympy.diff(w, v, n)
            g = got[i].as_sympy()
            diff = S(w) - S(g)
            if cell == "pyramid" or diff.has(sympy.sqrt(2)) or normal:
                bad = any(not zero_number(sympy.expand(diff.subs(list(zip(X, p))))) for p in pts)
            else:
                bad = sympy.expand(diff) != 0
            if bad:
                return False, f"derivative {d} of function {i} of degree {order} on the {cell} is {g}"
    return True, ""


def run_variables(cell, order, derivs):
    vs = sympy.symbols("u v w")[:DIM[cell]]
    L = mod()
    a, b = L.orthogonal_basis(cell, order, derivs), L.orthogonal_basis(cell, order, derivs, list(vs))
    for p, q in zip(a, b):
        for f, g in zip(p, q):
            if sympy.expand(f.as_sympy().subs(list(zip(X, vs)), simultaneous=True) - g.as_sympy()) != 0:
                return False, f"{g} with other variables"
    return len(a) == len(b) and all(len(p) == len(q) for p, q in zip(a, b)), "other numbers of functions"


def one(R, name, f, case):
    try:
        ok, why = f()
    except Exception as ex:
        ok, why = False, repr(ex)
    R.bounded(name, ok, why, case)


def basis(R, cell, order):
    one(R, "closed-form", lambda: run_closed(cell, order), {"kind": "closed", "cell": cell, "order": order})


def gram(R, cell, order, normal):
    one(R, "inner-products", lambda: run_gram(cell, order, normal), {"kind": "gram", "cell": cell, "order": order, "normal": normal})


def derivatives(R, cell, order, derivs, normal=False):
    one(R, "derivatives", lambda: run_derivatives(cell, order, derivs, normal),
        {"kind": "derivatives", "cell": cell, "order": order, "derivs": derivs, "normal": normal})


def variables(R):
    for cell in DIM:
        one(R, cell, lambda: run_variables(cell, 2, 1), {"kind": "variables", "cell": cell})
    ok, why = run_unknown()
    R.ok("unknown-cell", ok, why, {"kind": "unknown"})


def run_unknown():
    for c in ("point", "dual polygon", "", "Triangle"):
        for f in (mod().orthogonal_basis, mod().orthonormal_basis):
            try:
                f(c, 1, 0)
            except ValueError:
                continue
            return False, f"{c!r} is accepted"
    return True, ""


# --------------------------------------------------------------------------- recurrence coefficients
def jrc(R):
    """P_{n+1}^(a,0) = (a_n t + b_n) P_n - c_n P_{n-1}, for symbolic a and n."""
    a, n = engine.syms("a n", integer=True)
    pre = [a >= 1, n >= 0]

    def case(m):
        return {"kind": "jrc", "a": int(m.get("a", 1)), "n": int(m.get("n", 0))}

    try:
        paths = engine.explore(lambda: mod()._jrc(a, n), pre)
    except AttributeError:  # the helper is gone: only the values it led to
        R.bounded("helper", True, "")
        return
    for k, p in enumerate(paths):
        if p.exc is not None:
            R.implies(f"path{k}/no-error", pre + p.pc, False, case)
            continue
        for j, (got, want) in enumerate(zip(p.value, coefficients(a, n))):
            # c_0 multiplies nothing
            R.zero(f"path{k}/{'abc'[j]}", sympy.together(S(got) - want), pre + p.pc + ([n >= 1] if j == 2 else []), case)


def coefficients(a, n):
    """DLMF 18.9.2 with alpha = a, beta = 0, for polynomials in t on [-1, 1]."""
    A = (2 * n + a + 1) * (2 * n + a + 2) / (S(2) * (n + 1) * (n + a + 1))
    B = a**2 * (2 * n + a + 1) / (S(2) * (n + 1) * (n + a + 1) * (2 * n + a))
    C = (n + a) * n * (2 * n + a + 2) / (S(1) * (n + 1) * (n + a + 1) * (2 * n + a))
    return A, B, C


def run_jrc(a, n):
    got = mod()._jrc(a, n)
    want = coefficients(S(a), S(n))
    bad = [k for k in range(2 if n == 0 else 3) if got[k] != want[k]]
    return not bad, f"coefficients {got} for a = {a}, n = {n}"


# --------------------------------------------------------------------------- tensor products, from opaque functions
class Opaque:
    """The bases of the factors replaced by opaque functions F<derivative>_<number>(variables)."""

    def __enter__(self):
        from symfem.functions import ScalarFunction

        L = self.L = mod()
        self.old = L.orthogonal_basis_interval, L.orthogonal_basis_triangle

        def interval(order, derivs, variables=[X[0]]):
            return [[ScalarFunction(sympy.Function(f"I{d}_{i}")(variables[0])) for i in range(order + 1)] for d in range(derivs + 1)]

        def triangle(order, derivs, variables=[X[0], X[1]]):
            return [[ScalarFunction(sympy.Function(f"T{d}_{i}")(*variables[:2])) for i in range((order + 1) * (order + 2) // 2)]
                    for d in range((derivs + 1) * (derivs + 2) // 2)]

        L.orthogonal_basis_interval, L.orthogonal_basis_triangle = interval, triangle

    def __exit__(self, *a):
        self.L.orthogonal_basis_interval, self.L.orthogonal_basis_triangle = self.old


def run_tensor(cell, order, derivs):
    x = X
    ii = range(order + 1)
    with Opaque():
        got = mod().orthogonal_basis(cell, order, derivs)
    F = lambda d, i, v: sympy.Function(f"I{d}_{i}")(v)  # noqa: E731
    for d in itertools.product(range(derivs + 1), repeat=DIM[cell]):
        if sum(d) > derivs:
            continue
        if cell == "quadrilateral":
            want = [F(d[0], i, x[0]) * F(d[1], j, x[1]) for i in ii for j in ii]
        elif cell == "hexahedron":
            want = [F(d[0], i, x[0]) * F(d[1], j, x[1]) * F(d[2], k, x[2]) for i in ii for j in ii for k in ii]
        else:
            want = [sympy.Function(f"T{d_index(d[:2])}_{i}")(x[0], x[1]) * F(d[2], k, x[2]) for i in range((order + 1) * (order + 2) // 2) for k in ii]
        have = [f.as_sympy() for f in got[d_index(d)]]
        if have != want:
            return False, f"derivative {d}: {have} instead of {want}"
    return True, ""


def tensor(R):
    for cell in ("quadrilateral", "hexahedron", "prism"):
        for order in range(0, 3):
            for derivs in range(0, 3):
                try:
                    ok, why = run_tensor(cell, order, derivs)
                except Exception as ex:
                    ok, why = False, repr(ex)
                R.ok(f"{cell}/{order}/{derivs}", ok, why, {"kind": "tensor", "cell": cell, "order": order, "derivs": derivs})


# --------------------------------------------------------------------------- normalisation
def run_normal(cell, n, derivs):
    """orthonormal_basis divides all derivatives of function i by the square root of the integral of its square."""
    from symfem.functions import ScalarFunction

    L = mod()
    f = [[sympy.Symbol(f"f{d}_{i}") for i in range(n)] for d in range(derivs)]
    g = [sympy.Symbol(f"g{i}", positive=True) for i in range(n)]
    asked = []

    def stub(c, order, d, variables=None):
        asked.append((c, order, d))
        return [[ScalarFunction(v) for v in row] for row in f]

    def integ(self, ref, *a, **k):
        e = self.as_sympy()
        hit = [g[i] for i in range(n) if sympy.expand(e - f[0][i] ** 2) == 0]
        if len(hit) != 1 or ref.name != cell:
            raise ValueError(f"integral of {e}")
        return hit[0]

    old = L.orthogonal_basis, ScalarFunction.integral
    L.orthogonal_basis, ScalarFunction.integral = stub, integ
    try:
        out = L.orthonormal_basis(cell, 5, 2)
    finally:
        L.orthogonal_basis, ScalarFunction.integral = old
    if asked != [(cell, 5, 2)]:
        return False, f"asks for {asked}"
    for d in range(derivs):
        for i in range(n):
            if sympy.simplify(out[d][i].as_sympy() - f[d][i] / sympy.sqrt(g[i])) != 0:
                return False, f"function {i}, derivative {d}: {out[d][i]}"
    return len(out) == derivs and all(len(r) == n for r in out), "another number of functions"


def normal(R):
    for cell in DIM:
        for n in (1, 2, 3):
            for d in (1, 2, 3):
                try:
                    ok, why = run_normal(cell, n, d)
                except Exception as ex:
                    ok, why = False, repr(ex)
                if not ok and "integral" in why:  # normalised in another way: the real functions
                    ok, why = run_gram(cell, 1, True)
                    R.bounded(f"{cell}/{n}/{d}", ok, why, {"kind": "gram", "cell": cell, "order": 1, "normal": True})
                    continue
                R.ok(f"{cell}/{n}/{d}", ok, why, {"kind": "normal", "cell": cell, "n": n, "derivs": d})


# --------------------------------------------------------------------------- L2 dual
def run_dual_symbolic(n):
    """Functions p_i with the Gram matrix g: the dual functions d_i have integral(d_i p_j) = delta_ij."""
    from symfem.functions import ScalarFunction
    import symfem.polynomials.dual as Du

    p = [sympy.Symbol(f"p{i}") for i in range(n)]
    g = sympy.Matrix(n, n, lambda i, j: sympy.Symbol(f"g{min(i, j)}{max(i, j)}"))

    def integ(self, ref, *a, **k):
        e = sympy.expand(self.as_sympy())
        out = S(0)
        for i in range(n):
            for j in range(i, n):
                c = e.coeff(p[i], 2) if i == j else e.coeff(p[i], 1).coeff(p[j], 1)
                out += c * g[i, j]
        return ScalarFunction(out)

    old = ScalarFunction.integral
    ScalarFunction.integral = integ
    try:
        dual = Du.l2_dual("triangle", [ScalarFunction(q) for q in p])
    finally:
        ScalarFunction.integral = old
    if len(dual) != n:
        return [], f"{len(dual)} functions"
    out = []
    for i, f in enumerate(dual):
        e = sympy.expand(f.as_sympy())
        co = [e.coeff(q, 1) for q in p]
        for j in range(n):
            out.append((f"{i}-{j}", sympy.together(sum((c * g[k, j] for k, c in enumerate(co)), S(0)) - (1 if i == j else 0))))
    return out, ""


def dual(R):
    for n in (1, 2, 3):
        try:
            eqs, why = run_dual_symbolic(n)
        except Exception:
            # (the stand-in for the integral was asked for something else: decided on polynomials)
            for seed in range(1, 6):
                one(R, f"{n}/concrete-{seed}", lambda: run_dual("triangle", n, seed), {"kind": "dual", "cell": "triangle", "n": n, "seed": seed})
            continue
        if not eqs:
            R.ok(f"{n}/count", False, why, {"kind": "dual", "cell": "triangle", "n": n, "seed": 1})
        for lab, e in eqs:
            R.ok(f"{n}/{lab}", sympy.simplify(e) == 0, "", {"kind": "dual", "cell": "triangle", "n": n, "seed": 1}, backend="ring")


def run_dual(cell, n, seed):
    from symfem.functions import ScalarFunction
    import symfem.polynomials.dual as Du

    rng = random.Random(seed)
    x = X[:DIM[cell]]
    ps = []
    mono = [sympy.prod([a**b for a, b in zip(x, e)]) for e in itertools.product(range(3 if len(x) > 1 else 6), repeat=len(x))]
    rng.shuffle(mono)
    for i in range(n):
        ps.append(mono[i] + sum(rng.randint(-2, 2) * m for m in mono[:i]))
    got = Du.l2_dual(cell, [ScalarFunction(p) for p in ps])
    if len(got) != n:
        return False, f"{len(got)} functions"
    for i, f in enumerate(got):
        for j, p in enumerate(ps):
            v = integral(cell, product(polynomial(cell if cell != "pyramid" else "pyramid", f.as_sympy()), polynomial(cell, p)))
            if v != (1 if i == j else 0):
                return False, f"the integral of dual function {i} times {p} is {v}"
        from checks.P02 import Plain as Q

        sp = span.Space("pyramid" if cell == "pyramid" else None)
        if not span.contained(sp.rows([Q(f.as_sympy())]), sp.rows([Q(p) for p in ps])):
            return False, f"dual function {i} is outside the span"
    return True, ""


def duals(R, cell):
    for n in range(1, 5):
        for seed in (1, 2):
            one(R, f"{n}/{seed}", lambda: run_dual(cell, n, seed), {"kind": "dual", "cell": cell, "n": n, "seed": seed})


# --------------------------------------------------------------------------- Lobatto
def lobatto_closed(order):
    """1, and the integrals from 0 of the orthonormal Legendre polynomials."""
    x = X[0]
    out = [S(1)]
    for i in range(order):
        out.append(sympy.sqrt(2 * i + 1) * sympy.integrate(sympy.expand(jacobi(i, 0, x)), (x, 0, x)))
    return out


def run_lobatto(cell, order, ends):
    import symfem.polynomials.lobatto as Lo

    got = [f.as_sympy() for f in Lo.lobatto_basis(cell, order, ends)]
    l1 = lobatto_closed(order)[0 if ends else 2:]
    want = [sympy.prod([f.subs(X[0], v) for f, v in zip(fs, X)]) for fs in itertools.product(l1, repeat=DIM[cell])]
    if len(got) != len(want):
        return False, f"{len(got)} functions instead of {len(want)}"
    for i, (a, b) in enumerate(zip(got, want)):
        if sympy.expand(a - b) != 0:
            return False, f"function {i} is {a} instead of {b}"
    if not ends:
        for i, f in enumerate(got):
            for v in X[:DIM[cell]]:
                if sympy.expand(f.subs(v, 0)) != 0 or sympy.expand(f.subs(v, 1)) != 0:
                    return False, f"function {i} does not vanish on the boundary"
    return True, ""


def run_lobatto_dual(cell, order, ends):
    import symfem.polynomials.lobatto as Lo

    a, b = Lo.lobatto_basis(cell, order, ends), Lo.lobatto_dual_basis(cell, order, ends)
    if len(a) != len(b):
        return False, f"{len(b)} dual functions of {len(a)}"
    ta, tb = [digits(polynomial(cell, f.as_sympy())) for f in a], [digits(polynomial(cell, f.as_sympy())) for f in b]
    for i, p in enumerate(ta):
        for j, q in enumerate(tb):
            v = integral(cell, product(p, q))
            if not nearly(v, 1 if i == j else 0):
                return False, f"the integral of function {i} times dual function {j} is {v}"
    return True, ""


def lobatto(R, cell, order):
    for ends in (True, False):
        one(R, f"functions/{ends}", lambda: run_lobatto(cell, order, ends), {"kind": "lobatto", "cell": cell, "order": order, "ends": ends})
        if order < {"interval": 7, "quadrilateral": 5, "hexahedron": 4}[cell]:
            one(R, f"dual/{ends}", lambda: run_lobatto_dual(cell, order, ends), {"kind": "lobatto-dual", "cell": cell, "order": order, "ends": ends})


def units(tier):
    more = 0 if tier == "quick" else 2
    u = [("jrc", jrc), ("tensor", tensor), ("normal", normal), ("dual", dual), ("variables", variables)]
    for cell, top in TOP.items():
        for order in range(top + 1 + more):
            u.append((f"basis/{cell}/{order}", basis, cell, order))
        g = {"interval": 8, "triangle": 4, "quadrilateral": 3, "tetrahedron": 3, "hexahedron": 2, "prism": 2, "pyramid": 3}[cell] + more // 2
        for order in range(g + 1):
            u.append((f"orthogonal/{cell}/{order}", gram, cell, order, False))
            if order < g or cell in ("interval", "triangle"):
                u.append((f"orthonormal/{cell}/{order}", gram, cell, order, True))
        d = {"interval": 6, "triangle": 4, "quadrilateral": 3, "tetrahedron": 3, "hexahedron": 2, "prism": 2, "pyramid": 3}[cell] + more // 2
        for order in range(d + 1):
            u.append((f"derivatives/{cell}/{order}", derivatives, cell, order, 3))
        u.append((f"normal-derivatives/{cell}", derivatives, cell, 1, 1, True))
        u.append((f"l2-dual/{cell}", duals, cell))
    for cell, top in (("interval", 8), ("quadrilateral", 4), ("hexahedron", 3)):
        for order in range(1, top + 1):
            u.append((f"lobatto/{cell}/{order}", lobatto, cell, order))
    return u


def replay(c):
    k = c["kind"]
    try:
        if k == "closed":
            ok, text = run_closed(c["cell"], c["order"])
        elif k == "gram":
            ok, text = run_gram(c["cell"], c["order"], c["normal"])
        elif k == "derivatives":
            ok, text = run_derivatives(c["cell"], c["order"], c["derivs"], c["normal"])
        elif k == "variables":
            ok, text = run_variables(c["cell"], 2, 1)
        elif k == "unknown":
            ok, text = run_unknown()
        elif k == "jrc":
            ok, text = run_jrc(c["a"], c["n"])
        elif k == "tensor":
            ok, text = run_tensor(c["cell"], c["order"], c["derivs"])
        elif k == "normal":
            ok, text = run_normal(c["cell"], c["n"], c["derivs"])
        elif k == "dual":
            ok, text = run_dual(c["cell"], c["n"], c["seed"])
        elif k == "lobatto":
            ok, text = run_lobatto(c["cell"], c["order"], c["ends"])
        else:
            ok, text = run_lobatto_dual(c["cell"], c["order"], c["ends"])
    except Exception as ex:
        return True, f"{type(ex).__name__}: {ex}"
    return not ok, text
