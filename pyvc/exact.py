"""Zero tests for numbers and polynomials with algebraic coefficients (used by bounded checks)."""
from . import env  # noqa: F401
import sympy

from .spec import X


def zero_number(c):
    """Rational numbers exactly; other algebraic numbers to 60 digits."""
    c = sympy.S(c)
    if c.is_Rational:
        return c == 0
    if c == 0:
        return True
    v = sympy.N(c, 80, maxn=400)
    return bool(abs(v) < sympy.Float("1e-60", 30))


def zero_poly(e, variables=X):
    """A polynomial is zero."""
    e = sympy.S(e)
    if e == 0:
        return True
    e = sympy.expand(e)
    if e == 0:
        return True
    if not e.free_symbols & set(variables):
        return zero_number(e)
    try:
        p = sympy.Poly(e, *variables)
    except sympy.PolynomialError:
        return sympy.simplify(e) == 0
    return all(zero_number(c) for c in p.coeffs())


def coefficients(e, variables=X):
    """{exponents: coefficient} of a polynomial."""
    e = sympy.expand(sympy.S(e))
    if e == 0:
        return {}
    return dict(sympy.Poly(e, *variables).terms())


POINTS = ((0.3125, -0.71875, 1.4375), (-1.15625, 0.84375, 0.28125), (2.21875, 1.65625, -0.53125))


def evaluate(es, points=POINTS, variables=X):
    """Floating-point values of expressions at points: [[value of each expression] for each point]."""
    es = [sympy.S(e) for e in es]
    num = [(i, float(e)) for i, e in enumerate(es) if e.is_number]
    rest = [i for i, e in enumerate(es) if not e.is_number]
    f = sympy.lambdify(variables, [es[i] for i in rest], "math") if rest else None
    out = []
    for p in points:
        row = [0.0] * len(es)
        for i, v in num:
            row[i] = v
        if rest:
            for i, v in zip(rest, f(*p)):
                row[i] = float(v)
        out.append(row)
    return out


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
