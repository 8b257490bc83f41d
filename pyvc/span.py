"""Spans of polynomial (and piecewise polynomial) functions: exact linear algebra (rationals modulo a 61-bit prime; else 60 digits)."""
from . import env  # noqa: F401
import functools

import sympy

from .spec import X

P = 2**61 - 1
S = sympy.S


def pieces(f):
    """[(vertices of the piece or None, [components])] of a symfem function."""
    from symfem.piecewise_functions import PiecewiseFunction

    if isinstance(f, PiecewiseFunction):
        return [(frozenset(tuple(map(S, p)) for p in k), comps(q)) for k, q in f._pieces.items()]
    return [(None, comps(f))]


def comps(f):
    """The components of a function (symfem function, expression, tuple or matrix)."""
    v = f.as_sympy() if hasattr(f, "as_sympy") else f
    if isinstance(v, sympy.MatrixBase):
        return [S(c) for c in v]
    if isinstance(v, (tuple, list)):
        return [S(c) for q in v for c in (q if isinstance(q, (tuple, list)) else (q,))]
    return [S(v)]


@functools.lru_cache(maxsize=None)
def collapsed(e):
    """The terms of e under x -> x(1-z), y -> y(1-z)."""
    a, b, c = X
    e = sympy.cancel(sympy.together(e.subs({a: a * (1 - c), b: b * (1 - c)}, simultaneous=True)))
    return dict(sympy.Poly(e, *X).terms())


class Space:
    """Coefficient rows of functions, over (piece, component, monomial).

    pyramid: rational functions x^i y^j / (1-z)^k, made polynomial by x -> x(1-z), y -> y(1-z).
    """

    def __init__(self, cell=None, variables=X):
        self.cell, self.vars = cell, variables
        self.keys = {}
        self.partition = None

    def poly(self, e):
        if self.cell == "pyramid":
            out = {}
            for t in sympy.Add.make_args(sympy.expand_mul(e)):
                co, rest = t.as_coeff_Mul()
                for ex, q in collapsed(rest).items():
                    out[ex] = out.get(ex, 0) + co * q
            return {k: v for k, v in out.items() if v != 0}
        if e.is_number:
            return {(0,) * len(self.vars): e} if e != 0 else {}
        return dict(sympy.Poly(e, *self.vars).terms())

    def row(self, ps):
        out = {}
        if self.partition is None:
            targets = [(None, ps[0][1])]
        elif ps[0][0] is None:
            targets = [(k, ps[0][1]) for k in self.partition]
        else:
            targets = ps
        for k, cs in targets:
            for i, c in enumerate(cs):
                for ex, co in self.poly(c).items():
                    key = (k, i, ex)
                    self.keys.setdefault(key, len(self.keys))
                    out[key] = out.get(key, 0) + co
        return out

    def rows(self, fs):
        ps = [pieces(f) for f in fs]
        for p in ps:
            if p[0][0] is not None:
                part = {k for k, _ in p}
                if self.partition is None:
                    self.partition = part
                elif self.partition != part:
                    raise NotImplementedError("functions with different pieces")
        return [self.row(p) for p in ps]


def rank(rows):
    rows = [r for r in rows if any(c != 0 for c in r.values())]
    if not rows:
        return 0
    if all(S(c).is_Rational for r in rows for c in r.values()):
        return rank_mod([{k: int(S(c).p) * pow(int(S(c).q), -1, P) % P for k, c in r.items()} for r in rows])
    return rank_mp(rows)


def rank_mp(rows, dps=60, tol=1e-25):
    """Elimination with complete pivoting on 60 digits (irrational coefficients)."""
    import mpmath

    with mpmath.workdps(dps):
        keys = {k: i for i, k in enumerate({k: 0 for r in rows for k in r})}
        m = []
        for r in rows:
            q = [mpmath.mpf(0)] * len(keys)
            for k, c in r.items():
                q[keys[k]] = mpmath.mpf(str(sympy.re(S(c).evalf(dps))))
            top = max(abs(v) for v in q)
            m.append([v / top for v in q] if top > 0 else q)
        r = 0
        while r < len(m):
            big, i, j = max((abs(v), i, j) for i in range(r, len(m)) for j, v in enumerate(m[i]))
            if big < tol:
                break
            m[r], m[i] = m[i], m[r]
            for i in range(r + 1, len(m)):
                c = m[i][j] / m[r][j]
                if c:
                    m[i] = [v - c * w for v, w in zip(m[i], m[r])]
                    m[i][j] = mpmath.mpf(0)
            r += 1
        return r


def rank_mod(rows):
    pivots = {}
    for r in rows:
        r = {k: v for k, v in r.items() if v}
        while r:
            k = next((k for k in r if k in pivots), None)
            if k is None:
                k = next(iter(r))
                inv = pow(r[k], -1, P)
                pivots[k] = {q: v * inv % P for q, v in r.items()}
                for q, w in list(pivots.items()):  # keep reduced
                    if q != k and k in w:
                        c = w[k]
                        for a, v in pivots[k].items():
                            w[a] = (w.get(a, 0) - c * v) % P
                        pivots[q] = {a: v for a, v in w.items() if v}
                break
            c = r[k]
            for a, v in pivots[k].items():
                r[a] = (r.get(a, 0) - c * v) % P
            r = {a: v for a, v in r.items() if v}
    return len(pivots)


def contained(small, big):
    """All rows of small lie in the span of big."""
    return rank(big) == rank(list(big) + list(small))
