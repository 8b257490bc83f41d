"""Formal integrals: the contract of sympy's integration, used modularly.

While `formal_integrals()` is active, Expr.integrate and sympy.integrate return a symbol that stands for
the integral, and record integrand and limits: callers are verified against "integrate(e, *limits) is the iterated
integral of e", not against sympy's algorithms.
"""
import contextlib

from . import env  # noqa: F401
import sympy

from . import smt


def _coefficient(e, d):
    """c with e == c * d."""
    if e == d:
        return sympy.Integer(1)
    c = e.subs(d, 1)
    if not (e.is_Mul and e.args.count(d) == 1) and not smt.is_zero(e - c * d):
        raise ValueError("not a multiple of the integral")
    return c


class Table:
    def __init__(self, constant=False):
        self.rec = {}
        self.constant = constant  # stand for integrals by expressions without free symbols

    def new(self, e, limits):
        s = sympy.Function("INT")(sympy.Integer(len(self.rec))) if self.constant else sympy.Dummy(f"INT{len(self.rec)}", real=True)
        self.rec[s] = (sympy.S(e), tuple(tuple(i) for i in limits))
        return s

    def flatten(self, s):
        """(integrand, limits innermost first) of a formal integral whose integrand may hold another."""
        e, limits = self.rec[s]
        inner = [d for d in self.rec if e.has(d)]
        if not inner:
            return e, list(limits)
        if len(inner) > 1:
            raise ValueError("several integrals inside one")
        d = inner[0]
        c = _coefficient(e, d)
        ie, il = self.flatten(d)
        if any(c.has(v[0]) for v in il):
            raise ValueError("bound variable escapes")
        return c * ie, il + list(limits)

    def split(self, e):
        """e == coefficient * one integral: (coefficient * integrand, limits)."""
        e = sympy.S(e)
        ds = [d for d in self.rec if e.has(d)]
        if len(ds) != 1:
            raise ValueError(f"{len(ds)} integrals in the result")
        d = ds[0]
        c = _coefficient(e, d)
        ie, il = self.flatten(d)
        if any(c.has(v[0]) for v in il):
            raise ValueError("bound variable escapes")
        return c * ie, il


@contextlib.contextmanager
def formal_integrals(constant=False):
    t = Table(constant)
    old = sympy.Expr.integrate, sympy.integrate

    def method(self, *limits, **kw):
        return t.new(self, limits)

    def func(e, *limits, **kw):
        return t.new(e, limits)

    sympy.Expr.integrate = method
    sympy.integrate = func
    try:
        yield t
    finally:
        sympy.Expr.integrate, sympy.integrate = old
