"""Uninterpreted smooth functions whose derivatives are uninterpreted functions again.

jet("v", (0, 0, 0)) is a function of three variables; differentiating it in the i-th argument gives the jet with the
i-th entry of the multi-index raised, so that values of derivatives at points are plain function applications.
"""
from . import env  # noqa: F401
import sympy
from sympy.core.function import AppliedUndef, UndefinedFunction

_made = {}


def jet(name, alpha):
    alpha = tuple(alpha)
    k = (name, alpha)
    if k not in _made:
        def fdiff(self, argindex=1):
            a = list(alpha)
            a[argindex - 1] += 1
            return jet(name, a)(*self.args)

        _made[k] = UndefinedFunction(f"{name}_{''.join(map(str, alpha))}", bases=(AppliedUndef,), __dict__={"fdiff": fdiff})
    return _made[k]


def field(shape, name, point):
    """A field of the given shape with uninterpreted entries."""
    zero = (0,) * len(point)
    if shape == ():
        return jet(name, zero)(*point)
    if len(shape) == 1:
        return tuple(jet(f"{name}{i}", zero)(*point) for i in range(shape[0]))
    return tuple(tuple(jet(f"{name}{i}{j}", zero)(*point) for j in range(shape[1])) for i in range(shape[0]))


def is_jet(a):
    return isinstance(a, AppliedUndef)


__all__ = ["jet", "field", "sympy"]
