"""Specification side: cells and maps, written from the definitions, not from /repo."""
from . import env  # noqa: F401
import sympy

X = sympy.symbols("x y z")
T = sympy.symbols("t0 t1 t2")
S = sympy.S

# default cells: vertex list, in the published numbering (DefElement)
VERTS = {
    "point": ((),),
    "interval": ((0,), (1,)),
    "triangle": ((0, 0), (1, 0), (0, 1)),
    "quadrilateral": ((0, 0), (1, 0), (0, 1), (1, 1)),
    "tetrahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "hexahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0),
                   (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)),
    "prism": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)),
    "pyramid": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)),
}
TDIM = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3,
        "hexahedron": 3, "prism": 3, "pyramid": 3}
# indices of the vertices at the ends of the axes that leave vertex 0
AXES = {"point": (), "interval": (1,), "triangle": (1, 2), "quadrilateral": (1, 2),
        "tetrahedron": (1, 2, 3), "hexahedron": (1, 2, 4), "prism": (1, 2, 3),
        "pyramid": (1, 2, 4)}
# reference volume
VOL = {"interval": S(1), "triangle": S(1) / 2, "quadrilateral": S(1), "tetrahedron": S(1) / 6,
       "hexahedron": S(1), "prism": S(1) / 2, "pyramid": S(1) / 3}
SIMPLEX = ("point", "interval", "triangle", "tetrahedron")
EDGES = {
    "interval": ((0, 1),),
    "triangle": ((1, 2), (0, 2), (0, 1)),
    "quadrilateral": ((0, 1), (0, 2), (1, 3), (2, 3)),
    "tetrahedron": ((2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)),
    "hexahedron": ((0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6),
                   (5, 7), (6, 7)),
    "prism": ((0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)),
    "pyramid": ((0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)),
}
FACES = {
    "triangle": ((0, 1, 2),), "quadrilateral": ((0, 1, 2, 3),),
    "tetrahedron": ((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)),
    "hexahedron": ((0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7),
                   (4, 5, 6, 7)),
    "prism": ((0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)),
    "pyramid": ((0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)),
}


def shape_functions(cell, X=X):
    """The functions N_i with N_i(vertex_j) = delta_ij that define the geometry map."""
    x, y, z = X
    if cell == "point":
        return [S(1)]
    if cell == "interval":
        return [1 - x, x]
    if cell == "triangle":
        return [1 - x - y, x, y]
    if cell == "tetrahedron":
        return [1 - x - y - z, x, y, z]
    if cell == "quadrilateral":
        return [(1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y]
    if cell == "hexahedron":
        return [a * b * c for c in (1 - z, z) for b in (1 - y, y) for a in (1 - x, x)]
    if cell == "prism":
        return [a * c for c in (1 - z, z) for a in (1 - x - y, x, y)]
    if cell == "pyramid":
        r = x * y / (1 - z)
        return [1 - x - y - z + r, x - r, y - r, r, z]
    raise ValueError(cell)


def geometry_map(cell, verts, X=X):
    n = shape_functions(cell, X)
    return tuple(sum((a * v[i] for a, v in zip(n, verts)), S(0)) for i in range(len(verts[0])))


def affine_vertices(cell, v):
    """A cell with the affine image of the default vertices: v[0] and the ends of the axes given."""
    o = v[0]
    ax = [tuple(b - a for a, b in zip(o, w)) for w in v[1:]]
    return tuple(tuple(o[k] + sum(r * a[k] for r, a in zip(ref, ax)) for k in range(len(o)))
                 for ref in VERTS[cell])


def det(cols):
    return sympy.Matrix([list(c) for c in cols]).det()


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum((i * j for i, j in zip(a, b)), S(0))


def gram_det(axes):
    n = len(axes)
    if n == 0:
        return S(1)
    return sympy.Matrix(n, n, lambda i, j: dot(axes[i], axes[j])).det()


def parse(o):
    """JSON -> sympy numbers (strings) in nested lists/tuples."""
    if isinstance(o, (list, tuple)):
        return tuple(parse(i) for i in o)
    return sympy.sympify(o, rational=False)


def integrate_monomial(cell, m):
    """Integral of x^a y^b z^c over the default cell."""
    from math import factorial as f

    a, b, c = (list(m) + [0, 0, 0])[:3]
    if cell == "point":
        return S(1)
    if cell == "interval":
        return S(1) / (a + 1)
    if cell == "triangle":
        return S(f(a) * f(b)) / f(a + b + 2)
    if cell == "tetrahedron":
        return S(f(a) * f(b) * f(c)) / f(a + b + c + 3)
    if cell == "quadrilateral":
        return S(1) / ((a + 1) * (b + 1))
    if cell == "hexahedron":
        return S(1) / ((a + 1) * (b + 1) * (c + 1))
    if cell == "prism":
        return S(f(a) * f(b)) / f(a + b + 2) / (c + 1)
    if cell == "pyramid":
        return S(f(c) * f(a + b + 2)) / f(a + b + c + 3) / ((a + 1) * (b + 1))
    raise ValueError(cell)


def integrate(cell, e, X=X):
    """Integral of a polynomial over the default cell (coefficients may be symbolic)."""
    p = sympy.Poly(sympy.expand(e), *X)
    return sum((c * integrate_monomial(cell, m) for m, c in p.terms()), S(0))


def integrate_on(cell, verts, e, X=X):
    """Integral of a polynomial over an affine cell."""
    g = geometry_map(cell, verts)
    if cell == "pyramid":
        o, ax = verts[0], [verts[i] for i in AXES[cell]]
        g = tuple(o[k] + sum(x * (a[k] - o[k]) for x, a in zip(X, ax)) for k in range(len(o)))
    ax = [tuple(b - a for a, b in zip(verts[0], verts[i])) for i in AXES[cell]]
    return sympy.sqrt(gram_det(ax)) * integrate(cell, S(e).subs(dict(zip(X, g)), simultaneous=True), X)


def cell_condition(cell, t):
    """The inequalities of the default cell."""
    from sympy import And

    t = list(t)
    if cell == "point":
        return sympy.true
    if cell in ("interval", "quadrilateral", "hexahedron"):
        return And(*[And(i >= 0, i <= 1) for i in t])
    if cell in ("triangle", "tetrahedron"):
        return And(*[i >= 0 for i in t], sum(t) <= 1)
    if cell == "prism":
        return And(t[0] >= 0, t[1] >= 0, t[0] + t[1] <= 1, t[2] >= 0, t[2] <= 1)
    return And(t[0] >= 0, t[1] >= 0, t[2] >= 0, t[0] + t[2] <= 1, t[1] + t[2] <= 1)
