"""G01: point location."""
import itertools
import random

from pyvc import env
import sympy

from pyvc import engine, spec
from pyvc.spec import S

LEVEL = "proof"
LEVEL_NOTE = ("Point location is decided for all real points and vertices (symbolic execution, z3); the intersection search and floating-point points are bounded stand-ins, labelled so in the evidence. Three-dimensional cells other than the tetrahedron use fixed frames (default and one skew) with a symbolic point for vertices, edges and faces.")
BOUNDS = ("cell intersection: all pairs from a grid of triangles / quadrilaterals / tetrahedra with small "
          "integer vertices (seeded sample of pairs); floating-point coordinates: seeded sample")
ASSUMPTIONS = [
    "coordinates are exact real numbers in the proofs (floating-point points are sampled)",
    "on_edge/on_face in three dimensions: every point, on the default cells and one skewed cell of each kind",
    "quadrilateral pieces are convex",
]
Or, And, Not, Eq, Ne = sympy.Or, sympy.And, sympy.Not, sympy.Eq, sympy.Ne


def make(cell, verts=None):
    from symfem import create_reference

    return create_reference(cell) if verts is None else create_reference(cell, verts)


def sy(name, n):
    return tuple(engine.sym(f"{name}{i}") for i in range(n))


def bary_spec(cell, lam):
    """lam are the local coordinates of the point."""
    if cell in ("interval", "quadrilateral", "hexahedron"):
        return And(*[And(c >= 0, c <= 1) for c in lam])
    if cell in ("triangle", "tetrahedron"):
        return And(sum(lam) <= 1, *[c >= 0 for c in lam])
    if cell == "prism":
        return And(lam[0] >= 0, lam[1] >= 0, lam[0] + lam[1] <= 1, lam[2] >= 0, lam[2] <= 1)
    return And(*[c >= 0 for c in lam], lam[0] + lam[2] <= 1, lam[1] + lam[2] <= 1)


def cond(v):
    """The truth value a path returned, as a condition."""
    if isinstance(v, engine.SymBool):
        return v.cond
    if v in (True, False) or v is sympy.true or v is sympy.false:
        return sympy.true if v else sympy.false
    raise TypeError(f"not a truth value: {v!r}")


def strs(m, pts):
    return [[str(S(c).subs({s: m.get(s.name, 0) for s in S(c).free_symbols})) for c in p] for p in pts]


def decided(R, fn, pre, want, case, max_paths=400):
    n = 0
    for k, p in enumerate(engine.explore(lambda: bool(fn()), pre, max_paths)):
        if p.exc is not None:
            if isinstance(p.exc, NotImplementedError):
                return n
            R.undecided(f"path{k}/returns", repr(p.exc))
            continue
        n += 1
        c = cond(p.value)
        R.implies(f"path{k}", pre + p.pc, want if c is sympy.true else Not(want), case)
        for i, d in enumerate(p.dens):
            R.implies(f"path{k}/defined{i}", pre + p.pc, Ne(d, 0), case)
    return n


# ------------------------------------------------------------------ units
def contains_default(R, cell):
    tdim = spec.TDIM[cell]
    p = sy("p", tdim)
    n = decided(R, lambda: make(cell).contains(p), [], bary_spec(cell, p),
                lambda m: {"kind": "contains", "cell": cell, "v": None, "p": strs(m, [p])[0]})
    R.ok("answers", n > 0)


def affine(cell, gdim):
    v = [sy("a", gdim)] + [sy("bcd"[i], gdim) for i in range(spec.TDIM[cell])]
    return spec.affine_vertices(cell, v), v


def contains_affine(R, cell):
    gdim = spec.TDIM[cell]
    verts, v = affine(cell, gdim)
    ax = [tuple(q - o for o, q in zip(v[0], w)) for w in v[1:]]
    lam = sy("l", gdim)
    p = tuple(v[0][k] + sum(c * a[k] for c, a in zip(lam, ax)) for k in range(gdim))
    D = sympy.expand(spec.det(ax))
    pre = [Ne(D, 0)]
    R.cover("nondegenerate", pre)
    case = lambda m: {"kind": "contains", "cell": cell, "v": strs(m, verts), "p": strs(m, [p])[0]}  # noqa: E731

    def run():
        c = make(cell, verts)
        return c.contains(p)

    n = decided(R, run, pre, bary_spec(cell, lam), case)
    if cell in ("triangle", "tetrahedron"):
        R.ok("answers", n >= 2)


def point_contains(R, gdim):
    v = sy("a", gdim)
    p = sy("p", gdim)
    decided(R, lambda: make("point", (v,)).contains(p), [],
            And(*[Eq(i, j) for i, j in zip(v, p)]),
            lambda m: {"kind": "contains", "cell": "point", "v": strs(m, [v]), "p": strs(m, [p])[0]})


def geom_simplex(R, cell):
    from symfem import geometry

    fn = getattr(geometry, f"point_in_{cell}")
    gdim = spec.TDIM[cell]
    v = [sy("a", gdim)] + [sy("bcd"[i], gdim) for i in range(gdim)]
    ax = [tuple(q - o for o, q in zip(v[0], w)) for w in v[1:]]
    lam = sy("l", gdim)
    p = tuple(v[0][k] + sum(c * a[k] for c, a in zip(lam, ax)) for k in range(gdim))
    if cell == "tetrahedron":
        # keep the rational functions small: one frame with general edge lengths and angles
        zero = {v[0][0]: 0, v[0][1]: 0, v[0][2]: 0, v[1][1]: 0, v[1][2]: 0, v[2][2]: 0}
        p = tuple(sympy.expand(c.subs(zero)) for c in p)
        v = [tuple(S(c).subs(zero) for c in w) for w in v]
        ax = [tuple(q - o for o, q in zip(v[0], w)) for w in v[1:]]
    pre = [Ne(sympy.factor(spec.det(ax)), 0)]
    R.cover("nondegenerate", pre)
    n = decided(R, lambda: fn(p, tuple(v)), pre, bary_spec(cell, lam),
                lambda m: {"kind": "geom", "cell": cell, "v": strs(m, v), "p": strs(m, [p])[0]})
    R.ok("answers", n >= 2)


def geom_tet_frames(R, k):
    """All points, in concrete tetrahedra of every handedness and vertex order."""
    from symfem import geometry

    base = [(0, 0, 0), (2, 0, 1), (1, 3, 0), (-1, 1, 2)]
    perms = list(itertools.permutations(range(4)))
    for i in perms[k::6]:
        v = [tuple(S(c) for c in base[j]) for j in i]
        ax = [tuple(q - o for o, q in zip(v[0], w)) for w in v[1:]]
        lam = sy("l", 3)
        p = tuple(v[0][k] + sum(c * a[k] for c, a in zip(lam, ax)) for k in range(3))
        for nm, fn in [("geom", lambda: geometry.point_in_tetrahedron(p, tuple(v))),
                       ("contains", lambda: make("tetrahedron", tuple(v)).contains(p))]:
            R2 = _Prefixed(R, f"{nm}{''.join(map(str, i))}/")
            decided(R2, fn, [], bary_spec("tetrahedron", lam),
                    lambda m: {"kind": nm, "cell": "tetrahedron", "v": strs(m, v), "p": strs(m, [p])[0]})


class _Prefixed:
    def __init__(self, R, pre):
        self.R, self.pre = R, pre

    def __getattr__(self, a):
        f = getattr(self.R, a)
        return lambda name, *r, **k: f(self.pre + name, *r, **k)


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def geom_quad(R, sign, frame):
    """Convex quadrilaterals (tensor ordering), both orientations, every point."""
    from symfem import geometry

    if frame == "general":
        v = [sy("a", 2), sy("b", 2), sy("c", 2), sy("d", 2)]
    else:
        b, d = engine.sym("b0"), sy("d", 2)
        h = engine.sym("c1")
        v = [(S(0), S(0)), (b, S(0)), (S(0) + engine.sym("c0"), h), d]
    p = sy("p", 2)
    cyc = [v[0], v[1], v[3], v[2]]
    pre = [sign * orient(cyc[i], cyc[(i + 1) % 4], cyc[(i + 2) % 4]) > 0 for i in range(4)]
    R.cover("convex", pre)
    want = And(*[sign * orient(cyc[i], cyc[(i + 1) % 4], p) >= 0 for i in range(4)])
    n = decided(R, lambda: geometry.point_in_quadrilateral(p, tuple(v)), pre, want,
                lambda m: {"kind": "geom", "cell": "quadrilateral", "v": strs(m, v), "p": strs(m, [p])[0]})
    R.ok("answers", n >= 2)


def piecewise(R, which):
    """get_piece returns a piece that covers the point, and refuses points outside."""
    from symfem.piecewise_functions import PiecewiseFunction

    h = sympy.Rational(1, 3)
    sets = {
        "interval": (1, [((0,), (h,)), ((h,), (1,))]),
        "triangles": (2, [((0, 0), (1, 0), (h, h)), ((1, 0), (0, 1), (h, h)), ((0, 1), (0, 0), (h, h))]),
        "triangles-cw": (2, [((1, 0), (0, 0), (0, 1)), ((3, 1), (1, 0), (0, 1))]),
        "quads": (2, [((0, 0), (1, 0), (0, 1), (1, 1)), ((1, 0), (2, 0), (1, 1), (3, 2))]),
        "quads-cw": (2, [((1, 0), (0, 0), (1, 1), (0, 1)), ((2, 0), (1, 0), (3, 2), (1, 1))]),
        "mixed": (2, [((0, 0), (1, 0), (0, 1), (1, 1)), ((1, 0), (2, 0), (1, 1))]),
        "tets": (3, [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
                     ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))]),
    }
    tdim, cells = sets[which]
    cells = [tuple(tuple(S(c) for c in q) for q in c) for c in cells]
    f = PiecewiseFunction({c: S(i) for i, c in enumerate(cells)}, tdim)
    p = sy("p", tdim)
    ins = [region(c, p) for c in cells]
    case = lambda m: {"kind": "piece", "cells": [[[str(x) for x in q] for q in c] for c in cells],  # noqa: E731
                      "tdim": tdim, "p": strs(m, [p])[0]}
    R.cover("inside", [Or(*ins)])
    for k, q in enumerate(engine.explore(lambda: f.get_piece(p), [], 400)):
        if q.exc is not None:
            ok = isinstance(q.exc, NotImplementedError)
            R.ok(f"path{k}/error-type", ok, repr(q.exc), case({}))
            R.implies(f"path{k}/outside", q.pc, Not(Or(*ins)), case)
            continue
        i = int(q.value.as_sympy())
        R.implies(f"path{k}/in-piece{i}", q.pc, ins[i], case)


def region(v, p):
    """p lies in the closed convex hull of v (exact, quantifier-free)."""
    d = len(p)
    if d == 1:
        lo, hi = min(v[0][0], v[1][0]), max(v[0][0], v[1][0])
        return And(p[0] >= lo, p[0] <= hi)
    if d == 2:
        cyc = v if len(v) == 3 else [v[0], v[1], v[3], v[2]]
        n = len(cyc)
        s = sympy.sign(orient(cyc[0], cyc[1], cyc[2]))
        return And(*[s * orient(cyc[i], cyc[(i + 1) % n], p) >= 0 for i in range(n)])
    m = sympy.Matrix([[v[j][i] - v[0][i] for j in (1, 2, 3)] for i in range(3)]).inv()
    lam = m * sympy.Matrix([p[i] - v[0][i] for i in range(3)])
    return And(*[c >= 0 for c in lam], sum(lam) <= 1)


SKEW = {
    "triangle": [(1, 1), (3, 2), (0, 4)], "quadrilateral": [(1, 1), (3, 2), (0, 4), (2, 5)],
    "tetrahedron": [(1, 0, 0), (3, 1, 0), (0, 2, 1), (1, 1, 3)],
    "hexahedron": [(1, 0, 0), (3, 1, 0), (0, 2, 1), (1, 1, 3)],
    "prism": [(1, 0, 0), (3, 1, 0), (0, 2, 1), (1, 1, 3)],
    "pyramid": [(1, 0, 0), (3, 1, 0), (0, 2, 1), (1, 1, 3)],
}


def concrete(cell, skew):
    if not skew:
        return tuple(tuple(S(c) for c in q) for q in spec.VERTS[cell])
    b = [tuple(S(c) for c in q) for q in SKEW[cell]]
    if cell == "quadrilateral":
        return tuple(b)
    if cell == "triangle":
        return tuple(b)
    return spec.affine_vertices(cell, b)


def edge_cond(a, b, p):
    """p on the closed segment [a, b]."""
    u = [i - k for i, k in zip(a, p)]
    w = [i - k for i, k in zip(b, p)]
    d = len(p)
    if d == 1:
        cr = []
    elif d == 2:
        cr = [u[0] * w[1] - u[1] * w[0]]
    else:
        cr = list(spec.cross(u, w))
    return And(*[Eq(sympy.expand(c), 0) for c in cr], sympy.expand(spec.dot(u, w)) <= 0)


def face_cond(vs, p):
    """p in the closed planar face: coordinates in the frame of its first vertex."""
    e1 = [b - a for a, b in zip(vs[0], vs[1])]
    e2 = [b - a for a, b in zip(vs[0], vs[2])]
    n = spec.cross(e1, e2)
    m = sympy.Matrix([e1, e2, list(n)]).T.inv()
    lam = m * sympy.Matrix([b - a for a, b in zip(vs[0], p)])
    if len(vs) == 3:
        return And(Eq(lam[2], 0), lam[0] >= 0, lam[1] >= 0, lam[0] + lam[1] <= 1)
    return And(Eq(lam[2], 0), lam[0] >= 0, lam[1] >= 0, lam[0] <= 1, lam[1] <= 1)


def entities(R, cell, skew, which):
    v = concrete(cell, skew)
    d = len(v[0])
    p = sy("p", d)
    case = lambda m: {"kind": which, "cell": cell, "v": [[str(c) for c in q] for q in v], "p": strs(m, [p])[0]}  # noqa: E731
    if which == "at_vertex":
        want = Or(*[And(*[Eq(a, b) for a, b in zip(p, q)]) for q in v])
        decided(R, lambda: make(cell, v).at_vertex(p), [], want, case)
        return
    if which == "on_edge":
        groups = [(f"{i}", [edge_cond(v[a], v[b], p)]) for i, (a, b) in enumerate(spec.EDGES[cell])]
    else:
        groups = [(f"{i}", [face_cond([v[j] for j in f], p)]) for i, f in enumerate(spec.FACES[cell])]
    want = Or(*[g for _, gs in groups for g in gs])
    R.cover("hit", [want])
    R.cover("miss", [Not(want)])
    n = decided(R, lambda: getattr(make(cell, v), which)(p), [], want, case, 2000)
    R.ok("answers", n >= 2)


def on_edge_param(R, cell):
    """on_edge for points parametrised along/off each edge of a cell with arbitrary vertices (2D)."""
    v = [sy("abcd"[i], 2) for i in range(3)]
    verts = spec.affine_vertices(cell, v)
    p = sy("p", 2)
    pre = [Ne(sympy.expand(orient(v[0], v[1], v[2])), 0)]
    want = Or(*[edge_cond(verts[a], verts[b], p) for a, b in spec.EDGES[cell]])
    decided(R, lambda: make(cell, verts).on_edge(p), pre, want,
            lambda m: {"kind": "on_edge", "cell": cell, "v": strs(m, verts), "p": strs(m, [p])[0]})


# -- bounded: intersections, floats
def clip_area(poly, tri):
    """Area of the intersection of two convex polygons (exact)."""
    def area2(q):
        return sum(q[i][0] * q[(i + 1) % len(q)][1] - q[i][1] * q[(i + 1) % len(q)][0] for i in range(len(q)))

    if area2(tri) < 0:
        tri = tri[::-1]
    out = list(poly)
    for i in range(len(tri)):
        a, b = tri[i], tri[(i + 1) % len(tri)]
        inp, out = out, []
        for j in range(len(inp)):
            c, d = inp[j], inp[(j + 1) % len(inp)]
            sc, sd = orient(a, b, c), orient(a, b, d)
            if sc >= 0:
                out.append(c)
            if sc * sd < 0:
                t = S(sc) / (sc - sd)
                out.append((c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])))
        if not out:
            return 0
    return abs(area2(out)) / S(2)


def cyc2(c):
    return list(c) if len(c) == 3 else [c[0], c[1], c[3], c[2]]


def check_intersection(c1, c2):
    from symfem import create_reference

    def mk(c):
        if len(c[0]) == 3:
            return create_reference("tetrahedron", c)
        return create_reference("triangle" if len(c) == 3 else "quadrilateral", c)

    a, b = mk(c1), mk(c2)
    try:
        r = a.intersection(b)
    except NotImplementedError:
        return None, "not supported"
    if len(c1[0]) == 2:
        ar = clip_area(cyc2(c1), cyc2(c2))
        want = 0 if r is None else clip_area(cyc2(r.vertices), cyc2(r.vertices))
        return (ar == want and (r is None or r in (a, b))), f"intersection area {ar}, returned {r and r.vertices}"
    if r is None:
        # disjoint interiors: an exact LP by enumeration of separating planes
        ok = separated(c1, c2)
        return ok, "returned None" + ("" if ok else " for overlapping cells")
    o = c2 if tuple(r.vertices) == tuple(map(tuple, spec.parse(c1))) else c1
    ok = r in (a, b) and all(region(spec.parse(o), q) == True for q in r.vertices)  # noqa: E712
    return ok, f"returned {r.vertices}"


def separated(t1, t2):
    """Interiors of two tetrahedra are disjoint: some plane spanned by their edges separates them."""
    def sub(a, b):
        return tuple(i - j for i, j in zip(a, b))

    E = [sub(t[j], t[i]) for t in (t1, t2) for i in range(4) for j in range(i)]
    for a, b in itertools.combinations(E, 2):
        n = spec.cross(a, b)
        if n == (0, 0, 0):
            continue
        x1 = [spec.dot(n, q) for q in t1]
        x2 = [spec.dot(n, q) for q in t2]
        if max(x1) <= min(x2) or max(x2) <= min(x1):
            return True
    return False


def side_spec(vs, p, q):
    """(some strictly left, some strictly right, some on) of the line / plane."""
    def c(v):
        if len(q) == 2:
            return (v[0] - p[0]) * (q[1] - p[1]) - (v[1] - p[1]) * (q[0] - p[0])
        return sum((a - b) * n for a, b, n in zip(v, p, q))

    cs = [c(v) for v in vs]
    return Or(*[x > 0 for x in cs]), Or(*[x < 0 for x in cs]), Or(*[Eq(x, 0) for x in cs])


def which_side(R, dim, n):
    """The signs reported by _which_side, for all points (contract used by the intersection)."""
    from symfem import references

    vs = [sy(f"v{i}_", dim) for i in range(n)]
    p, q = sy("p", dim), sy("q", dim)
    pos, neg, on = side_spec(vs, p, q)

    def case(m):
        return {"kind": "side", "v": strs(m, vs), "p": strs(m, [p])[0], "q": strs(m, [q])[0]}

    for k, pa in enumerate(engine.explore(lambda: references._which_side(tuple(vs), p, q), [], 400)):
        if pa.exc is not None:
            R.undecided(f"path{k}", f"{pa.exc!r}")
            continue
        r = pa.value
        want = (And(pos, neg) if r is None else And(Not(pos), Not(neg)) if r == 0 else
                And(pos, Not(neg)) if r > 0 else And(neg, Not(pos)))
        R.implies(f"path{k}/{r}", pa.pc, want, case)


def side_case(case):
    from symfem import references

    vs, p, q = spec.parse(case["v"]), spec.parse(case["p"]), spec.parse(case["q"])
    r = references._which_side(vs, p, q)
    pos, neg = (bool(x) for x in side_spec(vs, p, q)[:2])
    sign = None if pos and neg else (1 if pos else -1 if neg else 0)
    got = r if r is None else (r > 0) - (r < 0)
    return got != sign, f"_which_side({vs}, {p}, {q}) = {r}; the points are {'on both sides' if sign is None else sign}"


PAIRS = [("triangle", "triangle"), ("triangle", "quadrilateral"), ("quadrilateral", "quadrilateral"),
         ("tetrahedron", "tetrahedron"), ("tetrahedron", "hexahedron"), ("tetrahedron", "prism"),
         ("tetrahedron", "pyramid")]


def search_run(pair, sides, inside):
    """Runs intersection with contracts in place of _which_side and contains: sides[(cell, facet)] = the pair of answers."""
    import symfem
    from symfem import references

    a, b = (symfem.create_reference(c) for c in pair)
    a = symfem.create_reference(pair[0], tuple(tuple(S(c) for c in v) for v in a.vertices))
    # placed so that no two facets of the two cells lie in one line or plane
    M = [[S(3), S(1), S(2)], [S(-1), S(4), S(1)], [S(1), S(-2), S(5)]]
    b = symfem.create_reference(pair[1], tuple(tuple(
        [S(50), S(31), S(17)][i] + sum(M[i][j] * c for j, c in enumerate(v)) for i in range(len(v))) for v in b.vertices))
    facets = {}
    for n, c in enumerate((a, b)):
        for f in range(c.sub_entity_count(c.tdim - 1)):
            facets[n, f] = c.sub_entity(c.tdim - 1, f).vertices
    odd, calls = [], []

    def stub(vs, p, q):
        """The answer for the facet whose line (2D: through p and q) or plane (3D: through p, normal q) it is."""
        calls.append((p, q))
        for (n, f), fv in facets.items():
            if all(side_spec([v], p, q)[2] == True for v in fv):  # noqa: E712
                own = (a, b)[n]
                return sides.get((n, f), (None, None))[0 if tuple(map(tuple, vs)) == tuple(own.vertices) else 1]
        odd.append((p, q))
        return None

    old = references._which_side
    references._which_side = stub
    try:
        for n, c in enumerate((a, b)):
            c.contains = lambda v, n=n: inside[n]
        try:
            r = a.intersection(b)
        except NotImplementedError:
            r = a.tdim
        if (odd or not calls) and True not in inside:
            return "other"  # this code does not ask _which_side about facets: nothing to decide here
        if r == a.tdim:
            return "unsupported"
        return r if r is None else "first" if r is a else "second" if r is b else repr(r)
    finally:
        references._which_side = old


def search_want(sides, inside):
    if inside[1]:
        return "first"
    if inside[0]:
        return "second"
    if any(None not in s and s[0] * s[1] < 0 for s in sides.values()):
        return None
    return "unsupported"


def search(R, pair):
    """No intersection is reported exactly when a facet's plane has the cells (strictly somewhere) on its two sides."""
    vals = (None, -2, -1, 0, 1, 2)
    nf = [{"triangle": 3, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 6, "prism": 5, "pyramid": 5}[c] for c in pair]
    keys = [(n, f) for n in range(2) for f in range(nf[n])]

    def check(name, sides, inside):
        got = search_run(pair, sides, inside)
        if got == "other":
            return
        R.ok(name, got == search_want(sides, inside), f"{got}", {
            "kind": "search", "pair": pair, "sides": [[list(k), list(v)] for k, v in sides.items()], "inside": inside})

    for inside in ((True, False), (False, True), (True, True)):
        check(f"inside{inside[0]:d}{inside[1]:d}", {}, inside)
    check("none", {}, (False, False))
    for k in keys:
        for s in itertools.product(vals, repeat=2):
            for o in ((None, None), (2, 1), (0, -1)):
                check(f"{k[0]}.{k[1]}/{s[0]},{s[1]}/{o[0]}", {j: (s if j == k else o) for j in keys}, (False, False))


def intersections(R, kind, k, n):
    rng = random.Random(f"{env.SEED}:{kind}:{k}")
    dim = 3 if kind == "tet" else 2
    done = 0
    answered = 0
    while done < n:
        sh = [None, None]
        for i in range(2):
            while sh[i] is None:
                if rng.random() < 0.4 and sh[0]:
                    # share vertices with the first cell
                    pts = [q if rng.random() < 0.6 else tuple(rng.randint(0, 3) for _ in range(dim)) for q in sh[0][:dim + 1]]
                else:
                    pts = [tuple(rng.randint(0, 3) for _ in range(dim)) for _ in range(dim + 1)]
                if rng.random() < 0.3:
                    rng.shuffle(pts)
                ax = [tuple(S(b - a) for a, b in zip(pts[0], q)) for q in pts[1:]]
                if spec.det(ax) == 0:
                    continue
                if kind == "mixed" and rng.random() < 0.5:
                    pts = [pts[0], pts[1], pts[2], tuple(b + c - a for a, b, c in zip(*pts))]
                sh[i] = tuple(tuple(S(c) for c in q) for q in pts)
        done += 1
        ok, text = check_intersection(*sh)
        if ok is None:
            continue
        answered += 1
        R.bounded(f"{done}", ok, text, {"kind": "intersection", "c1": [[str(c) for c in q] for q in sh[0]],
                                        "c2": [[str(c) for c in q] for q in sh[1]]})
    R.bounded("some-answered", answered > 0)


def floats(R, cell):
    """Floating-point points: inside by a margin / outside by a margin / on the boundary."""
    from symfem import geometry

    rng = random.Random(f"{env.SEED}:fl:{cell}")
    d = spec.TDIM[cell]
    fn = getattr(geometry, f"point_in_{cell}")
    for i in range(40):
        while True:
            v = [tuple(S(rng.randint(-4, 4)) for _ in range(d)) for _ in range(d + 1)]
            ax = [tuple(b - a for a, b in zip(v[0], q)) for q in v[1:]]
            if spec.det(ax) != 0:
                break
        lam = [sympy.Rational(rng.randint(1, 20), 80) for _ in range(d)]
        mode = i % 3
        if mode == 1:
            lam[rng.randrange(d)] = -sympy.Rational(1, 1000)
        if mode == 2:
            lam[rng.randrange(d)] = S(0)
        if cell == "quadrilateral":
            v.append(tuple(a + b for a, b in zip(v[1], ax[1])))
        p = tuple(sympy.Float(float(v[0][k] + sum(c * a[k] for c, a in zip(lam, ax)))) for k in range(d))
        R.bounded(f"{i}", bool(fn(p, tuple(v))) == (mode != 1), f"{p} in {v}: expected {mode != 1}",
                  {"kind": "float", "cell": cell, "v": [[str(c) for c in q] for q in v],
                   "p": [str(c) for c in p], "want": mode != 1})


def units(tier):
    u = []
    for c in spec.VERTS:
        if c != "point":
            u.append((f"contains-default/{c}", contains_default, c))
            u.append((f"contains-affine/{c}", contains_affine, c))
    for g in (1, 2, 3):
        u.append((f"contains-point/{g}", point_contains, g))
    for c in ("interval", "triangle", "tetrahedron"):
        u.append((f"geometry/{c}", geom_simplex, c))
    for k in range(6):
        u.append((f"tet-frames/{k}", geom_tet_frames, k))
    for s in (1, -1):
        for f in ("general", "frame"):
            u.append((f"geometry/quadrilateral{s}/{f}", geom_quad, s, f))
    for w in ("interval", "triangles", "triangles-cw", "quads", "quads-cw", "mixed", "tets"):
        u.append((f"piece/{w}", piecewise, w))
    for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        for skew in (False, True):
            if c == "interval":
                if not skew:
                    u.append((f"at_vertex/{c}", entities, c, skew, "at_vertex"))
                continue
            u.append((f"at_vertex/{c}{skew:d}", entities, c, skew, "at_vertex"))
            u.append((f"on_edge/{c}{skew:d}", entities, c, skew, "on_edge"))
            if spec.TDIM[c] == 3:
                u.append((f"on_face/{c}{skew:d}", entities, c, skew, "on_face"))
    # (the quadrilateral takes minutes: deep run only)
    for c in ("triangle",) if tier == "quick" else ("triangle", "quadrilateral"):
        u.append((f"on_edge-any/{c}", on_edge_param, c))
    n = 60 if tier == "quick" else 1500
    for kind in ("tri", "mixed", "tet"):
        for k in range(3):
            u.append((f"intersection/{kind}{k}", intersections, kind, k, n))
    for d in (2, 3):
        u.append((f"which_side/{d}", which_side, d, 3))
    for pr in PAIRS:
        u.append((f"search/{pr[0]}-{pr[1]}", search, pr))
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral"):
        u.append((f"float/{c}", floats, c))
    return u


def replay(case):
    from symfem import create_reference, geometry
    from symfem.piecewise_functions import PiecewiseFunction

    k = case["kind"]
    if k == "intersection":
        ok, text = check_intersection(spec.parse(case["c1"]), spec.parse(case["c2"]))
        return ok is False, f"{case}: {text}"
    if k == "side":
        return side_case(case)
    if k == "search":
        sides = {tuple(a): tuple(b) for a, b in case["sides"]}
        got = search_run(case["pair"], sides, case["inside"])
        want = search_want(sides, case["inside"])
        return got not in (want, "other"), f"{case}: {got}, expected {want}"
    p = spec.parse(case["p"])
    if k == "piece":
        cells = [spec.parse(c) for c in case["cells"]]
        f = PiecewiseFunction({c: S(i) for i, c in enumerate(cells)}, case["tdim"])
        ins = [i for i, c in enumerate(cells) if region(c, p) == True]  # noqa: E712
        try:
            got = int(f.get_piece(p).as_sympy())
        except NotImplementedError:
            return bool(ins), f"piece at {p}: none found, pieces {ins} contain it"
        return got not in ins, f"piece at {p}: {got}, pieces that contain it: {ins}"
    cell = case["cell"]
    v = spec.parse(case["v"]) if case.get("v") else spec.parse([[str(c) for c in q] for q in spec.VERTS[cell]])
    if k == "float":
        got = bool(getattr(geometry, f"point_in_{cell}")(p, v))
        return got != case["want"], f"point_in_{cell}({p}, {v}) = {got}"
    if cell == "point":
        want = p == v[0]
    elif k in ("contains", "geom") and cell in ("hexahedron", "prism", "pyramid", "quadrilateral", "interval") and k == "contains":
        o = [v[0]] + [v[i] for i in spec.AXES[cell]]
        ax = [[b - a for a, b in zip(o[0], q)] for q in o[1:]]
        m = sympy.Matrix(ax).T
        if m.det() == 0:
            return False, "degenerate"
        lam = m.inv() * sympy.Matrix([b - a for a, b in zip(o[0], p)])
        want = bary_spec(cell, list(lam)) == True  # noqa: E712
    elif k in ("contains", "geom"):
        if len(v) != 4 or cell == "tetrahedron":
            if spec.det([[b - a for a, b in zip(v[0], q)] for q in v[1:]]) == 0:
                return False, "degenerate"
        want = region(v, p) == True  # noqa: E712
    elif k == "at_vertex":
        want = p in v
    elif k == "on_edge":
        want = any(edge_cond(v[a], v[b], p) == True for a, b in spec.EDGES[cell])  # noqa: E712
    else:
        want = any(face_cond([v[j] for j in f], p) == True for f in spec.FACES[cell])  # noqa: E712
    if k == "geom":
        got = getattr(geometry, f"point_in_{cell}")(p, v)
    else:
        r = create_reference(cell, v) if case.get("v") else create_reference(cell)
        try:
            got = getattr(r, k)(p)
        except NotImplementedError:
            return False, "not supported"
    return bool(got) != bool(want), f"{k} {cell} {v} at {p}: {got}, expected {want}"
