"""E03: mapped and composed elements."""
from pyvc import env
import itertools
import random

import sympy

from checks.E05 import build, classes, find, flat, orders
from checks.F01 import func
from pyvc import spec
from pyvc.exact import POINTS, close, evaluate
from pyvc.spec import S, X

LEVEL = "proof"
LEVEL_NOTE = ("map_to_cell of a Ciarlet element, of an enriched element and its concatenations run on stub parts with uninterpreted functions and symbolic "
              "vertices; the push-forwards themselves and the cell maps are proved in M01, M02 and D01 (perform_mapping) and used here by contract. Every "
              "registered element is mapped to concrete affine cells and compared with the push-forward formulas and with the dual basis built on that "
              "cell (bounded).")
TRUSTED = ["mappings (M02), get_map_to / get_inverse_map_to (M01), perform_mapping (D01), dual bases (E01): used by contract"]
ASSUMPTIONS = ["the dispatch of map_to_cell is run on up to two degrees of freedom in every position and on seeded lists of up to ten (bounded); functions and vertices are symbolic"]
BOUNDS = ("stub elements: every assignment of one or two degrees of freedom to entities, functional types and mappings on every cell, seeded lists of up to 10; "
          "registered elements: two lowest orders (one in the costly cases), two affine cells of opposite orientation each")

# affine images of the default cells, one per orientation
FRAMES = {
    1: ([[3], [-2]], [[3], [2]]),
    2: ([[1, 1], [2, 2], [1, 4]], [[0, 2], [1, 4], [3, 1]]),
    3: ([[1, 1, 1], [2, 2, 2], [-1, 3, 2], [4, 0, 0]], [[0, 0, 1], [2, 0, 1], [1, 1, 3], [0, -1, 2]]),
}


def cell_vertices(cell, k):
    fr = FRAMES[spec.TDIM[cell]][k]
    return spec.affine_vertices(cell, [tuple(S(c) for c in v) for v in fr])


def frame_map(cell, k):
    """The affine map to the cell: (matrix, offset)."""
    fr = FRAMES[spec.TDIM[cell]][k]
    d = len(fr[0])
    A = sympy.Matrix(d, d, lambda i, j: S(fr[j + 1][i]) - fr[0][i])
    return A, sympy.Matrix(fr[0])


# ---------------------------------------------------------------- stub elements
def stub_types():
    from symfem.mappings import MappingNotImplemented

    class Base:
        def __init__(self, i, entity, mapping):
            self.i, self.entity, self.mapping = i, entity, mapping
            self.calls = []

        def perform_mapping(self, fs, fwd, inv):
            from symfem.functions import ScalarFunction

            out = []
            for f in fs:
                (name,) = [a.func.__name__ for a in S(f.as_sympy()).atoms(sympy.core.function.AppliedUndef)]
                self.host.seen.append((tuple(map(S, fwd)), tuple(map(S, inv))))
                out.append(ScalarFunction(sympy.Symbol(f"{type(self).__name__}.{self.mapping}.{name}")))
            return out

    class A(Base):
        pass

    class B(Base):
        pass

    class C(Base):
        def perform_mapping(self, fs, fwd, inv):
            raise MappingNotImplemented()

    return {"A": A, "B": B, "C": C}


def stub_element(ref, dofs):
    """A Ciarlet element with functions F0, F1, ... and dofs [(type, entity, mapping)]."""
    from symfem.finite_element import CiarletElement

    types = stub_types()
    made = []

    class H(CiarletElement):
        def __init__(self, reference, order, **kwargs):
            made.append((reference, order, kwargs))
            self.seen = []
            ds = [types[t](i, e, m) for i, (t, e, m) in enumerate(dofs)]
            for d in ds:
                d.host = self
            self.tag = f"F{'' if len(made) == 1 else len(made)}_"
            super().__init__(reference, order, [S(1)] * len(ds), ds, reference.tdim, 1)

        def get_basis_functions(self, use_tensor_factorisation=False):
            if self._basis_functions is None:
                self._basis_functions = [func(sympy.Function(f"{self.tag}{i}")(*X)) for i in range(len(self.dofs))]
            return self._basis_functions

        def init_kwargs(self):
            return {"variant": "v", "level": 3}

        names = ["stub"]

    return H(ref, 4), made


def entities(cell):
    return [(d, i) for d in range(spec.TDIM[cell] + 1) for i in range(
        {0: len(spec.VERTS[cell]), 1: len(spec.EDGES.get(cell, ())), 2: len(spec.FACES.get(cell, ())), 3: 1}[d]
        if d < spec.TDIM[cell] else 1)]


def run_dispatch(cell, dofs, how):
    """dofs: [(type, entity, mapping)]; how: default / basis / maps."""
    import symfem

    ref = symfem.create_reference(cell)
    e, made = stub_element(ref, [(t, tuple(en), m) for t, en, m in dofs])
    verts = cell_vertices(cell, 0)
    kw, tag = {}, e.tag
    if how == "basis":
        kw["basis"] = [func(sympy.Function(f"G{i}")(*X)) for i in range(len(dofs))]
        tag = "G"
    if how == "maps":
        d = ref.tdim
        kw["forward_map"] = tuple(sympy.Function(f"m{i}")(*X) for i in range(d))
        kw["inverse_map"] = tuple(sympy.Function(f"n{i}")(*X) for i in range(d))
    out = e.map_to_cell(verts, **kw)
    if any(t == "C" for t, _, _ in dofs):
        if len(made) != 2:
            return False, f"{len(made) - 1} elements were created on the cell"
        r, o, k = made[1]
        if type(r) is not type(ref) or tuple(map(tuple, r.vertices)) != verts or o != 4 or k != {"variant": "v", "level": 3}:
            return False, f"created {type(r).__name__} {r.vertices} order {o} {k}"
        want = [sympy.Function(f"F2_{i}")(*X) for i in range(len(dofs))]
    else:
        want = [sympy.Symbol(f"{t}.{m}.{tag}{i}") for i, (t, _, m) in enumerate(dofs)]
    got = [f.as_sympy() for f in out]
    if got != want:
        return False, f"{got} instead of {want}"
    if how == "maps":
        bad = [s for s in e.seen if s != (kw["forward_map"], kw["inverse_map"])]
        if bad:
            return False, f"mapped with {bad[0]}"
    else:
        A, b = frame_map(cell, 0)
        for fwd, inv in e.seen:
            x = sympy.Matrix(X[:ref.tdim])
            fw = A * x + b
            iv = A.inv() * (x - b)
            if any(sympy.simplify(p - q) != 0 for p, q in zip(list(fwd) + list(inv), list(fw) + list(iv))) or len(fwd) != len(fw) or len(inv) != len(iv):
                return False, f"mapped with {fwd}, {inv} instead of {list(fw)}, {list(iv)}"
    return True, ""


def dispatch(R, cell):
    rng = random.Random(f"{env.SEED}:{cell}")
    ents = entities(cell)
    kinds = [("A", "p"), ("A", "q"), ("B", "p"), ("B", None)]
    cases = [[("A", e, "p")] for e in ents]
    pairs = [(a, b) for a in ents for b in ents if a != b]
    rng.shuffle(pairs)
    for e in ents[:3] + ents[-3:]:
        cases += [[(*k1[:1], e, k1[1]), (k2[0], e, k2[1])] for k1 in kinds for k2 in kinds]
    for e1, e2 in pairs[:12]:
        k1, k2 = rng.choice(kinds), rng.choice(kinds)
        cases.append([(k1[0], e1, k1[1]), (k2[0], e2, k2[1])])
    for n in (5, 8, 10):
        for _ in range(4):
            sub = rng.sample(ents, min(len(ents), 4))
            cases.append([(k[0], rng.choice(sub), k[1]) for k in [rng.choice(kinds) for _ in range(n)]])
    cases += [[("C", ents[0], None)], [("A", ents[0], "p"), ("C", ents[-1], None), ("B", ents[0], "q")]]
    for n, c in enumerate(cases):
        for how in ("default", "basis", "maps"):
            if how != "default" and n % 5 and c is not cases[-3]:
                continue
            if how != "default" and any(t == "C" for t, _, _ in c):
                continue
            try:
                ok, why = run_dispatch(cell, c, how)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.bounded(f"{n}/{how}", ok, why, {"kind": "dispatch", "cell": cell, "dofs": c, "how": how})


def run_symbolic(cell):
    """All vertices (symbolic): the maps handed to the push-forward are those of the cell."""
    import symfem

    ref = symfem.create_reference(cell)
    e, _ = stub_element(ref, [("A", (ref.tdim, 0), "p"), ("B", (0, 0), "q")])
    d = ref.tdim
    v = [sympy.symbols(" ".join(f"v{i}{j}" for j in range(d)) + ",") for i in range(d + 1)]
    verts = spec.affine_vertices(cell, v)
    out = e.map_to_cell(verts)
    if [f.as_sympy() for f in out] != [sympy.Symbol("A.p.F_0"), sympy.Symbol("B.q.F_1")]:
        return False, f"{out}"
    want = [S(v[0][k]) + sum(x * (v[i + 1][k] - v[0][k]) for i, x in enumerate(X[:d])) for k in range(d)]
    for fwd, inv in e.seen:
        if any(sympy.cancel(sympy.expand(a - b)) != 0 for a, b in zip(fwd, want)) or len(fwd) != d or len(inv) != d:
            return False, f"forward map {fwd}"
        comp = [i.subs(dict(zip(X, want)), simultaneous=True) for i in inv]
        if any(sympy.cancel(sympy.together(c - x)) != 0 for c, x in zip(comp, X)):
            return False, f"inverse map {inv}"
    return len(e.seen) == 2, ""


def symbolic(R, cell):
    try:
        ok, why = run_symbolic(cell)
    except Exception as ex:
        ok, why = False, repr(ex)
    R.ok("maps", ok, why, {"kind": "symbolic", "cell": cell}, backend="ring")


def run_pieces(cell):
    """A piecewise function's pieces move to the images of their cells, once, and the given functions stay as they were."""
    import symfem
    from symfem.finite_element import CiarletElement
    from symfem.piecewise_functions import PiecewiseFunction

    ref = symfem.create_reference(cell)
    d = ref.tdim
    h = sympy.Rational(1, 2)
    vs = spec.VERTS[cell]
    mid = tuple(h * (a + b) for a, b in zip(vs[0], vs[1]))
    rest = vs[2:]
    cells = [tuple([vs[0], mid]) + rest, tuple([mid, vs[1]]) + rest]
    A, b = frame_map(cell, 0)
    g = sympy.Function("g")

    class D:
        mapping = "identity"

        def __init__(self, entity):
            self.entity = entity

        def perform_mapping(self, fs, fwd, inv):
            from symfem import mappings

            return [mappings.identity(f, fwd, inv) for f in fs]

    class H(CiarletElement):
        def __init__(self, reference, order):
            super().__init__(reference, order, [S(1), S(1)], [D((d, 0)), D((0, 0))], d, 1)
            self._basis_functions = [PiecewiseFunction({c: g(*X[:d]) + i + 10 * j for i, c in enumerate(cells)}, d) for j in range(2)]

        names = ["stub"]

    e = H(ref, 1)
    before = [[(k, str(f)) for k, f in b._pieces.items()] for b in e.get_basis_functions()]
    verts = cell_vertices(cell, 0)
    inv = A.inv() * (sympy.Matrix(X[:d]) - b)
    for _ in range(2):
        out = e.map_to_cell(verts)
        for j, f in enumerate(out):
            if not isinstance(f, PiecewiseFunction) or len(f._pieces) != 2:
                return False, f"{f}"
            for i, (c, (k, q)) in enumerate(zip(cells, f._pieces.items())):
                img = [tuple(A * sympy.Matrix(p) + b) for p in c]
                if [tuple(map(S, p)) for p in k] != img:
                    return False, f"piece {i} lies on {k} instead of {img}"
                want = g(*inv) + i + 10 * j
                if sympy.simplify(q.as_sympy() - want) != 0:
                    return False, f"piece {i} is {q}"
        if [[(k, str(f)) for k, f in b._pieces.items()] for b in e.get_basis_functions()] != before:
            return False, "the reference functions changed"
    return True, ""


def pieces(R):
    for cell in ("interval", "triangle", "tetrahedron"):
        try:
            ok, why = run_pieces(cell)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(cell, ok, why, {"kind": "pieces", "cell": cell})


# ---------------------------------------------------------------- composed elements
def stub_parts(ref, dims, shape=None):
    from symfem.finite_element import FiniteElement

    ents = entities(ref.name)
    parts = []
    for p, n in enumerate(dims):
        class H(FiniteElement):
            tag = p

            def __init__(self, n):
                super().__init__(ref, 2 + self.tag, n, ref.tdim, 1, shape)
                self.got = []

            def ent(self, i):
                return ents[(3 * self.tag + 2 * i) % len(ents)]

            def dof_plot_positions(self):
                return [("position", self.tag, i) for i in range(self.space_dim)]

            def dof_directions(self):
                return [("direction", self.tag, i) for i in range(self.space_dim)]

            def dof_entities(self):
                return [self.ent(i) for i in range(self.space_dim)]

            def entity_dofs(self, d, k):
                return [i for i in range(self.space_dim) if self.ent(i) == (d, k)]

            def get_basis_functions(self, use_tensor_factorisation=False):
                return self.functions

            def map_to_cell(self, vertices_in, basis=None, forward_map=None, inverse_map=None):
                self.got.append((vertices_in, forward_map, inverse_map))
                b = self.functions if basis is None else basis
                if len(b) != self.space_dim:
                    raise ValueError(f"part {self.tag} of {self.space_dim} functions was asked to map {len(b)}")
                return [func(sympy.Function(f"M{self.tag}")(f.as_sympy())) for f in b]

            def get_polynomial_basis(self):
                raise NotImplementedError()

            maximum_degree = 1
            names = ["part"]

        h = H(n)
        h.functions = [func(sympy.Function(f"P{p}_{i}")(*X)) for i in range(n)]
        parts.append(h)
    return parts


def run_enriched(cell, dims, how):
    import symfem
    from symfem.finite_element import EnrichedElement

    ref = symfem.create_reference(cell)

    class H(EnrichedElement):
        names = ["stub"]

    parts = stub_parts(ref, dims)
    e = H(parts)
    total = sum(dims)
    if (e.space_dim, e.reference, e.domain_dim, e.range_dim, e.range_shape) != (total, ref, ref.tdim, 1, None):
        return False, f"space_dim {e.space_dim}"
    flatf = [f for p in parts for f in p.functions]
    for _ in range(2):
        if [f.as_sympy() for f in e.get_basis_functions()] != [f.as_sympy() for f in flatf]:
            return False, f"functions {e.get_basis_functions()}"
        if [len(p.functions) for p in parts] != list(dims):
            return False, "a part's functions changed"
    for what in ("dof_plot_positions", "dof_directions", "dof_entities"):
        if getattr(e, what)() != [q for p in parts for q in getattr(p, what)()]:
            return False, f"{what}: {getattr(e, what)()}"
    where = e.dof_entities()
    for en in entities(cell):
        if list(e.entity_dofs(*en)) != [i for i, w in enumerate(where) if w == en]:
            return False, f"dofs of {en}: {e.entity_dofs(*en)}"
    for n in range(total):
        if e.get_basis_function(n).get_function().as_sympy() != flatf[n].as_sympy():
            return False, f"basis function {n}"
    kw = {}
    src = flatf
    if how in ("basis", "all"):
        src = kw["basis"] = [func(sympy.Function(f"G{i}")(*X)) for i in range(total)]
    if how in ("maps", "all"):
        kw["forward_map"], kw["inverse_map"] = ("f",), ("i",)
    verts = cell_vertices(cell, 0)
    got = [f.as_sympy() for f in e.map_to_cell(verts, **kw)]
    want, k = [], 0
    for p, n in enumerate(dims):
        want += [sympy.Function(f"M{p}")(f.as_sympy()) for f in src[k:k + n]]
        k += n
    if got != want:
        return False, f"mapped to {got} instead of {want}"
    for p in parts:
        for v, f, i in p.got:
            if tuple(map(tuple, v)) != verts or (how in ("maps", "all") and (f, i) != (("f",), ("i",))):
                return False, f"part mapped with {v}, {f}, {i}"
    return True, ""


def enriched(R):
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        for dims in [(1,), (3,), (1, 1), (2, 1), (1, 2), (3, 2), (1, 2, 3), (3, 1, 2), (2, 2, 2, 1)]:
            for how in ("default", "basis", "maps", "all"):
                try:
                    ok, why = run_enriched(cell, dims, how)
                except Exception as ex:
                    ok, why = False, repr(ex)
                R.bounded(f"{cell}/{'-'.join(map(str, dims))}/{how}", ok, why, {"kind": "enriched", "cell": cell, "dims": dims, "how": how})


def run_mismatch(what):
    """Parts on different cells, or with values of different shapes, are refused."""
    import symfem
    from symfem.finite_element import EnrichedElement

    class H(EnrichedElement):
        names = ["stub"]

    ref = symfem.create_reference("triangle")
    a, b = stub_parts(ref, (2, 1))
    if what == "reference":
        b.reference = symfem.create_reference("triangle", ((0, 0), (2, 0), (0, 1)))
    if what == "range":
        b.range_dim = 2
    if what == "shape":
        a.range_dim = b.range_dim = 4
        a.range_shape, b.range_shape = (2, 2), (4,)
    if what == "domain":
        b.domain_dim = 3
    for parts in ([a, b], [b, a]):
        try:
            H(parts)
        except Exception:
            continue
        return False, f"parts with different {what} were combined"
    return True, ""


def mismatch(R):
    for w in ("reference", "range", "shape", "domain"):
        ok, why = run_mismatch(w)
        R.bounded(w, ok, why, {"kind": "mismatch", "what": w})


# ---------------------------------------------------------------- registered elements
def push(name, vals, A):
    """The push-forward of values (numbers) at the point that maps to x, by definition (A: matrix of the map, numpy)."""
    import numpy as np

    d = A.shape[0]
    det = np.linalg.det(A)
    v = np.array(vals, dtype=float)
    if name == "identity":
        return vals
    if name == "l2":
        return list(v / abs(det))
    if name == "covariant":
        return list(np.linalg.inv(A).T @ v)
    if name == "contravariant":
        return list(A @ v / det)
    F = v.reshape(d, d)
    if name == "double_covariant":
        return list((np.linalg.inv(A).T @ F @ np.linalg.inv(A)).ravel())
    if name == "double_contravariant":
        return list((A @ F @ A.T / det**2).ravel())
    raise ValueError(name)


def fpieces(f):
    from symfem.piecewise_functions import PiecewiseFunction

    if isinstance(f, PiecewiseFunction):
        return [(tuple(tuple(map(S, p)) for p in k), flat(q)) for k, q in f._pieces.items()]
    return [(None, flat(f))]


def same_functions(a, b):
    if len(a) != len(b):
        return f"{len(a)} functions and {len(b)}"
    for i, (f, g) in enumerate(zip(a, b)):
        p, q = dict(fpieces(f)), dict(fpieces(g))
        if {frozenset(k) if k else None for k in p} != {frozenset(k) if k else None for k in q}:
            return f"function {i} has pieces {list(p)} and {list(q)}"
        q = {frozenset(k) if k else None: v for k, v in q.items()}
        for k, v in p.items():
            w = q[frozenset(k) if k else None]
            if len(v) != len(w) or not all(close(m, n) for r, t in zip(evaluate(v), evaluate(w)) for m, n in zip(r, t)):
                return f"function {i}: {v} and {w}"[:400]
    return ""


def run_real(name, cell, order, kw, k, physical=True):
    from symfem.finite_element import CiarletElement, EnrichedElement
    from symfem.mappings import MappingNotImplemented
    from symfem.references import NonDefaultReferenceError

    cls = find(name, cell)
    e = build(cls, cell, order, kw)
    verts = cell_vertices(cell, k)
    before = [fpieces(f) for f in e.get_basis_functions()]
    other = None
    try:
        other = build(cls, cell, order, kw, verts)
    except NonDefaultReferenceError:
        pass
    try:
        m = e.map_to_cell(verts)
    except MappingNotImplemented:
        return True, "refuses"
    except NonDefaultReferenceError:
        return other is None, "map_to_cell refuses to create the element on the cell, create_element does not"
    if [fpieces(f) for f in e.get_basis_functions()] != before:
        return False, "map_to_cell changed the reference basis"
    A, b = frame_map(cell, k)
    d = A.shape[0]
    import numpy as np

    An, bn = np.array(A.tolist(), dtype=float), np.array(b.tolist(), dtype=float).ravel()
    image = [tuple(An @ np.array(p[:d]) + bn) + (0.0,) * (3 - d) for p in POINTS]
    parts = e._subelements if isinstance(e, EnrichedElement) else [e]
    pos = 0
    for part in parts:
        n = part.space_dim
        if isinstance(part, CiarletElement):
            dofs = part.dofs
            from symfem import functionals

            if not any(dof.mapping is None for dof in dofs):
                for i, dof in enumerate(dofs):
                    got = fpieces(m[pos + i])
                    if len(got) != len(before[pos + i]):
                        return False, f"function {pos + i} has {len(got)} pieces"
                    for (gk, gv), (rk, rv) in zip(got, before[pos + i]):
                        for p, r, g in zip(POINTS, evaluate(rv), evaluate(gv, image)):
                            w = push(dof.mapping, r, An)
                            if len(w) != len(g) or not all(close(x, y) for x, y in zip(w, g)):
                                return False, f"function {pos + i} is mapped ({dof.mapping}) to {gv}; its value at the image of {p} should be {w}"[:600]
                        if rk is not None and gk != tuple(tuple(A * sympy.Matrix(p) + b) for p in rk):
                            return False, f"function {pos + i} has a piece on {gk}"
        pos += n
    if isinstance(e, EnrichedElement):
        sep = [f for part in parts for f in part.map_to_cell(verts)]
        why = same_functions(m, sep)
        if why:
            return False, "enriched / parts: " + why
        why = same_functions(m, e.map_to_cell(verts, basis=e.get_basis_functions()))
        if why:
            return False, "basis given: " + why
    if other is not None and physical:
        why = same_functions(m, other.get_basis_functions())
        if why:
            return False, "mapped / dual on the cell: " + why
    return True, ""


def run_kwargs(name, cell, order, kw):
    """init_kwargs describes the element: building with it gives the same element."""
    cls = find(name, cell)
    e = build(cls, cell, order, kw)
    k2 = e.init_kwargs()
    if any(k2.get(a, v) != v for a, v in kw.items()) or set(kw) - set(k2):
        return False, f"created with {kw}, init_kwargs says {k2}"
    return True, ""


COSTLY = {("tetrahedron", "NedelecFirstKind"), ("tetrahedron", "NedelecSecondKind"), ("tetrahedron", "RaviartThomas"), ("tetrahedron", "BDM"),
          ("triangle", "NedelecSecondKind"), ("tetrahedron", "MatrixLagrange"), ("tetrahedron", "VectorLagrange"), ("triangle", "BubbleEnrichedLagrange"),
          ("tetrahedron", "Bubble"), ("hexahedron", "Bubble"), ("tetrahedron", "SymmetricMatrixLagrange"), ("tetrahedron", "Regge"), ("tetrahedron", "HellanHerrmannJohnson"),
          ("tetrahedron", "GuzmanNeilanFirstKind"), ("tetrahedron", "GuzmanNeilanSecondKind"), ("tetrahedron", "BernardiRaugel"), ("hexahedron", "TrimmedSerendipityHcurl"),
          ("hexahedron", "TrimmedSerendipityHdiv")}


def real(R, name, cell, kw, count):
    cls = find(name, cell)
    tag = "".join(kw.values())
    for n, o in enumerate(orders(cls, cell, count)):
        if (name, cell) == ("KongMulderVeldhuizen", "tetrahedron") and o > 1:
            continue  # the exact inverse of its dual matrix takes hours
        case = {"kind": "real", "name": name, "cell": cell, "order": o, "kw": kw}
        try:
            build(cls, cell, o, kw)
        except Exception:
            continue  # not offered (property R01)
        try:
            ok, why = run_kwargs(name, cell, o, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"order{o}{tag}/kwargs", ok, why, {**case, "kind": "kwargs"})
        for k in (0, 1):
            if (n or tag not in ("", "equispaced")) and k == 0 and not R.thorough:
                continue
            try:
                ok, why = run_real(name, cell, o, kw, k)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.bounded(f"order{o}{tag}/cell{k}", ok, why, {**case, "k": k})


def units(tier):
    u = []
    for name, cell, kw in [(c.__name__, cell, kw) for c, cell, kw in classes() if cell != "dual polygon"]:
        lo = 2 if (cell, name) not in COSTLY and cell != "hexahedron" and kw.get("variant", "equispaced") == "equispaced" else 1
        u.append((f"element/{name}/{cell}/{''.join(kw.values()) or 'default'}", real, name, cell, kw, lo + (tier == "thorough")))
    u.sort(key=lambda t: (t[2], t[3]) not in COSTLY and "tetrahedron" not in t[0])
    for cell in spec.VERTS:
        if cell != "point":
            u.append((f"dispatch/{cell}", dispatch, cell))
            if cell != "pyramid":
                u.append((f"symbolic/{cell}", symbolic, cell))
    u.append(("pieces", pieces))
    u.append(("enriched", enriched))
    u.append(("mismatch", mismatch))
    return u


def replay(c):
    k = c["kind"]
    try:
        if k == "dispatch":
            ok, why = run_dispatch(c["cell"], c["dofs"], c["how"])
        elif k == "symbolic":
            ok, why = run_symbolic(c["cell"])
        elif k == "pieces":
            ok, why = run_pieces(c["cell"])
        elif k == "enriched":
            ok, why = run_enriched(c["cell"], tuple(c["dims"]), c["how"])
        elif k == "mismatch":
            ok, why = run_mismatch(c["what"])
        elif k == "kwargs":
            ok, why = run_kwargs(c["name"], c["cell"], c["order"], c["kw"])
        else:
            ok, why = run_real(c["name"], c["cell"], c["order"], c["kw"], c["k"])
    except Exception as ex:
        ok, why = False, repr(ex)
    return not ok, f"{c}: {why}"
