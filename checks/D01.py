"""D01: degree-of-freedom functionals evaluate their definitions."""
from pyvc import env  # noqa: F401
import contextlib
import itertools
import random

import sympy
from sympy.core.function import AppliedUndef

from checks.F01 import basis_class, func, same, value
from pyvc import engine, smt, spec
from pyvc.formal import formal_integrals
from pyvc.jets import field
from pyvc.spec import T, X

LEVEL = "proof"
LEVEL_NOTE = ("Every functional is executed on functions whose entries (and all their derivatives) are uninterpreted, on every sub-entity of every default "
              "cell and on affine cells with symbolic vertices; its value is proved to be the point value or the integral its definition states. Moments "
              "against a space are proved modularly against the contract of the space.")
TRUSTED = ["sympy.integrate computes the iterated integral it is asked for"]
ASSUMPTIONS = ["functions are smooth on each piece", "cells are affine and non-degenerate (default cells for matrix moments)",
               "inner-product moments are scaled by the entity's jacobian, as coded (for a triangle the LaTeX description says its area)"]
BOUNDS = "bounded: polynomials on macro cells and evaluation to floats"
S = sympy.S
CELLS = ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid")
KIND = {1: {2: "interval"}, 2: {3: "triangle", 4: "quadrilateral"}}


# ------------------------------------------------------------------ definitions
def diffv(e, v):
    return tuple(diffv(i, v) for i in e) if isinstance(e, tuple) else sympy.diff(e, v)


def subv(e, d):
    return tuple(subv(i, d) for i in e) if isinstance(e, tuple) else S(e).subs(d, simultaneous=True)


def at(e, p, vs=X):
    return subv(e, dict(zip(vs, p)))


def dot(a, b):
    if isinstance(a, tuple):
        return sum((dot(i, j) for i, j in zip(a, b)), S(0))
    return a * b


def grad(e, n):
    return tuple(sympy.diff(e, v) for v in X[:n])


def div(e):
    return sum((sympy.diff(c, v) for c, v in zip(e, X)), S(0))


def lvr(l, v, r):
    return sum((a * c * b for a, row in zip(l, v) for c, b in zip(row, r)), S(0))


def entity_vertices(cell, verts, dim, n):
    td = spec.TDIM[cell]
    if dim == td:
        return cell, tuple(verts)
    idx = spec.EDGES[cell][n] if dim == 1 else spec.FACES[cell][n]
    return KIND[dim][len(idx)], tuple(verts[i] for i in idx)


def entities(cell):
    td = spec.TDIM[cell]
    for dim in range(1, td + 1):
        n = 1 if dim == td else len(spec.EDGES[cell] if dim == 1 else spec.FACES[cell])
        for i in range(n):
            yield dim, i


def axes(kind, verts):
    return [tuple(S(b) - a for a, b in zip(verts[0], verts[i])) for i in spec.AXES[kind]]


def measure(kind, verts):
    ax = axes(kind, verts)
    if len(ax) == len(verts[0]):
        return sympy.Abs(sympy.expand(spec.det(ax)))
    return sympy.sqrt(sympy.expand(spec.gram_det(ax)))


def unit_normal(kind, verts):
    ax = axes(kind, verts)
    w = (-ax[0][1], ax[0][0]) if len(ax) == 1 else spec.cross(*ax)
    n = sympy.sqrt(sympy.expand(spec.dot(w, w)))
    return tuple(i / n for i in w)


def unit_tangent(kind, verts):
    (a,) = axes(kind, verts)
    n = measure(kind, verts)
    return tuple(i / n for i in a)


def matvec(m, v):
    return tuple(spec.dot(r, v) for r in m)


def transposed(cols):
    return tuple(zip(*cols))


def piola(kind, verts, q):
    """Contravariant image on the entity of a vector (matrix) field given in local coordinates."""
    J = transposed(axes(kind, verts))
    g = measure(kind, verts)
    ax = axes(kind, verts)
    d = spec.det(ax) if len(ax) == len(verts[0]) else g
    if isinstance(q[0], tuple):
        return tuple(tuple(sum((J[i][a] * q[a][b] * J[j][b] for a in range(len(q)) for b in range(len(q))), S(0)) / d ** 2
                           for j in range(len(J))) for i in range(len(J)))
    return tuple(c / d for c in matvec(J, q))


def inverse_transpose(mapping, cell, verts, w):
    """What pairs with a field mapped by `mapping` as w pairs with the reference field."""
    ax = axes(cell, verts)
    if mapping == "identity":
        return w
    if mapping == "covariant":
        return matvec(transposed(ax), w)
    d = spec.det(ax)
    m = sympy.Matrix(len(ax), len(ax), lambda i, j: ax[j][i])
    adj = m.cofactor_matrix() if len(ax) > 1 else sympy.eye(1)  # det(J) J^-T
    del d
    return tuple(sum((adj[i, j] * w[j] for j in range(len(ax))), S(0)) for i in range(len(ax)))


# kinds of integral functional: value shape of v, shape of q, allowed entities, the pairing
def shapes(kind, g, td, dim):
    """(shape of v, shape of q) or None where the functional is not defined."""
    t = {
        "against-scalar": ((), ()), "against-vector": ((g,), (dim,)), "against-matrix": ((g, g), (dim, dim)),
        "div-against": ((g,), ()), "multi": ((), None), "moment-scalar": ((), ()), "moment-vector": ((g,), (dim,)),
        "moment-vector-g": ((g,), (g,)), "moment-matrix": ((g, g), (dim, dim)), "derivative": ((), ()), "div-moment": ((g,), ()),
        "tangent": ((g,), ()), "normal": ((g,), ()), "normal-derivative": ((), ()), "inner": ((g, g), ()), "normal-inner": ((g, g), ()),
    }[kind]
    if kind == "tangent" and dim != 1:
        return None
    if kind in ("against-vector", "against-matrix", "moment-vector", "moment-matrix") and dim == 1 < g:
        return None  # refused: there is no contravariant map to a curve
    if kind.startswith("normal") and not (dim == g - 1 and dim > 0):
        return None
    if kind == "moment-vector-g" and dim == g:
        return None
    return t


INTEGRAL_KINDS = ("against-scalar", "against-vector", "against-matrix", "div-against", "multi", "moment-scalar", "moment-vector", "moment-vector-g",
                  "moment-matrix", "derivative", "div-moment", "tangent", "normal", "normal-derivative", "inner", "normal-inner")
WITH_REF = ("moment-scalar", "moment-vector", "moment-vector-g", "derivative", "div-moment", "normal-derivative", "inner")


class SubDof:
    """Stands for the degree of freedom of the space that the moment is taken against."""

    def __init__(self, point, direction):
        self.point, self.direction = point, direction

    def dof_point(self):
        return self.point

    def dof_direction(self):
        return self.direction


PARAMS = {"w": sympy.symbols("w0 w1 w2"), "l": sympy.symbols("l0 l1 l2"), "r": sympy.symbols("r0 r1 r2"),
          "d": (sympy.symbols("d0 d1 d2"), sympy.symbols("e0 e1 e2")), "scale": sympy.Symbol("sc")}


def make(kind, ref, q, entity, mapping, dof, P=PARAMS):
    from symfem import functionals as f

    g = ref.gdim
    kw = {} if mapping is None else {"mapping": mapping}
    if kind.startswith("against"):
        return f.IntegralAgainst(ref, q, entity, **kw)
    if kind == "div-against":
        return f.IntegralOfDivergenceAgainst(ref, q, entity, **kw)
    if kind == "multi":
        return f.IntegralOfDirectionalMultiderivative(ref, (P["d"][0][:g], P["d"][1][:g]), (1, 2), entity, scale=P["scale"], **kw)
    if kind.startswith("moment"):
        return f.IntegralMoment(ref, q, dof, entity, **kw)
    if kind == "derivative":
        return f.DerivativeIntegralMoment(ref, q, P["w"][:g], dof, entity, **kw)
    if kind == "div-moment":
        return f.DivergenceIntegralMoment(ref, q, dof, entity, **kw)
    if kind == "tangent":
        return f.TangentIntegralMoment(ref, q, dof, entity, **kw)
    if kind == "normal":
        return f.NormalIntegralMoment(ref, q, dof, entity, **kw)
    if kind == "normal-derivative":
        return f.NormalDerivativeIntegralMoment(ref, q, dof, entity, **kw)
    if kind == "inner":
        return f.InnerProductIntegralMoment(ref, q, P["l"][:g], P["r"][:g], dof, entity, **kw)
    return f.NormalInnerProductIntegralMoment(ref, q, dof, entity, **kw)


def weight(kind, cell, verts, entity, q, mapping):
    """The moment function on the entity, in local coordinates, without the scaling of the measure."""
    ek, ev = entity_vertices(cell, verts, *entity)
    dk, dv = entity_vertices(cell, spec.VERTS[cell], *entity)
    if kind.startswith("against"):
        return piola(ek, ev, q) if isinstance(q, tuple) else q
    if kind in ("moment-vector", "moment-matrix") and entity[0] != spec.TDIM[cell]:
        q = piola(dk, dv, q)
    if kind in WITH_REF and mapping not in (None, "identity"):
        q = inverse_transpose(mapping, cell, verts, q)
    return q


def definition(kind, cell, verts, entity, v, q, mapping, P=PARAMS):
    """The integrand (in local coordinates T on the entity) of the functional, the measure included."""
    ek, ev = entity_vertices(cell, verts, *entity)
    dk, dv = entity_vertices(cell, spec.VERTS[cell], *entity)
    g = len(verts[0])
    ax = axes(ek, ev)
    point = tuple(S(o) + sum(t * a[i] for t, a in zip(T, ax)) for i, o in enumerate(ev[0]))
    mu = measure(ek, ev)
    if tuple(verts) != tuple(spec.VERTS[cell]) and kind in WITH_REF:
        mu = measure(dk, dv)  # the moment function is scaled by the ratio of the volumes
    w = weight(kind, cell, verts, entity, q, mapping) if q is not None else None
    if kind in ("against-scalar", "against-vector", "against-matrix"):
        core = dot(at(v, point), w) / measure(cell, verts)
    elif kind in ("div-against", "div-moment"):
        core = at(div(v), point) * w
    elif kind == "multi":
        e = v
        for d, o in zip(P["d"], (1, 2)):
            for _ in range(o):
                e = spec.dot(d[:g], grad(e, g))
        core = P["scale"] * at(e, point)
    elif kind.startswith("moment"):
        core = dot(at(v, point), w)
    elif kind == "derivative":
        core = spec.dot(P["w"][:g], at(grad(v, g), point)) * w
    elif kind == "tangent":
        core = spec.dot(at(v, point), unit_tangent(ek, ev)) * w
    elif kind == "normal":
        core = spec.dot(at(v, point), unit_normal(ek, ev)) * w
    elif kind == "normal-derivative":
        core = spec.dot(at(grad(v, g), point), unit_normal(ek, ev)) * w
    elif kind == "inner":
        core = lvr(P["l"][:g], at(v, point), P["r"][:g]) * w * measure(ek, ev)
    else:
        n = unit_normal(ek, ev)
        core = lvr(n, at(v, point), n) * w * measure(ek, ev)
    return mu * core


def qfield(shape, vs):
    return None if shape is None else field(shape, "q", vs)


def region(limits):
    c = []
    for v, a, b in limits:
        c += [v >= a, v <= b]
    return sympy.And(*c)


def integral_is(R, name, tab, out, ek, want, case, zero=None):
    """out is the integral over the default cell `ek` of want, an expression in T."""
    d = spec.TDIM[ek]
    zero = zero or (lambda e: smt.is_zero(e))
    try:
        e, limits = tab.split(out)
    except ValueError as ex:
        R.undecided(f"{name}/one-integral", str(ex), [case])
        return
    bound = [i[0] for i in limits]
    R.ok(f"{name}/variables", len(bound) == d == len(set(bound)) and all(len(i) == 3 for i in limits), str(limits), case)
    if len(bound) != d:
        return
    order = None
    for perm in itertools.permutations(bound):
        if zero(e.subs(dict(zip(perm, T)), simultaneous=True) - want):
            order = perm
            break
    R.ok(f"{name}/integrand", order is not None, f"{e} over {limits}, expected {want}", case, backend="ring")
    if order is None:
        return
    ren = dict(zip(order, T))
    lim = [tuple(S(c).xreplace(ren) for c in i) for i in limits]
    key = tuple(map(str, lim))
    if (ek, key) in _good_regions:
        R.ok(f"{name}/region", True)
        return
    n = len(R.obs)
    R.ok(f"{name}/limits-well-formed", all(not (S(b).free_symbols & {j[0] for j in lim[:k + 1]}) for k, i in enumerate(lim) for b in i[1:]),
         str(limits), case)
    want_r, reg = spec.cell_condition(ek, T[:d]), region(lim)
    R.implies(f"{name}/region-in-cell", [reg], want_r, lambda m: case)
    R.implies(f"{name}/cell-in-region", [want_r], reg, lambda m: case)
    for k, i in enumerate(lim):
        R.implies(f"{name}/oriented{k}", [region(lim[k + 1:])], i[1] <= i[2], lambda m: case)
    if all(o["status"] == "discharged" for o in R.obs[n:]):
        _good_regions.add((ek, key))


_good_regions = set()


def default_mapping(kind):
    return None


def integral_case(kind, cell, entity, form, seed=0):
    return {"kind": "integral", "functional": kind, "cell": cell, "entity": list(entity), "form": form, "seed": seed}


def on_default(R, kind, cell):
    """Contract on the default cell: every sub-entity."""
    from symfem import create_reference

    verts = spec.VERTS[cell]
    g = spec.TDIM[cell]
    for entity in entities(cell):
        s = shapes(kind, g, g, entity[0])
        if s is None:
            continue
        ek, ev = entity_vertices(cell, verts, *entity)
        for form in ("function", "basis"):
            v = field(s[0], "v", X[:g])
            q = qfield(s[1], X[:entity[0]])
            case = integral_case(kind, cell, entity, form)
            name = f"{entity[0]}-{entity[1]}/{form}"
            try:
                ref = create_reference(cell)
                f = func(v)
                if form == "basis":
                    f = basis_class()(f)
                dof = SubDof(tuple(S(1) / 3 for _ in range(entity[0])), None)
                with formal_integrals(True) as tab:
                    d = make(kind, ref, q, entity, None, dof)
                    free = kind in ("multi", "derivative", "inner")
                    out = value(d._eval_symbolic(f) if free else d.eval(f))
                qT = None if q is None else at(q, T)
                integral_is(R, name, tab, out, ek, definition(kind, cell, verts, entity, v, qT, None), case)
                metadata(R, name, d, kind, cell, verts, entity, ref)
            except Exception as ex:
                R.undecided(f"{name}/returns", repr(ex), [case])


def symbolic_cell(cell, gdim):
    v = [tuple(engine.sym(f"v{i}_{j}") for j in range(gdim)) for i in range(spec.TDIM[cell] + 1)]
    verts = spec.affine_vertices(cell, v)
    ax = [tuple(b - a for a, b in zip(v[0], w)) for w in v[1:]]
    g = sympy.expand(spec.gram_det(ax)) if len(ax) != gdim else sympy.expand(spec.det(ax))
    return verts, [sympy.Ne(g, 0)]


MAPPINGS = {"moment-scalar": ("identity",), "moment-vector": ("covariant", "contravariant"), "moment-vector-g": ("covariant", "contravariant"),
            "derivative": ("identity",), "div-moment": ("identity",), "normal-derivative": ("identity",), "inner": ("identity",),
            "tangent": ("covariant",), "normal": ("contravariant",)}


def path_values(pc):
    """Symbols that a path condition fixes."""
    d = {}
    for c in pc:
        if isinstance(c, sympy.Eq):
            s = sympy.solve(c, list(c.free_symbols), dict=True) if len(c.free_symbols) == 1 else []
            if len(s) == 1:
                d.update(s[0])
    return d


@contextlib.contextmanager
def stub_map(mapping, calls):
    """The inverse-transpose map replaced by its contract: a field W (M02 proves what it is)."""
    if mapping is None:
        yield
        return
    from symfem import mappings
    from symfem.functions import VectorFunction

    name = f"{mapping}_inverse_transpose"
    old = getattr(mappings, name)

    def stub(f, m, i, *a, **kw):
        calls.append((f, m, i, a, kw))
        return VectorFunction(field((len(m),), "W", T))

    setattr(mappings, name, stub)
    try:
        yield
    finally:
        setattr(mappings, name, old)


def on_affine(R, kind, cell, gdim, mapping):
    """Contract on a cell with symbolic vertices: every sub-entity."""
    from symfem import create_reference

    verts, pre = symbolic_cell(cell, gdim)
    R.cover("pre", pre)
    td = spec.TDIM[cell]
    modular = cell == "tetrahedron" and mapping == "contravariant" and kind.startswith("moment-vector")
    for entity in entities(cell):
        s = shapes(kind, gdim, td, entity[0])
        if s is None or (kind == "against-matrix") or (kind == "moment-vector-g" and td != gdim):
            continue
        ek, ev = entity_vertices(cell, verts, *entity)
        v = field(s[0], "v", X[:gdim])
        q = qfield(s[1], X[:entity[0]])
        case = {"kind": "affine", "functional": kind, "cell": cell, "gdim": gdim, "entity": list(entity), "mapping": mapping, "seed": 0}

        calls = []

        def run():
            dof = SubDof(tuple(S(1) / 3 for _ in range(entity[0])), None)
            del calls[:]
            with formal_integrals(True) as tab, stub_map(mapping if modular else None, calls):
                ref = create_reference(cell, verts)
                d = make(kind, ref, q, entity, mapping, dof)
                return value(d._eval_symbolic(func(v))), tab, list(calls), ref

        for k, p in enumerate(engine.explore(run, pre)):
            name = f"{entity[0]}-{entity[1]}/path{k}"
            if p.exc is not None:
                R.undecided(f"{name}/returns", repr(p.exc), [case])
                continue
            fixed = path_values(p.pc)
            vv = tuple(tuple(S(c).subs(fixed) for c in w) for w in verts)
            qT = None if q is None else at(q, T)
            out, tab, log, ref = p.value
            if modular and log:
                # the map is applied once, to the moment function, with the maps of the cell
                f, m, inv, a, kw = log[0]
                w = weight(kind, cell, verts, entity, qT, None)
                R.ok(f"{name}/mapped-once", len(log) == 1 and (a == (False,) or kw == {"substitute": False}), str(log)[:300], case)
                R.ok(f"{name}/mapped-function", same(value(f), w), f"{f}, expected {w}", case, backend="ring")
                R.ok(f"{name}/mapped-with", same(value(m), value(ref.get_map_to_self())) and same(value(inv), value(ref.get_inverse_map_to_self())),
                     "", case)
                want = definition(kind, cell, vv, entity, v, field((gdim,), "W", T), "identity")
                if kind == "moment-vector" and entity[0] != td:
                    want = definition("moment-vector-g", cell, vv, entity, v, field((gdim,), "W", T), "identity")
            else:
                want = definition(kind, cell, vv, entity, v, qT, mapping)
            integral_is(R, name, tab, out, ek, want, case, lambda e: smt.is_zero(e.subs(fixed)))


# ------------------------------------------------------------------ metadata
def metadata(R, name, d, kind, cell, verts, entity, ref):
    """Where the functional is attached, its point and its direction."""
    ek, ev = entity_vertices(cell, verts, *entity)
    g = len(verts[0])
    ax = axes(ek, ev)
    case = {"kind": "metadata", "functional": kind, "cell": cell, "entity": list(entity)}
    R.ok(f"{name}/entity", tuple(d.entity) == tuple(entity) and d.entity_dim() == entity[0] and d.entity_number() == entity[1], str(d.entity), case)
    R.ok(f"{name}/reference", d.reference == ref, str(d.reference), case)
    mid = tuple(sum(c) / S(len(ev)) for c in zip(*ev))
    moment = not (kind.startswith("against") or kind in ("div-against", "multi"))
    if moment:
        want = tuple(o + sum(a[i] / S(3) for a in ax) for i, o in enumerate(ev[0]))
    else:
        want = mid
    R.ok(f"{name}/dof-point", same(value(d.dof_point()), want), f"{d.dof_point()}, expected {want}", case)
    adj = tuple(m + sympy.Rational(7, 10) * (p - m) for m, p in zip(mid, want))
    R.ok(f"{name}/adjusted-dof-point", same(value(d.adjusted_dof_point()), adj), f"{d.adjusted_dof_point()}, expected {adj}", case)


def direction_cases(cell, entity):
    """(functional kind, direction of the sub-space's dof, moment function, expected direction)."""
    verts = spec.VERTS[cell]
    g, dim = spec.TDIM[cell], entity[0]
    ek, ev = entity_vertices(cell, verts, *entity)
    ax = axes(ek, ev)
    p = tuple(S(i + 1) / 7 for i in range(dim))
    local = tuple(S(2 * i + 1) for i in range(dim))
    image = tuple(sum((c * a[i] for c, a in zip(local, ax)), S(0)) for i in range(g))
    yield "moment-scalar", p, local, S(1), image
    yield "moment-scalar", p, None, S(1), None
    if dim == g or dim > 1:
        q = tuple(X[i % dim] ** 2 + i + 1 for i in range(dim))
        w = weight("moment-vector", cell, verts, entity, at(q, T), None)
        yield "moment-vector", p, None, q, at(w, p, T)
        yield "moment-vector", p, local, q, image
        z = tuple((X[0] - p[0]) for _ in range(dim))
        yield "moment-vector", p, None, z, None
    if dim == 1:
        yield "tangent", p, local, S(1), unit_tangent(ek, ev)
        yield "tangent", p, None, X[0], unit_tangent(ek, ev)
    if dim == g - 1 and dim > 0:
        for k in ("normal", "normal-derivative", "normal-inner"):
            yield k, p, None, X[0], unit_normal(ek, ev)
    yield "derivative", p, local, S(1), PARAMS["w"][:g]
    yield "inner", p, local, S(1), None
    yield "inner-same", p, local, S(1), PARAMS["l"][:g]
    yield "div-moment", p, None, S(1), None
    yield "against-scalar", None, None, S(1), None
    yield "div-against", None, None, S(1), None
    yield "multi", None, None, None, None


def run_direction(cell, entity, n):
    from symfem import create_reference

    kind, p, local, q, want = list(direction_cases(cell, tuple(entity)))[n]
    P = dict(PARAMS, r=PARAMS["l"]) if kind == "inner-same" else PARAMS
    d = make("inner" if kind == "inner-same" else kind, create_reference(cell), q, tuple(entity), None, SubDof(p, local), P)
    got = d.dof_direction()
    ok = got is None if want is None else got is not None and same(value(got), tuple(map(S, want)))
    if p is not None:
        ek, ev = entity_vertices(cell, spec.VERTS[cell], *entity)
        pt = tuple(S(o) + sum(c * a[i] for c, a in zip(p, axes(ek, ev))) for i, o in enumerate(ev[0]))
        ok = ok and same(value(d.dof_point()), pt)
    return ok, f"{kind} on {cell} {entity}: direction {got}, expected {want}; point {d.dof_point()}"


def directions(R, cell):
    for entity in entities(cell):
        for n, c in enumerate(direction_cases(cell, entity)):
            case = {"kind": "direction", "cell": cell, "entity": list(entity), "n": n}
            try:
                ok, text = run_direction(cell, entity, n)
            except Exception as ex:
                R.undecided(f"{entity[0]}-{entity[1]}/{n}-{c[0]}", repr(ex), [case])
                continue
            R.ok(f"{entity[0]}-{entity[1]}/{n}-{c[0]}", ok, text, case)


# ------------------------------------------------------------------ point functionals
def point_cases(g):
    P = PARAMS
    yield "point", (), lambda v, p: at(v, p)
    yield "point", (g,), lambda v, p: at(v, p)
    yield "point", (g, g), lambda v, p: at(v, p)
    for s in ((), (g,)):
        yield "weighted", s, lambda v, p: tuple(P["scale"] * i for i in at(v, p)) if isinstance(v, tuple) else P["scale"] * at(v, p)
    high = [tuple(n if j == i else m for j in range(g)) for i in range(g) for n in (3, 4, 6) for m in (0, 1)]
    for al in list(itertools.product(range(3), repeat=g)) + list(dict.fromkeys(high)):
        yield f"deriv{''.join(map(str, al))}", (), lambda v, p, al=al: at(sympy.diff(v, *[(x, n) for x, n in zip(X, al)]), p)
    yield "directional", (), lambda v, p: at(spec.dot(P["w"][:g], grad(v, g)), p)
    for i in range(g):
        for j in range(g):
            yield f"component{i}{j}", (), lambda v, p, i=i, j=j: at(sympy.diff(v, X[i], X[j]), p)
    yield "inner", (g, g), lambda v, p: lvr(P["l"][:g], at(v, p), P["r"][:g])
    yield "dot", (g,), lambda v, p: dot(at(v, p), P["w"][:g])
    yield "dot-function", (g,), lambda v, p: dot(at(v, p), at(field((g,), "h", X[:g]), p))
    yield "dot-matrix", (g, g), lambda v, p: dot(at(v, p), at(field((g, g), "h", X[:g]), p))
    yield "dot-scalar", (), lambda v, p: at(v, p) * P["scale"]
    yield "divergence", (g,), lambda v, p: at(div(v), p)


def make_point(name, ref, p, entity):
    from symfem import functionals as f

    g = ref.gdim
    P = PARAMS
    if name == "point":
        return f.PointEvaluation(ref, p, entity)
    if name == "weighted":
        return f.WeightedPointEvaluation(ref, p, P["scale"], entity)
    if name.startswith("deriv"):
        return f.DerivativePointEvaluation(ref, p, tuple(int(i) for i in name[5:]), entity)
    if name == "directional":
        return f.PointDirectionalDerivativeEvaluation(ref, p, P["w"][:g], entity)
    if name.startswith("component"):
        return f.PointComponentSecondDerivativeEvaluation(ref, p, (int(name[-2]), int(name[-1])), entity)
    if name == "inner":
        return f.PointInnerProduct(ref, p, P["l"][:g], P["r"][:g], entity)
    if name == "dot":
        return f.DotPointEvaluation(ref, p, P["w"][:g], entity)
    if name == "dot-function":
        return f.DotPointEvaluation(ref, p, field((g,), "h", X[:g]), entity)
    if name == "dot-matrix":
        return f.DotPointEvaluation(ref, p, field((g, g), "h", X[:g]), entity)
    if name == "dot-scalar":
        return f.DotPointEvaluation(ref, p, P["scale"], entity)
    return f.PointDivergenceEvaluation(ref, p, entity)


def point_direction(name, g):
    P = PARAMS
    return {"directional": P["w"][:g], "dot": P["w"][:g], "dot-function": field((g,), "h", X[:g])}.get(name)


def run_points(name, shape, want, cell, form, p, entity):
    from symfem import create_reference

    g = spec.TDIM[cell]
    ref = create_reference(cell)
    v = field(shape, "v", X[:g])
    f = func(v)
    if form == "basis":
        f = basis_class()(f)
    d = make_point(name, ref, p, entity)
    got = value(d._eval_symbolic(f))
    bad = []
    if not same(got, want(v, p)):
        bad.append(f"value {got}, expected {want(v, p)}")
    if not same(value(d.dof_point()), p) or not same(value(d.adjusted_dof_point()), p):
        bad.append(f"point {d.dof_point()} {d.adjusted_dof_point()}, expected {p}")
    w = point_direction(name, g)
    got = d.dof_direction()
    if (got is None) != (w is None) or w is not None and not same(value(got), w):
        bad.append(f"direction {got}, expected {w}")
    if tuple(d.entity) != entity or d.entity_dim() != entity[0] or d.entity_number() != entity[1] or d.reference != ref:
        bad.append(f"entity {d.entity}")
    if name == "inner":
        from symfem import functionals as f_

        e = f_.PointInnerProduct(ref, p, PARAMS["l"][:g], PARAMS["l"][:g], entity).dof_direction()
        if e is None or not same(value(e), PARAMS["l"][:g]):
            bad.append(f"direction {e} with equal vectors")
    return not bad, f"{name} of a {form} of shape {shape} on {cell}: {bad}"


def points(R, cell):
    g = spec.TDIM[cell]
    sym = tuple(sympy.Symbol(f"p{i}", real=True) for i in range(g))
    num = tuple(sympy.Rational(i + 1, 5 + i) for i in range(g))
    for i, (name, shape, want) in enumerate(point_cases(g)):
        for form in ("function", "basis"):
            for pt in ("symbolic", "number"):
                case = {"kind": "points", "cell": cell, "i": i, "form": form, "pt": pt}
                p = sym if pt == "symbolic" else num
                try:
                    ok, text = run_points(name, shape, want, cell, form, p, (g, 0))
                except Exception as ex:
                    ok, text = False, repr(ex)
                R.ok(f"{name}/{'x'.join(map(str, shape))}/{form}/{pt}", ok, text, case)


def run_normal_derivative(v, w, check):
    """PointNormalDerivativeEvaluation on an edge with the given ends."""
    from symfem import create_reference
    from symfem.functionals import PointNormalDerivativeEvaluation

    edge = create_reference("interval", (v, w))
    p = tuple((2 * a + b) / S(3) for a, b in zip(v, w))
    f = field((), "v", X[:2])
    d = PointNormalDerivativeEvaluation(create_reference("triangle"), p, edge, (1, 2))
    n = unit_normal("interval", (v, w))
    want = spec.dot(n, at(grad(f, 2), p))
    return check(value(d._eval_symbolic(func(f))), want) and check(value(d.dof_direction()), n) and tuple(d.entity) == (1, 2) and check(
        value(d.dof_point()), p)


def normal_derivative(R):
    v, w = [tuple(engine.sym(f"{n}{i}") for i in range(2)) for n in "vw"]
    pre = [sympy.Or(*[sympy.Ne(a, b) for a, b in zip(v, w)])]
    for k, p in enumerate(engine.explore(lambda: run_normal_derivative(v, w, same), pre)):
        R.ok(f"path{k}", p.exc is None and p.value, repr(p.exc), {"kind": "normal-derivative"})


# ------------------------------------------------------------------ piecewise functions
MACRO = {"interval": (((0,), (S(1) / 3,)), ((S(1) / 3,), (1,))),
         "triangle": (((0, 0), (1, 0), (S(1) / 3, S(1) / 3)), ((1, 0), (0, 1), (S(1) / 3, S(1) / 3)), ((0, 1), (0, 0), (S(1) / 3, S(1) / 3))),
         "tetrahedron": tuple(tuple((S(1) / 4,) * 3 if j == i else v for j, v in enumerate(spec.VERTS["tetrahedron"])) for i in range(4))}


def split_terms(tab, out):
    out = sympy.expand(out)
    res = {}
    for t in sympy.Add.make_args(out):
        ds = [d for d in tab.rec if t.has(d)]
        if len(ds) != 1:
            raise ValueError(f"{t} is not a multiple of one integral")
        res[ds[0]] = res.get(ds[0], 0) + t
    return list(res.values())


def piecewise(R, kind, cell):
    """Over the whole cell: the sum over the pieces of the integral over that piece."""
    from symfem import create_reference
    from symfem.piecewise_functions import PiecewiseFunction

    g = spec.TDIM[cell]
    pieces = MACRO[cell]
    verts = spec.VERTS[cell]
    entity = (g, 0)
    s = shapes(kind, g, g, g)
    case = {"kind": "macro", "functional": kind, "cell": cell, "seed": 0}
    for form in ("function", "basis"):
        vs = [field(s[0], f"v{chr(97 + k)}", X[:g]) for k in range(len(pieces))]
        q = qfield(s[1], X[:g])
        try:
            f = PiecewiseFunction({p: func(v) for p, v in zip(pieces, vs)}, g)
            if form == "basis":
                f = basis_class()(f)
            with formal_integrals(True) as tab:
                d = make(kind, create_reference(cell), q, entity, None, SubDof(tuple(S(1) / 3 for _ in range(g)), None))
                out = value(d._eval_symbolic(f))
            terms = split_terms(tab, out)
        except Exception as ex:
            R.undecided(f"{form}/returns", repr(ex), [case])
            continue
        R.ok(f"{form}/one-integral-per-piece", len(terms) == len(pieces), str(out), case)
        used = set()
        for n, term in enumerate(terms):
            e, limits = tab.split(term)
            ks = [k for k in range(len(pieces)) if any(str(a.func).startswith(f"v{chr(97 + k)}") for a in e.atoms(AppliedUndef))]
            R.ok(f"{form}/term{n}/piece", len(ks) == 1 and ks[0] not in used, str(e), case)
            if len(ks) != 1:
                continue
            k = ks[0]
            used.add(k)
            bound = [i[0] for i in limits]
            a = next(a for a in e.atoms(AppliedUndef) if str(a.func).startswith(f"v{chr(97 + k)}"))
            pt = tuple(sympy.expand(c) for c in a.args)
            ren = dict(zip(bound, T))
            lim = [tuple(S(c).xreplace(ren) for c in i) for i in limits]
            # the parametrisation covers the piece
            P = tuple(c.xreplace(ren) for c in pt)
            corners = {tuple(c.subs(dict(zip(T, w)), simultaneous=True) for c in P) for w in spec.VERTS[cell]}
            R.ok(f"{form}/term{n}/parametrises-piece", len(bound) == g and corners == {tuple(map(S, w)) for w in pieces[k]}
                 and all(sympy.Poly(c, *T).total_degree() <= 1 for c in P), f"{P}", case)
            reg = region(lim)
            R.implies(f"{form}/term{n}/region-in-piece", [reg], spec.cell_condition(cell, T[:g]), lambda m: case)
            R.implies(f"{form}/term{n}/piece-in-region", [spec.cell_condition(cell, T[:g])], reg, lambda m: case)
            for i, ll in enumerate(lim):
                R.implies(f"{form}/term{n}/oriented{i}", [region(lim[i + 1:])], ll[1] <= ll[2], lambda m: case)
            # on the default cell the local coordinates are the coordinates
            qT = None if q is None else at(q, T)
            want = definition(kind, cell, verts, entity, vs[k], qT, None).subs(dict(zip(T, P)), simultaneous=True)
            jac = sympy.Abs(spec.det([tuple(sympy.diff(c, t) for c in P) for t in T[:g]]))
            R.ok(f"{form}/term{n}/integrand", smt.is_zero(e.xreplace(ren) - jac * want), f"{e}, expected {jac * want}", case, backend="ring")


def point_on_pieces(R, cell):
    """Point functionals of a piecewise function use the piece that contains the point."""
    from symfem.piecewise_functions import PiecewiseFunction

    from symfem import create_reference

    g = spec.TDIM[cell]
    pieces = MACRO[cell]
    for i, (name, shape, want) in enumerate(point_cases(g)):
        if name == "dot-matrix" or name.startswith("deriv") and sum(map(int, name[5:])) > 2:
            continue
        vs = [field(shape, f"v{chr(97 + k)}", X[:g]) for k in range(len(pieces))]
        for k, pc in enumerate(pieces):
            p = tuple(sum(map(S, c)) / len(pc) for c in zip(*pc))
            for form in ("function", "basis"):
                case = {"kind": "piece-point", "cell": cell, "i": i, "k": k, "form": form}
                try:
                    f = PiecewiseFunction({q: func(v) for q, v in zip(pieces, vs)}, g)
                    if form == "basis":
                        f = basis_class()(f)
                    got = value(make_point(name, create_reference(cell), p, (g, 0))._eval_symbolic(f))
                    ok, text = same(got, want(vs[k], p)), f"{got}, expected {want(vs[k], p)}"
                except Exception as ex:
                    ok, text = False, repr(ex)
                R.ok(f"{name}/{'x'.join(map(str, shape))}/piece{k}/{form}", ok, text, case)


# ------------------------------------------------------------------ moments against a space
def run_moments(cell, keyword, how, order=2, minimum=1):
    """make_integral_moment_dofs against stubs of the space and of the functional."""
    from symfem import create_reference
    from symfem.moments import make_integral_moment_dofs

    made, asked = [], []

    class Space:
        min_order = minimum

        def __init__(self, ref, order, **kw):
            asked.append((ref.name, tuple(ref.vertices), order, kw))
            self.ref = ref
            self.dofs = [("dof", ref.name, i) for i in range({"interval": 2, "triangle": 3, "quadrilateral": 4}.get(ref.name, 5))]

        def get_basis_function(self, n):
            return ("basis", self.ref.name, n)

        def get_basis_functions(self, *a):
            return [("basis", self.ref.name, n) for n in range(len(self.dofs))]

    class Moment:
        def __init__(self, *a, **kw):
            made.append((a, kw))

    class Moment2(Moment):
        pass

    kw = {"variant": "v"}
    data = {"plain": (Moment, Space, order), "mapped": (Moment, Space, order, "m"), "kwargs": (Moment, Space, order, kw),
            "both": (Moment, Space, order, "m", kw)}
    td = spec.TDIM[cell]
    dims = {"edges": 1, "faces": 2, "volumes": 3, "cells": td, "facets": td - 1, "ridges": td - 2, "peaks": td - 3}
    dim = dims[keyword]
    per = None
    if how == "by-type":
        per = {"interval": data["mapped"], "triangle": (Moment2, Space, order, "tri"), "quadrilateral": (Moment, Space, order + 1, kw),
               "tetrahedron": data["plain"], "hexahedron": data["plain"], "prism": data["plain"], "pyramid": data["plain"]}
        arg = per
    else:
        arg = data[how]
    ref = create_reference(cell)
    try:
        out = make_integral_moment_dofs(ref, **{keyword: arg})
    except AssertionError:
        return dim <= 0, f"refused {keyword} on {cell}"
    want = []
    if 0 < dim <= td:
        for i in range(1 if dim == td else len(spec.EDGES[cell] if dim == 1 else spec.FACES[cell])):
            ek, _ = entity_vertices(cell, spec.VERTS[cell], dim, i)
            d = per[ek] if per else arg
            o = d[2]
            if o < minimum:
                continue
            m = {"mapping": d[3]} if len(d) > 3 and isinstance(d[3], str) else {}
            k = d[-1] if isinstance(d[-1], dict) else {}
            for n in range({"interval": 2, "triangle": 3, "quadrilateral": 4}.get(ek, 5)):
                want.append((d[0], ek, n, (dim, i), m, o, k))
    bad = []
    if len(out) != len(want) or len(made) != len(want):
        return False, f"{len(out)} functionals, expected {len(want)}"
    for obj, (a, kw_), (cls, ek, n, ent, m, o, k) in zip(out, made, want):
        pos = dict(zip(("reference", "f", "dof", "entity", "mapping"), a))
        pos.update(kw_)
        pos = {("f" if x == "f_in" else x): y for x, y in pos.items()}
        exp = {"reference": ref, "f": ("basis", ek, n), "dof": ("dof", ek, n), "entity": ent, **m}
        if type(obj) is not cls or pos != exp:
            bad.append((type(obj).__name__, pos, exp))
    for name, vs, o, k in asked:
        if tuple(tuple(map(S, v)) for v in vs) != tuple(tuple(map(S, v)) for v in spec.VERTS[name]):
            bad.append(f"space on {name} {vs}")
    need = {(w[1], w[5], str(w[6])) for w in want}
    if {(a[0], a[2], str(a[3])) for a in asked} != need:
        bad.append(f"spaces {asked}")
    return not bad, str(bad[:2])


def moments(R, cell):
    for keyword in ("edges", "faces", "volumes", "cells", "facets", "ridges", "peaks"):
        for how in ("plain", "mapped", "kwargs", "both", "by-type"):
            for order, minimum in ((2, 1), (0, 1), (0, 0), (1, 1)):
                case = {"kind": "moments", "cell": cell, "keyword": keyword, "how": how, "order": order, "minimum": minimum}
                try:
                    ok, text = run_moments(cell, keyword, how, order, minimum)
                except Exception as ex:
                    ok, text = False, repr(ex)
                R.ok(f"{keyword}/{how}/{order}-{minimum}", ok, text, case)


def run_all_keywords(cell):
    """Several kinds of entity at once: entities of lower dimension first, then by facets and cells."""
    from symfem import create_reference
    from symfem.moments import make_integral_moment_dofs

    td = spec.TDIM[cell]

    class Space:
        min_order = 0

        def __init__(self, ref, order, **kw):
            self.dofs = [("dof", ref.name, order)]
            self.o = order

        def get_basis_function(self, n):
            return ("f", self.o)

    class Moment:
        def __init__(self, ref, f, dof, entity, **kw):
            self.t = (f, dof, entity)

    kws = {"facets": (Moment, Space, 1), "cells": (Moment, Space, 2)}
    if td == 3:
        kws["edges"] = (Moment, Space, 3)
    out = [m.t for m in make_integral_moment_dofs(create_reference(cell), **kws)]
    want = []
    for key, dim in (("edges", 1), ("facets", td - 1), ("cells", td)):
        if key not in kws:
            continue
        o = kws[key][2]
        for i in range(1 if dim == td else len(spec.EDGES[cell] if dim == 1 else spec.FACES[cell])):
            want.append((("f", o), ("dof", entity_vertices(cell, spec.VERTS[cell], dim, i)[0], o), (dim, i)))
    return sorted(map(str, out)) == sorted(map(str, want)) and [o[2][0] for o in out] == [w[2][0] for w in want], f"{out}, expected {want}"


def combined(R):
    for cell in CELLS[1:]:
        ok, text = run_all_keywords(cell)
        R.ok(cell, ok, text, {"kind": "combined", "cell": cell})


# ------------------------------------------------------------------ mapping and evaluation
def run_mapping(name):
    """perform_mapping applies the declared map to every function, in order, with both maps."""
    from symfem import create_reference, functionals, mappings

    log = []

    def rec(f, m, i, *a, **k):
        log.append((f, m, i, a, k))
        return ("mapped", f)

    ref = create_reference("triangle")
    d = functionals.PointEvaluation(ref, (0, 0), (0, 0), name)
    old = getattr(mappings, name)
    setattr(mappings, name, rec)
    try:
        out = d.perform_mapping(["a", "b", "c"], "map", "inverse")
    finally:
        setattr(mappings, name, old)
    ok = list(out) == [("mapped", i) for i in "abc"] and [i[:3] for i in log] == [(i, "map", "inverse") for i in "abc"]
    return ok and all(not i[3] and not i[4] or i[3:] in (((True,), {}), ((), {"substitute": True})) for i in log), f"{log} {out}"


ORDERS = [(0,), (1,), (2,), (3,), (4,), (5,), (7,), (10,), (0, 0), (1, 1), (2, 1), (1, 3), (3, 0), (0, 4), (3, 3), (5, 2), (1, 6), (1, 1, 1), (2, 3, 1), (0, 4, 2),
          (3, 3, 3), (1, 1, 2, 2), (3, 1, 1, 1, 1)]


def run_orders(cell, entity, orders, seed):
    """Derivatives of every order in several directions."""
    from symfem import create_reference, functionals

    rng = random.Random(seed)
    g = spec.TDIM[cell]
    ds = [tuple(S(rng.randint(-2, 3)) for _ in range(g - 1)) + (S(rng.randint(1, 3)),) for _ in orders]
    v = S(0)
    for extra in range(2):  # a homogeneous part that becomes constant, and one that does not
        for _ in range(2):
            e = [0] * g
            for _ in range(sum(orders) + extra):
                e[rng.randrange(g)] += 1
            v += S(rng.randint(1, 4)) * sympy.prod([a ** b for a, b in zip(X, e)])
    d = functionals.IntegralOfDirectionalMultiderivative(create_reference(cell), tuple(ds), tuple(orders), tuple(entity), scale=S(2) / 3)
    got = value(d.eval(func(v)))
    w = v
    for direction, o in zip(ds, orders):
        for _ in range(o):
            w = sympy.expand(sum(c * sympy.diff(w, a) for c, a in zip(direction, X)))
    ek, ev = entity_vertices(cell, spec.VERTS[cell], *entity)
    ax = axes(ek, ev)
    point = [S(o) + sum(t * a[i] for t, a in zip(T, ax)) for i, o in enumerate(ev[0])]
    w = S(w).subs(dict(zip(X, point)), simultaneous=True) * measure(ek, ev) * S(2) / 3
    want = spec.integrate(ek, sympy.expand(w.subs(dict(zip(T, X)))), X)
    return sympy.simplify(got - want) == 0, f"derivatives of orders {orders} in directions {ds} of {v} on entity {entity} of the {cell}: {got}, expected {want}"


def derivative_orders(R, cell):
    for n, o in enumerate(ORDERS):
        for entity in ((1, 0), (spec.TDIM[cell], 0)):
            if entity == (1, 0) and spec.TDIM[cell] == 1 and n:
                continue
            try:
                ok, why = run_orders(cell, entity, o, n)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.bounded(f"{'-'.join(map(str, o))}/dim{entity[0]}", ok, why, {"kind": "orders", "args": [cell, list(entity), list(o), n]})


def run_unmapped(kind):
    from symfem import create_reference, functionals, mappings

    ref = create_reference("triangle")
    if kind == "derivative":
        d = functionals.DerivativePointEvaluation(ref, (0, 0), (1, 0), (0, 0), mapping="identity")
    else:
        d = functionals.IntegralOfDirectionalMultiderivative(ref, ((1, 0),), (1,), (1, 0))
    try:
        r = d.perform_mapping([func(X[0])], X[:2], X[:2])
    except mappings.MappingNotImplemented:
        return True, "refused"
    return False, f"returned {r}"


def run_unsupported(mapping):
    """A moment cannot be put on another cell with a mapping that has no inverse transpose."""
    from symfem import create_reference, functionals
    from symfem.references import NonDefaultReferenceError

    ref = create_reference("triangle", ((0, 0), (2, 0), (0, 1)))
    try:
        functionals.IntegralMoment(ref, X[0], SubDof((S(0),), None), (1, 0), mapping=mapping)
    except NonDefaultReferenceError:
        return True, "refused"
    return False, f"IntegralMoment with mapping {mapping} accepted on another cell"


def run_floats(seed):
    from symfem import create_reference, functionals

    rng = random.Random(seed)
    e = sum(S(rng.randint(-5, 5)) * X[0] ** rng.randint(0, 3) * X[1] ** rng.randint(0, 3) for _ in range(4))
    ref = create_reference("triangle")
    p = (sympy.Rational(1, 3), sympy.Rational(1, 7))
    a = functionals.PointEvaluation(ref, p, (2, 0))
    b = functionals.IntegralAgainst(ref, X[0], (2, 0))
    bad = []
    for d, want in ((a, at(e, p)), (b, spec.integrate("triangle", e * X[0]))):
        x, y = d.eval(func(e)), d.eval(func(e), symbolic=False)
        if not (isinstance(y, float) and abs(y - float(want)) < 1e-9 and value(x) == want and value(d.eval(func(e), True)) == want):
            bad.append((x, y, want))
    return not bad, str(bad)


def misc(R):
    for n in ("identity", "l2", "covariant", "contravariant", "double_covariant", "double_contravariant"):
        try:
            ok, text = run_mapping(n)
        except Exception as ex:
            ok, text = False, repr(ex)
        R.ok(f"perform-mapping/{n}", ok, text, {"kind": "mapping", "name": n})
    for k in ("derivative", "multi"):
        ok, text = run_unmapped(k)
        R.ok(f"not-mapped/{k}", ok, text, {"kind": "unmapped", "name": k})
    for m in (None, "double_covariant", "double_contravariant"):
        ok, text = run_unsupported(m)
        R.ok(f"unsupported/{m}", ok, text, {"kind": "unsupported", "mapping": m})
    for i in range(6):
        ok, text = run_floats(i)
        R.bounded(f"floats/{i}", ok, text, {"kind": "floats", "seed": i})


# ------------------------------------------------------------------ bounded: concrete polynomials
def random_field(shape, g, rng, deg=2):
    if shape == ():
        e = S(rng.randint(1, 3))
        for _ in range(3):
            m = S(rng.randint(-3, 3))
            for _ in range(rng.randint(0, deg)):
                m *= X[rng.randrange(g)]
            e += m
        return e
    return tuple(random_field(shape[1:], g, rng, deg) for _ in range(shape[0]))


CONCRETE = {"w": (S(2), S(-3), S(1)), "l": (S(1), S(2), S(-1)), "r": (S(3), S(-1), S(2)), "d": ((S(1), S(2), S(-1)), (S(2), S(-1), S(3))),
            "scale": S(3) / 2}


def run_concrete(kind, cell, verts, entity, mapping, seed, form="function"):
    from symfem import create_reference

    rng = random.Random(seed)
    td, g = spec.TDIM[cell], len(verts[0])
    s = shapes(kind, g, td, entity[0])
    v = random_field(s[0], g, rng, 4 if kind == "multi" else 2)
    q = None if s[1] is None else random_field(s[1], entity[0], rng)
    ref = create_reference(cell) if tuple(verts) == tuple(spec.VERTS[cell]) else create_reference(cell, verts)
    f = func(v)
    if form == "basis":
        f = basis_class()(f)
    d = make(kind, ref, q, tuple(entity), mapping, SubDof(tuple(S(1) / 3 for _ in range(entity[0])), None), CONCRETE)
    got = value(d.eval(f))
    ek, _ = entity_vertices(cell, verts, *entity)
    e = definition(kind, cell, verts, entity, v, None if q is None else at(q, T), mapping, CONCRETE)
    want = spec.integrate(ek, sympy.expand(e.subs(dict(zip(T, X)))), X)
    return sympy.simplify(got - want) == 0, f"{kind} on entity {tuple(entity)} of {cell} {verts} of {v} against {q}: {got}, expected {want}"


def run_macro(kind, cell, seed, form="function"):
    """A continuous or discontinuous piecewise polynomial against the exact sum over the pieces."""
    from symfem import create_reference
    from symfem.piecewise_functions import PiecewiseFunction

    rng = random.Random(seed)
    g = spec.TDIM[cell]
    s = shapes(kind, g, g, g)
    vs = [random_field(s[0], g, rng, 3) for _ in MACRO[cell]]
    q = None if s[1] is None else random_field(s[1], g, rng)
    f = PiecewiseFunction({p: func(v) for p, v in zip(MACRO[cell], vs)}, g)
    if form == "basis":
        f = basis_class()(f)
    d = make(kind, create_reference(cell), q, (g, 0), None, SubDof(tuple(S(1) / 3 for _ in range(g)), None), CONCRETE)
    got = value(d.eval(f))
    want = S(0)
    for p, v in zip(MACRO[cell], vs):
        e = definition(kind, cell, spec.VERTS[cell], (g, 0), v, None if q is None else at(q, T), None, CONCRETE)
        want += spec.integrate_on(cell, p, e.subs(dict(zip(T, X))))
    return sympy.simplify(got - want) == 0, f"{kind} of a piecewise {vs} against {q} on {cell}: {got}, expected {want}"


PIECEWISE_KINDS = ("against-scalar", "against-vector", "div-against", "multi", "moment-scalar", "moment-vector", "derivative", "div-moment", "inner")


def macros(R, kind, cell, n):
    for i in range(n):
        for form in ("function", "basis"):
            try:
                ok, text = run_macro(kind, cell, f"{env.SEED}{i}", form)
            except Exception as ex:
                ok, text = False, repr(ex)
            R.bounded(f"{form}/{i}", ok, text, {"kind": "macro", "functional": kind, "cell": cell, "seed": f"{env.SEED}{i}", "form": form})


AFFINE = [("interval", 1), ("interval", 2), ("triangle", 2), ("triangle", 3), ("quadrilateral", 2), ("tetrahedron", 3)]


def units(tier):
    u = []
    for cell in CELLS:
        for kind in INTEGRAL_KINDS:
            g = spec.TDIM[cell]
            if any(shapes(kind, g, g, d) for d in range(1, g + 1)):
                u.append((f"default/{cell}/{kind}", on_default, kind, cell))
        u.append((f"direction/{cell}", directions, cell))
        u.append((f"orders/{cell}", derivative_orders, cell))
        u.append((f"point/{cell}", points, cell))
        u.append((f"moments/{cell}", moments, cell))
    for cell, g in AFFINE:
        td = spec.TDIM[cell]
        for kind in ("against-scalar", "against-vector", "div-against", "multi", "moment-scalar", "moment-vector", "moment-vector-g", "derivative",
                     "div-moment", "tangent", "normal", "normal-derivative", "inner"):
            if td != g and kind in ("moment-vector", "moment-vector-g", "div-against", "div-moment", "inner", "normal", "normal-derivative", "against-vector"):
                continue
            if not any(shapes(kind, g, td, d) for d in range(1, td + 1)):
                continue
            for m in MAPPINGS.get(kind, ("identity",)):
                u.append((f"affine/{cell}{g}/{kind}/{m}", on_affine, kind, cell, g, m))
    for cell in MACRO:
        u.append((f"piece-point/{cell}", point_on_pieces, cell))
        for kind in PIECEWISE_KINDS:
            u.append((f"piecewise/{cell}/{kind}", piecewise, kind, cell))
            u.append((f"macro/{cell}/{kind}", macros, kind, cell, 1 if tier == "quick" else 6))
    u.append(("normal-derivative", normal_derivative))
    u.append(("combined", combined))
    u.append(("misc", misc))
    return u


def random_cell(cell, g, rng):
    while True:
        v = [tuple(S(rng.randint(-3, 3)) for _ in range(g)) for _ in range(spec.TDIM[cell] + 1)]
        if spec.gram_det([tuple(b - a for a, b in zip(v[0], w)) for w in v[1:]]) != 0:
            return spec.affine_vertices(cell, v)


def replay(c):
    k = c["kind"]
    if k == "orders":
        a = c["args"]
        try:
            ok, text = run_orders(a[0], tuple(a[1]), tuple(a[2]), a[3])
        except Exception as ex:
            ok, text = False, f"{c}: {ex!r}"
        return not ok, text
    if k == "integral" or k == "affine":
        for seed in range(6):
            verts = spec.VERTS[c["cell"]] if k == "integral" else random_cell(c["cell"], c["gdim"], random.Random(seed))
            try:
                ok, text = run_concrete(c["functional"], c["cell"], verts, tuple(c["entity"]), c.get("mapping"), seed, c.get("form", "function"))
            except Exception as ex:
                ok, text = False, f"{c}: {ex!r}"
            if not ok:
                return True, text
        return False, "as specified"
    if k == "metadata":
        from symfem import create_reference

        class Rec:
            bad = []

            def ok(self, n, cond, detail="", case=None):
                if not cond:
                    self.bad.append(f"{n}: {detail}")

        cell, ent = c["cell"], tuple(c["entity"])
        g = spec.TDIM[cell]
        s = shapes(c["functional"], g, g, ent[0])
        ref = create_reference(cell)
        r = Rec()
        q = None if s[1] is None else random_field(s[1], ent[0], random.Random(1))
        d = make(c["functional"], ref, q, ent, None, SubDof(tuple(S(1) / 3 for _ in range(ent[0])), None), CONCRETE)
        metadata(r, c["functional"], d, c["functional"], cell, spec.VERTS[cell], ent, ref)
        return bool(r.bad), str(r.bad)
    try:
        if k == "direction":
            ok, text = run_direction(c["cell"], c["entity"], c["n"])
        elif k == "points":
            g = spec.TDIM[c["cell"]]
            p = tuple(sympy.Rational(i + 1, 5 + i) if c["pt"] == "number" else sympy.Symbol(f"p{i}", real=True) for i in range(g))
            ok, text = run_points(*list(point_cases(g))[c["i"]], c["cell"], c["form"], p, (g, 0))
        elif k == "normal-derivative":
            ok, text = run_normal_derivative((S(1), S(2)), (S(3), S(-1)), same), "normal derivative on the edge from (1, 2) to (3, -1)"
        elif k == "macro":
            ok, text = run_macro(c["functional"], c["cell"], c["seed"], c.get("form", "function"))
        elif k == "piece-point":
            from symfem import create_reference
            from symfem.piecewise_functions import PiecewiseFunction

            g = spec.TDIM[c["cell"]]
            name, shape, want = list(point_cases(g))[c["i"]]
            rng = random.Random(3)
            vs = [random_field(shape, g, rng, 3) for _ in MACRO[c["cell"]]]
            pc = MACRO[c["cell"]][c["k"]]
            p = tuple(sum(map(S, q)) / len(pc) for q in zip(*pc))
            f = PiecewiseFunction({q: func(v) for q, v in zip(MACRO[c["cell"]], vs)}, g)
            if c["form"] == "basis":
                f = basis_class()(f)
            got = value(make_point(name, create_reference(c["cell"]), p, (g, 0))._eval_symbolic(f))
            ok, text = same(got, want(vs[c["k"]], p)), f"{name} at {p}: {got}, expected {want(vs[c['k']], p)}"
        elif k == "moments":
            ok, text = run_moments(c["cell"], c["keyword"], c["how"], c["order"], c["minimum"])
        elif k == "combined":
            ok, text = run_all_keywords(c["cell"])
        elif k == "mapping":
            ok, text = run_mapping(c["name"])
        elif k == "unmapped":
            ok, text = run_unmapped(c["name"])
        elif k == "unsupported":
            ok, text = run_unsupported(c["mapping"])
        else:
            ok, text = run_floats(c["seed"])
    except Exception as ex:
        ok, text = False, f"{c}: {ex!r}"
    return not ok, text
