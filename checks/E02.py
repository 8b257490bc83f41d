"""E02: every degree of freedom belongs to its entity and gives the declared continuity."""
from pyvc import env
import itertools
import json
import os
import random

import sympy

from checks.E03 import entities, push
from checks.E05 import build, find
from pyvc import engine, spec
from pyvc.exact import evaluate, zero_number
from pyvc.span import comps, pieces
from pyvc.spec import S, X

LEVEL = "proof"
LEVEL_NOTE = ("entity_dofs of Ciarlet, direct and enriched elements is proved for every assignment of up to four functionals to entities (all integers) and all dimensions of the "
              "parts; make_integral_moment_dofs is proved to put each moment on the entity, with the sub-element's own functional and function, for opaque moment classes; "
              "metadata, vanishing traces and gluing across every pair of facets are evaluated for the elements of checks/costs.json on the listed orders (bounded; not DirectSerendipity, EnrichedGalerkin, ReggeTP and dual-polygon elements).")
TRUSTED = ["mapped functions are the push-forwards (E03)", "a polynomial that is zero at the chosen generic points of a facet is zero on it (tested in floating point)"]
ASSUMPTIONS = ["traces are compared on affine cells, as the elements are affinely mapped (Huang-Zhang: on rectangles)", "the loops of entity_dofs are unrolled for up to four functionals, "
               "those of make_integral_moment_dofs for up to four per sub-entity"]
BOUNDS = "elements of checks/costs.json: orders whose functions are built within about 3 s (quick), 20 s (thorough)"


def sub_vertices(cell, en):
    d, i = en
    if d == spec.TDIM[cell]:
        return tuple(range(len(spec.VERTS[cell])))
    return ((i,), spec.EDGES.get(cell, ((),) * 99)[i] if d == 1 else (), spec.FACES.get(cell, ((),) * 99)[i] if d == 2 else ())[d]


def closure(cell, en):
    vs = set(sub_vertices(cell, en))
    return {e for e in entities(cell) if set(sub_vertices(cell, e)) <= vs}


# ---------------------------------------------------------------- entity_dofs of a Ciarlet and of a direct element
def run_partition(cell, kind, where):
    import symfem
    from symfem.finite_element import CiarletElement, DirectElement

    ref = symfem.create_reference(cell)
    where = [tuple(w) for w in where]

    class D:
        mapping = "identity"

        def __init__(self, k, entity):
            self.k, self.entity = k, entity

        def dof_point(self):
            return ("at", self.k)

        adjusted_dof_point = dof_point

        def dof_direction(self):
            return ("to", self.k)

    class C(CiarletElement):
        names = ["stub"]

    class E(DirectElement):
        names = ["stub"]

    if kind == "ciarlet":
        e = C(ref, 1, [S(1)] * len(where), [D(k, w) for k, w in enumerate(where)], ref.tdim, 1)
        if [tuple(p) for p in e.dof_plot_positions()] != [("at", k) for k in range(len(where))]:
            return False, f"positions {e.dof_plot_positions()}"
        if [tuple(p) for p in e.dof_directions()] != [("to", k) for k in range(len(where))]:
            return False, f"directions {e.dof_directions()}"
    else:
        e = E(ref, 1, [X[0] + k for k in range(len(where))], where, ref.tdim, 1)
        if list(e.dof_directions()) != [None] * len(where):
            return False, f"directions {e.dof_directions()}"
    if list(e.dof_entities()) != where:
        return False, f"entities {e.dof_entities()}"
    for _ in range(2):
        for en in entities(cell):
            want = [i for i, w in enumerate(where) if w == en]
            if list(e.entity_dofs(*en)) != want:
                return False, f"entity_dofs{en} = {e.entity_dofs(*en)} instead of {want}"
    return True, ""


def entity_host(kind, where):
    """An element (any cell) whose functionals are on the given entities."""
    import symfem
    from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement

    ref = symfem.create_reference("triangle")

    class D:
        mapping = "identity"

        def __init__(self, entity):
            self.entity = entity

    if kind == "ciarlet":
        class C(CiarletElement):
            names = ["stub"]

        return C(ref, 1, [S(1)] * len(where), [D(w) for w in where], 2, 1)
    if kind == "direct":
        class E(DirectElement):
            names = ["stub"]

        return E(ref, 1, [X[0] + k for k in range(len(where))], where, 2, 1)

    class Sub:
        reference, order, domain_dim, range_dim, range_shape, maximum_degree = ref, 1, 2, 1, None, 1

        def __init__(self, dim, lists):
            self.space_dim, self.lists = dim, lists

        def entity_dofs(self, d, i):
            return list(self.lists[(d, i)])

    class N(EnrichedElement):
        names = ["stub"]

    return N([Sub(*w) for w in where])


def run_entities(kind, where, query):
    """entity_dofs for concrete integers."""
    where = [tuple(w) for w in where]
    e = entity_host(kind, where)
    got = list(e.entity_dofs(*query))
    want = [k for k, w in enumerate(where) if w == tuple(query)]
    return got == want, f"functionals on {where}: entity_dofs{tuple(query)} = {got} instead of {want}"


def run_enriched(parts, query):
    """parts: [(space dimension, entity list)]."""
    query = tuple(query)
    e = entity_host("enriched", [(d, {query: list(ix)}) for d, ix in parts])
    got = list(e.entity_dofs(*query))
    want, start = [], 0
    for d, ix in parts:
        want += [start + i for i in ix]
        start += d
    return got == want, f"parts {parts}: entity_dofs{query} = {got} instead of {want}"


def proof_entities(R, kind, n):
    """entity_dofs(d, i) = [k : entity k is (d, i)], in order, for all integers."""
    ds, ns = engine.syms(" ".join(f"d{k}" for k in range(n + 1)), integer=True), engine.syms(" ".join(f"n{k}" for k in range(n + 1)), integer=True)
    where = [(ds[k], ns[k]) for k in range(n)]
    e = entity_host(kind, where)
    paths = engine.explore(lambda: e.entity_dofs(ds[n], ns[n]))
    def check(r):
        if r.exc is not None:
            return sympy.false
        got = list(r.value)
        hits = [k in got for k in range(n)]
        if got != [k for k in range(n) if hits[k]]:
            return sympy.false
        parts = []
        for k in range(n):
            same = sympy.And(sympy.Eq(ds[k], ds[n]), sympy.Eq(ns[k], ns[n]))
            parts.append(same if hits[k] else sympy.Not(same))
        return sympy.And(*parts)

    import itertools as it

    from pyvc import smt

    if any(smt.sat(list(r.pc) + [sympy.Not(check(r))], True)[0] != "unsat" for r in paths):
        # not within the verifier's reach as it is written: every pattern of equal and different entities
        for v in it.product(range(3 if n < 4 else 2), repeat=2 * n + 2):
            pairs = list(zip(v[::2], v[1::2]))
            ok, why = run_entities(kind, pairs[:-1], pairs[-1])
            if not ok:
                R.ok("contract", False, why, {"kind": "entities", "what": kind, "n": n, "values": dict(zip([f"{t}{j}" for j in range(n + 1) for t in "dn"], v))})
                return
        R.bounded("patterns", True)
        return
    for q, r in enumerate(paths):
        R.implies(f"path{q}", r.pc, check(r))


def proof_enriched(R, sizes):
    """Part after part, shifted by the dimensions of the parts before, for all dimensions and indices."""
    dims = engine.syms(" ".join(f"m{k}" for k in range(len(sizes) + 1)), integer=True)[:len(sizes)]
    idx = [[engine.sym(f"i{k}_{j}", integer=True) for j in range(c)] for k, c in enumerate(sizes)]
    e = entity_host("enriched", [(d, {(1, 2): ix}) for d, ix in zip(dims, idx)])
    for q, r in enumerate(engine.explore(lambda: e.entity_dofs(1, 2))):
        case = {"kind": "enriched", "parts": [[10 + 3 * k, list(range(c))] for k, c in enumerate(sizes)]}
        want, start = [], S(0)
        for d, ix in zip(dims, idx):
            want += [start + i for i in ix]
            start += d
        if r.exc is not None or len(r.value) != len(want):
            R.ok(f"path{q}", False, repr(r.exc or r.value), case)
            continue
        for k, (g, w) in enumerate(zip(r.value, want)):
            R.zero(f"path{q}/{k}", S(g) - w, r.pc, case=lambda m: case)
        R.ok(f"path{q}", True)


# ---------------------------------------------------------------- integral moments belong to the entities they are made on
def run_moments(cell, where, form, order, low, count):
    """make_integral_moment_dofs on opaque parts."""
    import symfem
    from symfem.moments import make_integral_moment_dofs

    ref = symfem.create_reference(cell)
    made_ = []

    def classes(tag):
        class Sub:
            min_order = low

            def __init__(self, reference, order, **kw):
                self.of, self.order, self.kw, self.tag = reference, order, kw, tag
                self.dofs = [("dof", tag, reference.name, k) for k in range(count)]

            def get_basis_function(self, k):
                return ("function", tag, self.of, self.order, tuple(sorted(self.kw.items())), k)

        class Moment:
            def __init__(self, reference, f, dof, entity, **kw):
                self.args = (reference, f, dof, tuple(entity), kw)
                made_.append(self)

        return Moment, Sub

    kw, mapping = {"variant": "opaque"}, "opaque map"
    tail = {"plain": (), "mapping": (mapping,), "kwargs": (kw,), "both": (mapping, kw)}[form]
    tdim = spec.TDIM[cell]
    dims = {"edges": 1, "faces": 2, "volumes": 3, "cells": tdim, "facets": tdim - 1, "ridges": tdim - 2}
    args, mine = {}, {}
    for w in where:
        if w.endswith("*"):  # one entry for each type of sub-entity
            kinds = {ref.sub_entity(dims[w[:-1]], i, False).name for i in range(ref.sub_entity_count(dims[w[:-1]]))}
            mine[w[:-1]] = {k: classes((w, k)) for k in kinds}
            args[w[:-1]] = {k: (*c, order) + tail for k, c in mine[w[:-1]].items()}
        else:
            mine[w] = classes(w)
            args[w] = (*mine[w], order) + tail
    got = make_integral_moment_dofs(ref, **args)
    want = {}
    for w in args:
        d = dims[w]
        if d > tdim or d <= 0:
            continue
        for i in range(ref.sub_entity_count(d)):
            sub = ref.sub_entity(d, i, False)
            cls = mine[w][sub.name] if isinstance(mine[w], dict) else mine[w]
            for k in range(count if order >= low else 0):
                want.setdefault((d, i), []).append((cls, sub.name, k))
    if {id(g) for g in got} != {id(g) for g in made_} or len(got) != len(made_):
        return False, "not the moments that were made"
    have = {}
    for g in got:
        r, f, dof, en, kws = g.args
        have.setdefault(en, []).append(g)
        if r is not ref:
            return False, f"the moment of {en} is on another cell"
        if kws != ({"mapping": mapping} if form in ("mapping", "both") else {}):
            return False, f"the moment of {en} is given {kws}"
    if {k: len(v) for k, v in have.items()} != {k: len(v) for k, v in want.items()}:
        return False, f"moments per entity {[(k, len(v)) for k, v in have.items()]} instead of {[(k, len(v)) for k, v in want.items()]}"
    for en, ms in have.items():
        for m, (cls, name, k) in zip(ms, want[en]):
            _, f, dof, _, _ = m.args
            if type(m) is not cls[0]:
                return False, f"{en} has moments of another type"
            ok = f[0] == "function" and f[3] == order and f[4] == (tuple(sorted(kw.items())) if form in ("kwargs", "both") else ()) and f[5] == k
            if not ok or dof[3] != k or dof[1] != f[1] or f[2].name != name or f[2] != symfem.create_reference(name):
                return False, f"moment {k} of {en} is against {f[:2] + (f[2].name,) + f[3:]}, functional {dof}"
    return True, ""


def moments(R, cell):
    d = spec.TDIM[cell]
    names = ["edges", "facets", "cells"] if d > 1 else ["edges", "cells"]
    sets = [[n] for n in names] + [["edges", "cells"], ["cells"]]
    if d == 2:
        sets += [["faces"], ["edges", "faces"], ["edges", "faces", "volumes"], ["facets", "cells"]]
    if d == 3:
        sets += [["faces"], ["volumes"], ["ridges"], ["edges", "faces", "volumes"], ["facets", "cells"], ["faces*"], ["facets*", "cells"], ["edges", "faces*"]]
    for where in sets:
        if cell in ("prism", "pyramid") and any(w in ("faces", "facets") for w in where):
            where = [w + "*" if w in ("faces", "facets") else w for w in where]
        bad = None
        for form in ("plain", "mapping", "kwargs", "both"):
            for order, low, count in ((0, 0, 1), (1, 0, 3), (2, 1, 2), (0, 1, 2), (-1, 0, 2), (3, 3, 4), (1, 2, 1), (2, 0, 0)):
                try:
                    ok, why = run_moments(cell, where, form, order, low, count)
                except Exception as ex:
                    ok, why = False, repr(ex)
                if not ok and bad is None:
                    bad = (form, order, low, count, why)
        c = bad and {"kind": "moments", "cell": cell, "where": where, "form": bad[0], "order": bad[1], "low": bad[2], "count": bad[3]}
        R.ok("+".join(where), bad is None, bad and bad[4], c)


def partition(R, cell):
    rng = random.Random(f"{env.SEED}:{cell}")
    ents = entities(cell)
    cases = [[a] for a in ents] + [[a, b] for a in ents for b in ents][:200]
    cases += [[rng.choice(ents) for _ in range(rng.randint(3, 30))] for _ in range(20)]
    cases += [ents, ents[::-1]]
    for kind in ("ciarlet", "direct"):
        bad = None
        for c in cases:
            try:
                ok, why = run_partition(cell, kind, c)
            except Exception as ex:
                ok, why = False, repr(ex)
            if not ok:
                bad = (c, why)
                break
        R.bounded(kind, bad is None, bad and bad[1], {"kind": "partition", "cell": cell, "what": kind, "where": bad and bad[0]})


def run_positions(cell, d, count):
    """The positions of a direct element: inside their entity, all different."""
    import symfem
    from symfem.finite_element import DirectElement

    ref = symfem.create_reference(cell)

    class E(DirectElement):
        names = ["stub"]

    where = [e for e in entities(cell) if e[0] == d for _ in range(count)]
    e = E(ref, 1, [X[0] + k for k in range(len(where))], where, ref.tdim, 1)
    pos = e.dof_plot_positions()
    return good_positions(cell, pos, where, True)


def inside(cell, en, p, strict):
    """p lies in the (relative interior of the) entity of the default cell."""
    vs = [spec.VERTS[cell][i] for i in sub_vertices(cell, en)]
    p = [S(c) for c in p]
    if en[0] == 0:
        return all(zero_number(a - b) for a, b in zip(p, vs[0]))
    kind = {1: "interval", 2: {3: "triangle", 4: "quadrilateral"}.get(len(vs)), 3: cell}[en[0]]
    axes = [vs[k] for k in spec.AXES[kind]]
    A = sympy.Matrix([[S(a[i]) - vs[0][i] for a in axes] for i in range(len(p))])
    r = sympy.Matrix([c - v for c, v in zip(p, vs[0])])
    sol = (A.T * A).inv() * A.T * r
    if any(not zero_number(q) for q in A * sol - r):
        return False
    t = [float(q) for q in sol]
    eps = 1e-12
    low = eps if strict else -eps
    ok = all(q >= low for q in t)
    if kind in ("interval", "quadrilateral", "hexahedron"):
        return ok and all(q <= 1 - low for q in t)
    if kind == "prism":
        return ok and t[0] + t[1] <= 1 - low and t[2] <= 1 - low
    if kind == "pyramid":
        return ok and all(q + t[2] <= 1 - low for q in t[:2])
    return ok and sum(t) <= 1 - low


def good_positions(cell, pos, where, strict, distinct=True):
    if len(pos) != len(where):
        return False, f"{len(pos)} positions for {len(where)} functionals"
    for k, (p, w) in enumerate(zip(pos, where)):
        if len(p) != spec.TDIM[cell] or not inside(cell, w, p, strict):
            return False, f"functional {k} of entity {w} is drawn at {p}"
    if distinct and len({tuple(map(S, p)) for p in pos}) != len(pos):
        return False, "two functionals are drawn at the same position"
    return True, ""


def positions(R, cell, top):
    for d in range(spec.TDIM[cell] + 1):
        bad = None
        for n in ([1] if d == 0 else range(1, top + 1)):
            try:
                ok, why = run_positions(cell, d, n)
            except Exception as ex:
                ok, why = False, repr(ex)
            if not ok:
                bad = (n, why)
                break
        R.bounded(f"dimension{d}", bad is None, bad and bad[1], {"kind": "positions", "cell": cell, "d": d, "count": bad and bad[0]})


# ---------------------------------------------------------------- registered elements
_made = [None, None]


def made(name, cell, order, kw):
    key = (name, cell, order, str(kw))
    if _made[0] != key:
        _made[:] = [key, build(find(name, cell), cell, order, kw)]
    return _made[1]


def run_metadata(name, cell, order, kw):
    from symfem.finite_element import CiarletElement, DirectElement

    e = made(name, cell, order, kw)
    ents = entities(cell)
    n = e.space_dim
    where = [tuple(w) for w in e.dof_entities()]
    if len(where) != n or len(e.get_basis_functions()) != n or len(e.dof_directions()) != n:
        return False, f"{n} functions, {len(where)} entities, {len(e.get_basis_functions())} basis functions, {len(e.dof_directions())} directions"
    seen = []
    for en in ents:
        ds = list(e.entity_dofs(*en))
        if ds != [i for i, w in enumerate(where) if w == en]:
            return False, f"entity_dofs{en} = {ds}, dof_entities says {where}"
        seen += ds
    if sorted(seen) != list(range(n)):
        return False, f"the entities hold {sorted(seen)}"
    pos = e.dof_plot_positions()
    if isinstance(e, DirectElement):
        ok, why = good_positions(cell, pos, where, True)
        if not ok:
            return False, why
    if isinstance(e, CiarletElement):
        ok, why = good_positions(cell, pos, where, False, False)
        if not ok:
            return False, why
        if len(e.dofs) != n:
            return False, f"{len(e.dofs)} functionals"
        ok, why = good_positions(cell, [d.dof_point() for d in e.dofs], where, False, False)
        if not ok:
            return False, why
        for k, (d, got) in enumerate(zip(e.dofs, e.dof_directions())):
            if tuple(d.entity) != where[k] or got != d.dof_direction():
                return False, f"functional {k}"
            if d.entity_dim() != where[k][0]:
                return False, f"entity_dim of functional {k} is {d.entity_dim()}"
            if got is not None and (len(got) not in (spec.TDIM[cell], spec.TDIM[cell] ** 2) or all(zero_number(c) for c in got)):
                return False, f"direction of functional {k} is {got}"
    return True, ""


def facets(cell):
    d = spec.TDIM[cell]
    return [e for e in entities(cell) if e[0] == d - 1]


PARAMS = ((0.1875, 0.4375), (0.546875, 0.203125), (0.328125, 0.265625), (0.09375, 0.71875))


def facet_points(cell, f):
    """Generic points of a facet of the default cell."""
    vs = [spec.VERTS[cell][i] for i in sub_vertices(cell, f)]
    a = vs[0]
    axes = [[q - p for p, q in zip(a, v)] for v in vs[1:spec.TDIM[cell]]]
    out = []
    for t in PARAMS:
        p = [float(c) for c in a]
        for s, ax in zip(t, axes):
            p = [c + s * q for c, q in zip(p, ax)]
        out.append(tuple(p))
    return out, axes


def in_piece(k, p):
    """Is the point in the (closed) simplex or quadrilateral piece?"""
    import numpy as np

    vs = [[float(c) for c in v] for v in k]
    d = len(vs[0])
    if len(vs) == d + 1:
        A = np.array([[v[i] - vs[0][i] for v in vs[1:]] for i in range(d)])
        t = np.linalg.solve(A, np.array(p[:d]) - np.array(vs[0]))
        return bool((t > -1e-9).all() and t.sum() < 1 + 1e-9)
    lo = [min(v[i] for v in vs) for i in range(d)]
    hi = [max(v[i] for v in vs) for i in range(d)]
    if len(vs) == 2**d:  # axis-parallel
        return all(a - 1e-9 <= c <= b + 1e-9 for a, b, c in zip(lo, hi, p))
    raise NotImplementedError(str(k))


def values(fs, points, derivatives=0):
    """[for each function [for each point [components (and derivatives)]]]."""
    d = len(points[0])
    out = []
    for f in fs:
        rows = [None] * len(points)
        for k, cs in pieces(f):
            idx = [i for i in range(len(points)) if rows[i] is None and (k is None or in_piece(k, points[i]))]
            if not idx:
                continue
            es = list(cs)
            for _ in range(derivatives):
                es += [sympy.diff(c, v) for c in cs for v in X[:d]]
            for i, r in zip(idx, evaluate(es, [tuple(points[i]) + (0.0,) * (3 - d) for i in idx])):
                rows[i] = r
        if any(r is None for r in rows):
            raise ValueError(f"no piece of {f} at one of {points}")
        out.append(rows)
    return out


def trace(continuity, cell, axes, v):
    """What is continuous across a facet with the given (physical) axes, from the value (and derivatives) at a point."""
    import numpy as np

    d = spec.TDIM[cell]
    A = np.array(axes, dtype=float).reshape(d - 1, d) if d > 1 else np.zeros((0, 1))
    if continuity in ("C0", "C1"):
        return list(v)
    if d == 1:
        n = np.array([1.0])
    else:
        n = np.array([A[0][1], -A[0][0]]) if d == 2 else np.cross(A[0], A[1])
    v = np.array(v, dtype=float)
    if continuity == "H(div)":
        return [float(n @ v)]
    if continuity == "H(curl)":
        return [float(a @ v) for a in A]
    F = v.reshape(d, d)
    if continuity == "inner H(curl)":
        return [float(a @ F @ b) for a in A for b in A]
    if continuity in ("inner H(div)", "integral inner H(div)"):
        return [float(n @ F @ n)]
    raise ValueError(f"continuity {continuity}")


RECTANGLES = ("HuangZhang",)  # defined on grids of rectangles: the tangential moments are mapped differently from the normal ones


def continuity_of(e):
    c = e.continuity
    return c.replace("{order}", f"{e.order}") if "{order}" in c else c


def known(continuity):
    return continuity in ("C0", "C1", "H(div)", "H(curl)", "inner H(curl)", "inner H(div)", "integral inner H(div)")


GAUSS = [(0.5 * (1 + x), 0.5 * w) for x, w in zip(
    (-0.9602898564975363, -0.7966664774136267, -0.525532409916329, -0.1834346424956498, 0.1834346424956498, 0.525532409916329, 0.7966664774136267, 0.9602898564975363),
    (0.1012285362903763, 0.2223810344533745, 0.3137066458778873, 0.362683783378362, 0.362683783378362, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763))]


def traces(continuity, cell, points, axes, vals):
    """[for each function the traces at the points], integrated where only the mean is continuous."""
    out = []
    for rows in vals:
        t = [trace(continuity, cell, axes, v) for v in rows]
        if continuity == "integral inner H(div)":
            t = [[sum(w * r[0] for (_, w), r in zip(GAUSS, t))]]
        out.append([c for r in t for c in r])
    return out


def points_for(continuity, cell, f):
    pts, axes = facet_points(cell, f)
    if continuity == "integral inner H(div)":
        vs = [spec.VERTS[cell][i] for i in sub_vertices(cell, f)]
        pts = [tuple(a + s * (b - a) for a, b in zip(*vs)) for s, _ in GAUSS]
    return pts, axes


def run_traces(name, cell, order, kw):
    e = made(name, cell, order, kw)
    c = continuity_of(e)
    if c == "L2":
        return True, "L2"
    if not known(c):
        return False, f"unknown continuity {c}"
    where = [tuple(w) for w in e.dof_entities()]
    fs = e.get_basis_functions()
    for f in facets(cell):
        cl = closure(cell, f)
        out = [i for i in range(len(fs)) if where[i] not in cl]
        pts, axes = points_for(c, cell, f)
        vals = values([fs[i] for i in out], pts, 1 if c == "C1" else 0)
        for i, t in zip(out, traces(c, cell, pts, axes, vals)):
            if max(map(abs, t)) > 1e-8:
                return False, f"function {i}, of entity {where[i]}, has the trace {t} on the facet {f} ({c})"
    return True, ""


def run_internal(name, cell, order, kw):
    """Functions given by pieces have the declared continuity inside the cell as well."""
    import numpy as np

    e = made(name, cell, order, kw)
    c = continuity_of(e)
    if c == "L2":
        return True, "L2"
    rng = random.Random(3)
    for i, f in enumerate(e.get_basis_functions()):
        ps = [(k, cs) for k, cs in pieces(f) if k is not None]
        for (k1, c1), (k2, c2) in itertools.combinations(ps, 2):
            common = sorted(k1 & k2, key=str)
            d = spec.TDIM[cell]
            if len(common) < d or (d == 2 and len(common) != 2):
                continue
            vs = [np.array([float(q) for q in v]) for v in common[:d]]
            axes = [list(v - vs[0]) for v in vs[1:]]
            for _ in range(3):
                w = [rng.random() + 0.05 for _ in vs]
                p = sum(a * v for a, v in zip(w, vs)) / sum(w)
                e1, e2 = list(c1), list(c2)
                if c == "C1":
                    e1 += [sympy.diff(q, v) for q in c1 for v in X[:d]]
                    e2 += [sympy.diff(q, v) for q in c2 for v in X[:d]]
                pt = [tuple(p) + (0.0,) * (3 - d)]
                t1, t2 = (trace(c, cell, axes, evaluate(q, pt)[0]) for q in (e1, e2))
                if max(abs(a - b) for a, b in zip(t1, t2)) > 1e-8:
                    return False, f"function {i} jumps by {[a - b for a, b in zip(t1, t2)]} between the pieces {sorted(k1, key=str)} and {sorted(k2, key=str)} ({c})"
    return True, ""


def neighbour(cell, f, g, shear=0.25):
    """An affine cell whose facet g is the facet f of the default cell, on its other side (vertex by vertex, in order)."""
    import numpy as np

    V = [np.array(v, dtype=float) for v in spec.VERTS[cell]]
    a, b = sub_vertices(cell, f), sub_vertices(cell, g)
    if len(a) != len(b):
        return None
    d = spec.TDIM[cell]
    # the affine map: facet g -> facet f, plus a direction across it
    mid = sum(V) / len(V)
    fm = sum(V[i] for i in a) / len(a)
    gm = sum(V[i] for i in b) / len(b)
    out_dir = (fm - mid) * 1.25 + (np.array([0.125, -0.25, 0.1875][:d]) if d > 1 else 0) * shear
    src = np.array([V[b[k]] - V[b[0]] for k in (1, 2)[:d - 1]] + [mid - gm]).T
    dst = np.array([V[a[k]] - V[a[0]] for k in (1, 2)[:d - 1]] + [out_dir]).T
    A = dst @ np.linalg.inv(src)
    o = V[a[0]] - A @ V[b[0]]
    for i, j in zip(a, b):
        if np.abs(A @ V[j] + o - V[i]).max() > 1e-12:
            return None
    return A, o


def run_glue(name, cell, order, kw, pair=None):
    """Functions of shared functionals agree on the shared facet of two cells, for every pair of facets."""
    import numpy as np

    from symfem.finite_element import CiarletElement

    e = made(name, cell, order, kw)
    c = continuity_of(e)
    if c == "L2":
        return True, "L2", None
    if not isinstance(e, CiarletElement) or any(d.mapping is None for d in e.dofs):
        return True, "not mapped by push-forwards", None
    fs = e.get_basis_functions()
    names = [d.mapping for d in e.dofs]
    der = 1 if c == "C1" else 0
    fac = facets(cell)
    vals = {f: values(fs, points_for(c, cell, f)[0], der) for f in fac}
    where = [tuple(w) for w in e.dof_entities()]
    for f in fac:
        for g in fac:
            if pair is not None and (f, g) != pair:
                continue
            nb = neighbour(cell, f, g, 0 if name in RECTANGLES else 0.25)
            if nb is None:
                continue
            A, o = nb
            a, b = sub_vertices(cell, f), sub_vertices(cell, g)
            pts, axes = points_for(c, cell, f)
            own = traces(c, cell, pts, axes, vals[f])
            to = dict(zip(b, a))
            match = []
            for en in closure(cell, g):
                image = {to[v] for v in sub_vertices(cell, en)}
                other = next(q for q in closure(cell, f) if q[0] == en[0] and set(sub_vertices(cell, q)) == image)
                match.append((en, other))
            if name == "Transition" and any(where.count(en) != where.count(other) for en, other in match):
                continue  # facets of different degrees
            n_comp = len(comps_of(fs[0]))

            def moved_values(j):
                rows = []
                for v in vals[g][j]:
                    r = push(names[j], v[:n_comp], A)
                    if der:
                        J = np.array(v[n_comp:]).reshape(n_comp, -1) @ np.linalg.inv(A)
                        r = list(r) + list(J.ravel())
                    rows.append(r)
                return rows

            cl = closure(cell, g)
            rest = [j for j, w in enumerate(where) if w not in cl]
            for j, t in zip(rest, traces(c, cell, pts, axes, [moved_values(j) for j in rest])):
                if max(map(abs, t)) > 1e-7:
                    return False, f"function {j} of the neighbour, of entity {where[j]}, has the trace {t} on the shared facet {g} ({c})", (f, g)
            for en, other in match:
                di, dj = [i for i, w in enumerate(where) if w == other], [i for i, w in enumerate(where) if w == en]
                if len(di) != len(dj):
                    return False, f"{len(di)} functionals on {other}, {len(dj)} on {en}", (f, g)
                moved = [moved_values(j) for j in dj]
                for i, j, t in zip(di, dj, traces(c, cell, pts, axes, moved)):
                    if max(abs(p - q) for p, q in zip(t, own[i])) > 1e-7:
                        return False, f"function {i} on the cell and {j} on its neighbour (facet {f} = facet {g}) have the traces {own[i]} and {t} ({c})", (f, g)
    return True, "", None


def comps_of(f):
    return pieces(f)[0][1]


def run_mapped(name, cell, order, kw):
    """Elements that are built again on each cell: the same, with the element on the neighbour."""
    import numpy as np

    from symfem.finite_element import CiarletElement
    from symfem.mappings import MappingNotImplemented
    from symfem.references import NonDefaultReferenceError

    e = made(name, cell, order, kw)
    c = continuity_of(e)
    if c == "L2":
        return True, "L2"
    if isinstance(e, CiarletElement) and all(d.mapping is not None for d in e.dofs):
        return True, "glued by push-forwards"
    fs = e.get_basis_functions()
    where = [tuple(w) for w in e.dof_entities()]
    fac = facets(cell)
    for f, g in [(fac[0], fac[-1]), (fac[-1], fac[0])]:
        nb = neighbour(cell, f, g)
        if nb is None:
            continue
        A, o = nb
        verts = tuple(tuple(sympy.nsimplify(q, rational=True) for q in A @ np.array(v, dtype=float) + o) for v in spec.VERTS[cell])
        try:
            m = e.map_to_cell(verts)
        except (MappingNotImplemented, NonDefaultReferenceError, NotImplementedError):
            return True, "refuses"
        pts, axes = points_for(c, cell, f)
        der = 1 if c == "C1" else 0
        a, b = sub_vertices(cell, f), sub_vertices(cell, g)
        to = dict(zip(b, a))
        cl = closure(cell, g)
        out = [i for i in range(len(fs)) if where[i] not in cl]
        for i, t in zip(out, traces(c, cell, pts, axes, values([m[i] for i in out], pts, der))):
            if max(map(abs, t)) > 1e-7:
                return False, f"function {i} of the neighbour, of entity {where[i]}, has the trace {t} on the shared facet ({c})"
        for en in cl:
            image = {to[v] for v in sub_vertices(cell, en)}
            other = next(q for q in closure(cell, f) if q[0] == en[0] and set(sub_vertices(cell, q)) == image)
            di, dj = [i for i, w in enumerate(where) if w == other], [i for i, w in enumerate(where) if w == en]
            own = traces(c, cell, pts, axes, values([fs[i] for i in di], pts, der))
            oth = traces(c, cell, pts, axes, values([m[j] for j in dj], pts, der))
            for i, j, p, q in zip(di, dj, own, oth):
                if max(abs(x - y) for x, y in zip(p, q)) > 1e-7:
                    return False, f"function {i} on the cell and {j} on its neighbour (facet {f} = facet {g}) have the traces {p} and {q} ({c})"
    return True, ""


RUNS = {"metadata": run_metadata, "traces": run_traces, "internal": run_internal, "mapped": run_mapped}


def real(R, rows):
    for name, cell, order, kw in rows:
        from checks.E01 import label

        case = {"name": name, "cell": cell, "order": order, "kw": kw}
        where = f"{order}/{label(kw)}"
        for kind, run in RUNS.items():
            try:
                ok, why = run(name, cell, order, kw)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.bounded(f"{where}/{kind}", ok, why, {**case, "kind": kind})
        pair = None
        try:
            ok, why, pair = run_glue(name, cell, order, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"{where}/glue", ok, why, {**case, "kind": "glue", "pair": pair})


def units(tier):
    costs = [tuple(r) for r in json.load(open(os.path.join(os.path.dirname(__file__), "costs.json")))]
    u = []
    top = 3 if tier == "quick" else 20
    groups = {}
    for cell, name, order, kw, n, b, t, s in costs:
        if b > top:
            continue
        groups.setdefault((name, cell), []).append((b + 0.02 * n + 0.2, (name, cell, order, kw)))
    for (name, cell), rows in groups.items():
        part, cost, k = [], 0, 0
        for c, r in rows + [(1e9, None)]:
            if part and cost + c > 5:
                u.append((cost, (f"element/{name}/{cell}/{k}", real, part)))
                part, cost, k = [], 0, k + 1
            part.append(r)
            cost += c
    out = [q for _, q in sorted(u, key=lambda x: -x[0])]
    out += [(f"entities/{kind}/{n}", proof_entities, kind, n) for kind in ("ciarlet", "direct") for n in (1, 2, 3, 4)]
    out += [(f"entities/enriched/{'+'.join(map(str, q))}", proof_enriched, q) for q in ((1,), (2,), (1, 1), (2, 1), (0, 2), (2, 0, 1), (1, 2, 3))]
    for cell in spec.VERTS:
        if cell != "point":
            out.append((f"moments/{cell}", moments, cell))
            out.append((f"partition/{cell}", partition, cell))
            out.append((f"positions/{cell}", positions, cell, 24 if tier == "quick" else 80))
    return out


def replay(c):
    k = c["kind"]
    try:
        if k == "partition":
            ok, why = run_partition(c["cell"], c["what"], c["where"])
        elif k == "entities":
            v = [c["values"][f"{t}{j}"] for j in range(c["n"] + 1) for t in "dn"]
            pairs = list(zip(v[::2], v[1::2]))
            ok, why = run_entities(c["what"], pairs[:-1], pairs[-1])
        elif k == "enriched":
            ok, why = run_enriched(c["parts"], (1, 2))
        elif k == "moments":
            ok, why = run_moments(c["cell"], c["where"], c["form"], c["order"], c["low"], c["count"])
        elif k == "positions":
            ok, why = run_positions(c["cell"], c["d"], c["count"])
        elif k == "glue":
            pair = c.get("pair")
            ok, why, _ = run_glue(c["name"], c["cell"], c["order"], c["kw"], tuple(tuple(p) for p in pair) if pair else None)
        else:
            ok, why = RUNS[k](c["name"], c["cell"], c["order"], c["kw"])
    except Exception as ex:
        ok, why = False, repr(ex)
    return not ok, f"{c}: {why}"
