"""G02: sub-entities, sizes, normals, tangents, lattices."""
from pyvc import env  # noqa: F401
from itertools import combinations

import sympy
from sympy import And, Eq

from checks.M01 import CELLS, affine_vertices, axes_of, general_vertices, make, nondegenerate, val
from pyvc import engine, generic, smt, spec

LEVEL = "proof"
LEVEL_NOTE = ("Sub-entities, sizes, normals, tangents, midpoints and points in local axes are executed on cells with symbolic vertices; the point sets of "
              "make_lattice are proved for every resolution (generic indices) and all vertices; lattices with lines are proved for all vertices at "
              "each resolution up to a bound (bounded).")
TRUSTED = ["the table of published vertex, edge and face numbers in pyvc/spec.py (checked against the convex geometry of the default cells)"]
ASSUMPTIONS = ["vertices are real; sizes, normals and tangents are for non-degenerate affine cells"]
BOUNDS = "make_lattice_with_lines: 2 to 7 points per edge (quick), 12 (thorough); dual polygons with 2 to 7 triangles"
S = sympy.S
ALL = list(dict.fromkeys(c for c, _ in CELLS))


def entity_lists(cell):
    n = len(spec.VERTS[cell])
    td = spec.TDIM[cell]
    out = [tuple((i,) for i in range(n)), spec.EDGES.get(cell, ()), spec.FACES.get(cell, ()), ()]
    if td == 3:
        out[3] = (tuple(range(n)),)
    return out


def kind(cell, dim, vs):
    if dim == spec.TDIM[cell]:
        return cell
    return {0: "point", 1: "interval"}.get(dim) or {3: "triangle", 4: "quadrilateral"}[len(vs)]


# facts: (label, [expressions that vanish], [booleans])
def topology(cell):
    r = make(cell)
    td = spec.TDIM[cell]
    lists = entity_lists(cell)
    yield "tdim", [], [r.tdim == td, r.name == cell, r.simplex == (cell in spec.SIMPLEX)]
    verts = tuple(tuple(S(c) for c in p) for p in spec.VERTS[cell])
    yield "default-vertices", [], [tuple(r.vertices) == verts, tuple(r.reference_vertices) == verts]
    for d in range(4):
        yield f"sub-entities{d}", [], [tuple(map(tuple, r.sub_entities(d))) == tuple(lists[d]), r.sub_entity_count(d) == len(lists[d])]
        if 0 <= td - d:
            yield f"codim{td - d}", [], [tuple(map(tuple, r.sub_entities(codim=td - d))) == tuple(lists[d]),
                                         r.sub_entity_count(codim=td - d) == len(lists[d])]
    yield "z-order", [], [sorted(e for g in r.z_ordered_entities() for e in g)
                          == [(d, i) for d in range(td + 1) for i in range(len(lists[d]))]]
    yield "z-order-extra", [], [sorted(e for g in r.z_ordered_entities_extra_dim() for e in g)
                                == [(d, i) for d in range(td + 1) for i in range(len(lists[d]))]]
    cw = [list(r.vertices).index(v) for v in r.clockwise_vertices]
    if td >= 2:
        yield "outline", [], [len(set(cw)) == len(cw), all(tuple(sorted(e)) in set(spec.EDGES[cell]) for e in zip(cw, cw[1:] + cw[:1])),
                              td == 3 or len(cw) == len(verts)]


def spec_faces(cell):
    """The faces of the convex hull of the default vertices, by supporting planes: a check of the table in spec.py."""
    v = [sympy.Matrix(p) for p in spec.VERTS[cell]]
    td = spec.TDIM[cell]
    faces = set()
    for c in combinations(range(len(v)), td):
        m = sympy.Matrix([list(v[i] - v[c[0]]) for i in c[1:]])
        ns = m.nullspace() if m.rows else [sympy.Matrix([1])]
        if len(ns) != 1:
            continue
        side = [ns[0].dot(p - v[c[0]]) for p in v]
        if all(s >= 0 for s in side) or all(s <= 0 for s in side):
            faces.add(tuple(i for i, s in enumerate(side) if s == 0))
    return faces


def spec_table(R):
    for cell in ALL:
        td = spec.TDIM[cell]
        if td < 2:
            continue
        f = spec_faces(cell)
        R.ok(f"{cell}/facets", f == set((spec.EDGES if td == 2 else spec.FACES)[cell]), str(f), {"kind": "none"})
        if td == 3:
            e = {tuple(sorted(set(a) & set(b))) for a, b in combinations(f, 2) if len(set(a) & set(b)) == 2}
            R.ok(f"{cell}/edges", e == set(spec.EDGES[cell]), str(e), {"kind": "none"})


def entities(cell, v):
    """Each sub-entity is the cell of the right type with the listed vertices."""
    from symfem.references import Reference

    r = make(cell, v)
    lists = entity_lists(cell)
    for d in range(spec.TDIM[cell] + 1):
        for n, vs in enumerate(lists[d]):
            for ref in (False, True):
                e = r.sub_entity(d, n, True) if ref else r.sub_entity(d, n)
                ok = [isinstance(e, Reference), e.name == kind(cell, d, vs), e.tdim == d]
                base = spec.VERTS[cell] if ref else v
                want = [base[i] for i in vs]
                if len(e.vertices) != len(want):
                    yield f"entity{d}-{n}-{ref:d}", [], ok + [False]
                    continue
                z = [a - b for p, q in zip(e.vertices, want) for a, b in zip(p, q)]
                ok.append(all(len(p) == len(q) for p, q in zip(e.vertices, want)))
                ok.append(e.gdim == len(base[0]))
                z += [a - b for a, b in zip(e.origin, want[0])]
                for a, i in zip(e.axes, spec.AXES[e.name]):
                    z += [p - (q - o) for p, q, o in zip(a, want[i], want[0])]
                ok.append(len(e.axes) == d)
                yield f"entity{d}-{n}-{ref:d}", z, ok
    yield "default-reference", [S(a) - b for p, q in zip(r.default_reference().vertices, spec.VERTS[cell]) for a, b in zip(p, q)], [
        r.default_reference().name == cell]
    mid = r.midpoint()
    yield "midpoint", [len(v) * mid[j] - sum(p[j] for p in v) for j in range(len(v[0]))], [len(mid) == len(v[0])]


def measures(cell, v):
    r = make(cell, v)
    ax = axes_of(cell, v)
    td, gd = spec.TDIM[cell], len(v[0])
    size = sympy.Abs(spec.det(ax)) if td == gd else sympy.sqrt(spec.gram_det(ax))
    if td > 0:
        yield "volume", [r.volume() - spec.VOL[cell] * size], []
    c = [engine.sym(f"c{i}") for i in range(td)]
    p = r.get_point(tuple(c))
    yield "get-point", [p[j] - v[0][j] - sum(k * a[j] for k, a in zip(c, ax)) for j in range(gd)], [len(p) == gd]
    sc = r.scaled_axes()
    z = []
    for a, b in zip(sc, ax):
        z += [i * sympy.sqrt(spec.dot(b, b)) - j for i, j in zip(a, b)]
    yield "scaled-axes", z, [len(sc) == td]
    try:
        t = r.tangent()
    except RuntimeError:
        t = None
    yield "tangent-defined", [], [(t is not None) == (td == 1)]
    if td == 1 and t is not None:
        yield "tangent", [i * sympy.sqrt(spec.dot(ax[0], ax[0])) - j for i, j in zip(t, ax[0])], [len(t) == gd]
    try:
        n = r.normal()
    except RuntimeError:
        n = None
    yield "normal-defined", [], [(n is not None) == (td in (1, 2) and gd == td + 1)]
    if n is not None and gd == td + 1:
        w = (-ax[0][1], ax[0][0]) if td == 1 else spec.cross(ax[0], ax[1])
        yield "normal", [i * sympy.sqrt(spec.dot(w, w)) - j for i, j in zip(n, w)], [len(n) == gd]
        yield "normal-unit", [spec.dot(n, n) - 1], []
        for k, a in enumerate(ax):
            yield f"normal-orthogonal{k}", [spec.dot(n, a)], []


def discharge(R, facts, v, case, pre=()):
    paths = engine.explore(lambda: list(facts()), list(pre))
    for k, p in enumerate(paths):
        pk = "" if len(paths) == 1 else f"path{k}/"
        if p.exc is not None:
            R.undecided(pk + "returns", repr(p.exc), [case({})])
            continue
        for label, zs, bs in p.value:
            R.ok(f"{pk}{label}/form", all(bs), str(bs), case({}))
            for i, z in enumerate(zs):
                R.zero(f"{pk}{label}/{i}", z, (), case)


def topo(R, cell):
    discharge(R, lambda: topology(cell), None, lambda m: {"kind": "topology", "cell": cell})


def ents(R, cell, gdim):
    v = general_vertices(cell, gdim)
    discharge(R, lambda: entities(cell, v), v, lambda m: {"kind": "entities", "cell": cell, "v": val(m, v)})


def meas(R, cell, gdim):
    v = affine_vertices(cell, gdim)
    pre = nondegenerate(cell, v)
    R.cover("pre", pre)
    discharge(R, lambda: measures(cell, v), v, lambda m: {"kind": "measures", "cell": cell, "v": val(m, v)}, pre)


def equality(R, cell, gdim):
    """== compares type and vertices; equal cells have equal hashes."""
    v = general_vertices(cell, gdim)
    w = tuple(tuple(engine.sym(f"w{i}_{j}") for j in range(gdim)) for i in range(len(v)))
    case = lambda m: {"kind": "equality", "cell": cell, "v": val(m, v), "w": val(m, w)}  # noqa: E731

    def run():
        return bool(make(cell, v) == make(cell, w))

    eqs = [Eq(a, b) for p, q in zip(v, w) for a, b in zip(p, q)]
    for k, p in enumerate(engine.explore(run)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case({})])
        elif p.value:
            R.implies(f"path{k}/equal", p.pc, And(*eqs), case)
        else:
            R.implies(f"path{k}/different", p.pc, sympy.Not(And(*eqs)), case)
    R.ok("hash", hash(make(cell, v)) == hash(make(cell, v)))
    others = [c for c in ALL if c != cell and len(spec.VERTS[c]) == len(v)]
    for c in others:
        R.ok(f"not-a-{c}", not (make(c, v) == make(cell, v)), "", {"kind": "types", "cell": cell, "other": c})


# ---------------------------------------------------------------- lattices
def local_coordinates(p, o, ax):
    """c with p == o + sum c_i ax_i, where o and ax are independent symbols; None if it is not of that form."""
    cs = None
    for j, q in enumerate(p):
        q = sympy.expand(q)
        c = [q.coeff(a[j], 1) for a in ax]
        if sympy.simplify(q - o[j] - sum(k * a[j] for k, a in zip(c, ax))) != 0:
            return None
        c = [sympy.cancel(sympy.together(k)) for k in c]
        if cs is not None and any(sympy.cancel(a - b) != 0 for a, b in zip(c, cs)):
            return None
        cs = c
    return cs


def sym_cell(cell, gdim):
    o = tuple(engine.sym(f"o{j}") for j in range(gdim))
    ax = [tuple(engine.sym(f"a{i}_{j}") for j in range(gdim)) for i in range(spec.TDIM[cell])]
    v = spec.affine_vertices(cell, [o] + [tuple(a + b for a, b in zip(o, w)) for w in ax])
    return o, ax, v


LATTICES = [("interval", 1), ("interval", 2), ("interval", 3), ("triangle", 2), ("triangle", 3), ("quadrilateral", 2), ("quadrilateral", 3),
            ("tetrahedron", 3), ("hexahedron", None), ("prism", None)]


def inside(cell, e, n):
    """(2e+1)/(2(n+1)) strictly inside the default cell, over the integers."""
    t = [2 * i + 1 for i in e]
    top = 2 * (n + 1)
    c = [i > 0 for i in t]
    if cell in ("interval", "quadrilateral", "hexahedron"):
        c += [i < top for i in t]
    elif cell == "prism":
        c += [t[0] + t[1] < top, t[2] < top]
    else:
        c.append(sum(t) < top)
    return And(*c)


def lattice(R, cell, gdim):
    n = engine.sym("n", integer=True)
    pre = [n >= 1]
    case = {"kind": "lattice", "cell": cell, "gdim": gdim}
    td = spec.TDIM[cell]
    if gdim is None:
        o, ax, v = None, None, None
        run = lambda: make(cell).make_lattice(n)  # noqa: E731
    else:
        o, ax, v = sym_cell(cell, gdim)
        run = lambda: make(cell, v).make_lattice(n)  # noqa: E731
    ps = engine.explore(run, pre)
    for p in ps:
        if p.exc is not None:
            R.undecided("returns", repr(p.exc), [case])
            return
    its, idle = generic.items(ps, lambda p: tuple(S(i) for i in p))
    R.ok("every-index-used", not idle, str(idle), case)

    def exps(it):
        c = it.value if gdim is None else local_coordinates(it.value, o, ax)
        if c is None or len(c) != td:
            return None
        out = [sympy.cancel(sympy.together((i * 2 * (n + 1) - 1) / 2)) for i in c]
        return tuple(sympy.expand(i) for i in out) if all(sympy.denom(i) == 1 for i in out) else None

    e = tuple(engine.sym(f"e{i}", integer=True) for i in range(td))
    generic.same_set(R, "points", its, exps, lambda q: inside(cell, q, n), e, pre, case)


def run_lattice(cell, v, n):
    r = make(cell) if v is None else make(cell, v)
    pts = r.make_lattice(n)
    td = spec.TDIM[cell]
    vv = r.vertices
    o, ax = vv[0], axes_of(cell, vv)
    from itertools import product

    want = [tuple(o[j] + sum(S(2 * i + 1) / (2 * (n + 1)) * a[j] for i, a in zip(e, ax)) for j in range(len(o)))
            for e in product(range(n + 1), repeat=td) if inside(cell, e, n) == sympy.true]
    got = [tuple(sympy.expand(c) for c in p) for p in pts]
    want = [tuple(sympy.expand(c) for c in p) for p in want]
    if len(got) != len(want) or set(got) != set(want):
        return False, f"make_lattice({n}) of {cell} {vv}: {got}, expected {want}"
    fl = r.make_lattice_float(n) if all(c.is_number for p in pts for c in map(S, p)) else None
    if fl is not None and (len(fl) != len(pts) or any(abs(float(a) - float(b)) > 1e-9 for p, q in zip(fl, pts) for a, b in zip(p, q))):
        return False, f"make_lattice_float({n}) of {cell} {vv}: {fl}"
    return True, ""


def run_lines(cell, v, n, o=None, ax=None):
    r = make(cell, v)
    pts, pairs = r.make_lattice_with_lines(n)
    if o is None:
        o, ax = v[0], axes_of(cell, v)
    td = spec.TDIM[cell]
    from itertools import product

    idx = [e for e in product(range(n), repeat=td) if cell != "triangle" or sum(e) <= n - 1]
    at = {tuple(sympy.expand(o[j] + sum(S(i) / (n - 1) * a[j] for i, a in zip(e, ax))) for j in range(len(o))): e for e in idx}
    got = [at.get(tuple(sympy.expand(c) for c in p)) for p in pts]
    if None in got or len(got) != len(idx) or len(set(got)) != len(got):
        return False, f"points of make_lattice_with_lines({n}) of {cell} {v}: {pts}"
    seen = set()
    for a, b in pairs:
        if not (0 <= a < len(got) and 0 <= b < len(got)):
            return False, f"line {a}-{b} does not join lattice points ({cell}, n={n})"
        d = tuple(j - i for i, j in zip(got[a], got[b]))
        if max(map(abs, d)) != 1 or (cell == "triangle" and abs(sum(d)) > 1):
            return False, f"line {a}-{b} of {cell} joins {got[a]} and {got[b]} (n={n})"
        if frozenset((a, b)) in seen:
            return False, f"line {a}-{b} of {cell} is repeated (n={n})"
        seen.add(frozenset((a, b)))
    for i, e in enumerate(got):
        for j, f in enumerate(got):
            d = sorted(abs(p - q) for p, q in zip(e, f))
            if sum(d) == 1 and frozenset((i, j)) not in seen:
                return False, f"no line joins {e} and {f} ({cell}, n={n})"
    if v is not None and all(S(c).is_number for p in v for c in p):
        fp, fl = r.make_lattice_with_lines_float(n)
        if list(fl) != list(pairs) or any(abs(float(a) - float(b)) > 1e-9 for p, q in zip(fp, pts) for a, b in zip(p, q)):
            return False, f"make_lattice_with_lines_float({n}) of {cell}: {fp}"
    return True, ""


def lines(R, cell, gdim, top):
    o, ax, v = sym_cell(cell, gdim)
    dv = [[str(c.subs({s: (3 * k + 5 * i + 1) % 7 for k, s in enumerate(sorted(c.free_symbols, key=str))})) for c in p] for i, p in enumerate(v)]
    for n in range(2, top + 1):
        ok, text = run_lines(cell, v, n, o, ax)
        R.bounded(f"n{n}", ok, text, {"kind": "lines", "cell": cell, "n": n, "gdim": gdim})
        ok, text = run_lines(cell, spec.affine_vertices(cell, default_axes(cell, gdim)), n)
        R.bounded(f"n{n}/floats", ok, text, {"kind": "lines", "cell": cell, "n": n, "gdim": gdim})
    del dv


def default_axes(cell, gdim):
    return [tuple(S((i * 3 + j * 2 + (5 if i == j + 1 else 0)) % 7) for j in range(gdim)) for i in range(spec.TDIM[cell] + 1)]


def floats(R, cell, gdim):
    v = None if gdim is None else spec.affine_vertices(cell, default_axes(cell, gdim))
    for n in (1, 2, 3):
        ok, text = run_lattice(cell, v, n)
        R.bounded(f"n{n}", ok, text, {"kind": "lattice", "cell": cell, "gdim": gdim})


# ---------------------------------------------------------------- dual polygons and creation
def dual_polygon(nt):
    from symfem import create_reference

    r = create_reference(f"dual polygon({nt})")
    ang = [2 * sympy.pi * i / nt for i in range(nt + 1)]
    want = []
    for a, b in zip(ang, ang[1:]):
        want.append((sympy.cos(a), sympy.sin(a)))
        want.append(((sympy.cos(a) + sympy.cos(b)) / 2, (sympy.sin(a) + sympy.sin(b)) / 2))
    yield "vertices", [sympy.simplify(a - b) for p, q in zip(r.vertices, want) for a, b in zip(p, q)], [len(r.vertices) == 2 * nt]
    N = 2 * nt
    yield "edges", [], [sorted(tuple(sorted(e)) for e in r.edges) == sorted(tuple(sorted((i, (i + 1) % N))) for i in range(N)),
                        tuple(map(tuple, r.faces)) == (tuple(range(N)),), tuple(r.volumes) == (), r.tdim == 2 == r.gdim,
                        tuple(r.origin) == (0, 0)]
    yield "z-order", [], [sorted(e for g in r.z_ordered_entities() for e in g) == sorted(
        [(0, i) for i in range(N)] + [(1, i) for i in range(N)] + [(2, 0)])]
    yield "z-order-extra", [], [sorted(e for g in r.z_ordered_entities_extra_dim() for e in g) == sorted(
        [(0, i) for i in range(N)] + [(1, i) for i in range(N)] + [(2, 0)])]
    yield "entities", [], [tuple(r.sub_entity(0, i).vertices) == (r.vertices[i],) for i in range(N)] + [
        tuple(r.sub_entity(1, i).vertices) == tuple(r.vertices[j] for j in r.edges[i]) for i in range(N)] + [r.sub_entity(2, 0) is r]
    # with vertices of its own
    vs = tuple((S(3 * i), S(i * i + 1)) for i in range(N + 1))
    q = create_reference(f"dual polygon({nt})", vs)
    yield "own-vertices", [], [tuple(q.vertices) == vs[1:], tuple(q.origin) == vs[0]]


def dual(R, nt):
    discharge(R, lambda: dual_polygon(nt), None, lambda m: {"kind": "dual", "nt": nt})


REFUSE = ["", "Interval", "square", "tetra", "cube", "wedge", "triangles", "dual"]


def run_refuse(name):
    from symfem import create_reference

    try:
        r = create_reference(name)
    except Exception:
        return True, ""
    return False, f"create_reference({name!r}) returned a {r.name}"


def wrong_count(cell, n):
    from symfem import create_reference

    try:
        r = create_reference(cell, tuple(tuple(S(i + j) for j in range(spec.TDIM[cell])) for i in range(n)))
    except Exception:
        return True, ""
    return False, f"a {cell} with {n} vertices was created: {r.vertices}"


def creation(R):
    for name in REFUSE:
        ok, text = run_refuse(name)
        R.ok(f"refuses {name!r}", ok, text, {"kind": "refuse", "name": name})
    for cell in ALL:
        for n in range(1, 10):
            if n != len(spec.VERTS[cell]):
                ok, text = wrong_count(cell, n)
                R.ok(f"{cell}/{n}-vertices", ok, text, {"kind": "count", "cell": cell, "n": n})


def units(tier):
    u = [("spec-table", spec_table), ("creation", creation)]
    for c in ALL:
        u.append((f"topology/{c}", topo, c))
    for c, g in CELLS:
        u.append((f"entities/{c}{g}", ents, c, g))
        u.append((f"measures/{c}{g}", meas, c, g))
        if len(spec.VERTS[c]) * g <= 12 or tier == "thorough":
            u.append((f"equality/{c}{g}", equality, c, g))
    for c, g in LATTICES:
        u.append((f"lattice/{c}{g or ''}", lattice, c, g))
        u.append((f"lattice-floats/{c}{g or ''}", floats, c, g))
    for c, g in LATTICES:
        if c in ("interval", "triangle", "quadrilateral"):
            u.append((f"lines/{c}{g}", lines, c, g, 7 if tier == "quick" else 12))
    for nt in range(2, 8):
        u.append((f"dual-polygon/{nt}", dual, nt))
    return u


def replay(c):
    k = c["kind"]
    v = spec.parse(c["v"]) if "v" in c else None
    if k == "equality":
        w = spec.parse(c["w"])
        got = make(c["cell"], v) == make(c["cell"], w)
        bad = got != (v == w) or (got and hash(make(c["cell"], v)) != hash(make(c["cell"], w)))
        return bad, f"{c['cell']} {v} == {w}: {got}"
    if k == "types":
        v = spec.VERTS[c["cell"]]
        return make(c["cell"], v) == make(c["other"], v), f"{c['cell']} == {c['other']}"
    if k == "refuse":
        ok, text = run_refuse(c["name"])
        return not ok, text
    if k == "count":
        ok, text = wrong_count(c["cell"], c["n"])
        return not ok, text
    if k in ("lattice", "lines"):
        v = None if c["gdim"] is None else spec.affine_vertices(c["cell"], default_axes(c["cell"], c["gdim"]))
        for n in ([c["n"]] if "n" in c else range(1, 7)):
            try:
                ok, text = run_lattice(c["cell"], v, n) if k == "lattice" else run_lines(c["cell"], v, n)
            except Exception as e:
                ok, text = False, f"{k} {c['cell']} n={n}: {e!r}"
            if not ok:
                return True, text
        return False, "as specified"
    if k == "none":
        return False, ""
    f = {"topology": lambda: topology(c["cell"]), "entities": lambda: entities(c["cell"], v),
         "measures": lambda: measures(c["cell"], v), "dual": lambda: dual_polygon(c.get("nt"))}[k]
    try:
        for label, zs, bs in f():
            if not all(bs):
                return True, f"{c}: {label}: {bs}"
            for z in zs:
                if not smt.is_zero(z) and sympy.simplify(z) != 0:
                    return True, f"{c}: {label}: {z} should be 0"
    except Exception as e:
        return True, f"{c}: {e!r}"
    return False, "as specified"
