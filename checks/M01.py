"""M01: maps between the default cells and arbitrary cells."""
from pyvc import env  # noqa: F401
import sympy

from pyvc import engine, spec
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Every map, inverse and jacobian is executed on symbolic vertices and every obligation is discharged for all real vertices; nothing bounded. Trusted: sympy arithmetic, z3, the pyvc engine and ring normaliser.")

TRUSTED = ["sympy Matrix.inv of a symbolic 2x2/3x3 matrix is not trusted: its result is substituted and checked"]
ASSUMPTIONS = ["vertex coordinates are real numbers (any reals; cells may be degenerate only where stated)"]

CELLS = [("point", 0), ("point", 1), ("point", 2), ("point", 3), ("interval", 1), ("interval", 2),
         ("interval", 3), ("triangle", 2), ("triangle", 3), ("quadrilateral", 2),
         ("quadrilateral", 3), ("tetrahedron", 3), ("hexahedron", 3), ("prism", 3),
         ("pyramid", 3)]


def make(cell, verts=None):
    from symfem import create_reference

    return create_reference(cell) if verts is None else create_reference(cell, verts)


def general_vertices(cell, gdim):
    return tuple(tuple(engine.sym(f"v{i}_{j}") for j in range(gdim))
                 for i in range(len(spec.VERTS[cell])))


def affine_vertices(cell, gdim):
    v = [tuple(engine.sym(f"v0_{j}") for j in range(gdim))]
    for i in spec.AXES[cell]:
        v.append(tuple(engine.sym(f"v{i}_{j}") for j in range(gdim)))
    return spec.affine_vertices(cell, v)


def axes_of(cell, v):
    return [tuple(b - a for a, b in zip(v[0], v[i])) for i in spec.AXES[cell]]


def nondegenerate(cell, v):
    ax = axes_of(cell, v)
    if not ax:
        return []
    if len(ax) == len(v[0]):
        return [sympy.Ne(sympy.expand(spec.det(ax)), 0)]
    return [sympy.Ne(sympy.expand(spec.gram_det(ax)), 0)]


def val(m, v):
    m = _zero(m, v)
    return [[str(sympy.S(c).subs({s: m[s.name] for s in sympy.S(c).free_symbols})) for c in p]
            for p in v]


def _zero(m, v):
    m = dict(m)
    for p in v:
        for c in p:
            for k, q in enumerate(sorted(sympy.S(c).free_symbols, key=str)):
                m.setdefault(q.name, sympy.Integer((3 * k + len(m)) % 7 - 2))
    return m


def sub(e, pt):
    return sympy.S(e).subs(dict(zip(X, pt)), simultaneous=True)


# ------------------------------------------------------------------ units
def forward(R, cell, gdim, which):
    v = general_vertices(cell, gdim)
    case = lambda m: {"kind": "forward", "which": which, "cell": cell, "v": val(m, v)}  # noqa: E731
    R.cover("nondegenerate", nondegenerate(cell, v))

    def run():
        if which == "get_map_to":
            return make(cell).get_map_to(v)
        r = make(cell, v)
        a = r.get_map_to_self()
        b = r.get_map_to_self()
        assert a == b, "second call differs"
        return a

    for k, p in enumerate(engine.explore(run)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case({s.name: (i * i * 7 + 3 * i) % 5 - 2 for i, s in enumerate(
                s for q in v for s in q)})])
            continue
        want = spec.geometry_map(cell, v)
        R.ok(f"path{k}/dim", len(p.value) == gdim, str(p.value))
        for j, (a, b) in enumerate(zip(p.value, want)):
            if cell == "pyramid":
                # the code may use any extension that is the affine map on affine cells and
                # meets the vertices; checked below
                continue
            R.zero(f"path{k}/component{j}", sympy.S(a) - b, p.pc, case)
        for i, ref in enumerate(spec.VERTS[cell]):
            for j, a in enumerate(p.value):
                if cell == "pyramid" and i == 4:
                    # apex of a general base: the limit along the axis
                    e = sympy.cancel(sub(a, (0, 0, X[2]))).subs(X[2], 1)
                else:
                    e = sub(a, ref)
                R.zero(f"path{k}/vertex{i}.{j}", e - v[i][j], p.pc, case)


def affine_forward(R, cell, gdim, which):
    """On an affine cell the map is the affine map (for the pyramid this fixes the map)."""
    v = affine_vertices(cell, gdim)
    case = lambda m: {"kind": "forward", "which": which, "cell": cell, "v": val(m, v)}  # noqa: E731
    ax = axes_of(cell, v)

    def run():
        return make(cell).get_map_to(v) if which == "get_map_to" else make(cell, v).get_map_to_self()

    for k, p in enumerate(engine.explore(run)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc))
            continue
        for j, a in enumerate(p.value):
            want = v[0][j] + sum(c * x[j] for c, x in zip(X, ax))
            R.zero(f"path{k}/component{j}", sympy.S(a) - want, p.pc, case)


def inverse(R, cell, gdim, which, general=False):
    v = general_vertices(cell, gdim) if general else affine_vertices(cell, gdim)
    case = lambda m: {"kind": "inverse", "which": which, "cell": cell, "v": val(m, v)}  # noqa: E731
    pre = nondegenerate(cell, v)
    R.cover("pre", pre)
    ax = axes_of(cell, v)
    fwd = tuple(v[0][j] + sum(c * x[j] for c, x in zip(X, ax)) for j in range(gdim))
    w = spec.affine_vertices(cell, [v[0]] + [v[i] for i in spec.AXES[cell]])
    resid = [sympy.expand(a - b) for p, q in zip(v, w) for a, b in zip(p, q)]
    resid = [r for r in resid if r != 0]

    def run():
        if which == "get_inverse_map_to":
            return make(cell).get_inverse_map_to(v)
        r = make(cell, v)
        a = r.get_inverse_map_to_self()
        assert r.get_inverse_map_to_self() == a, "second call differs"
        return a

    from symfem.references import NonDefaultReferenceError  # noqa: F401

    n_ret = 0
    for k, p in enumerate(engine.explore(run, pre)):
        if p.exc is not None:
            if general and isinstance(p.exc, AssertionError) and resid:
                # refusing is only allowed on cells that are not affine
                R.implies(f"path{k}/refuses-only-non-affine", pre + p.pc,
                          sympy.Or(*[sympy.Ne(r, 0) for r in resid]), case)
                continue
            if (cell, gdim, which) == ("triangle", 3, "get_inverse_map_to") and isinstance(
                    p.exc, AssertionError):
                n_ret += 1  # documented restriction: the argument has to be two-dimensional
                R.ok(f"path{k}/embedded-triangle-refused", True)
                continue
            R.undecided(f"path{k}/returns", repr(p.exc), [case({str(s): 0 for s in []})] if not v[0] else [])
            continue
        n_ret += 1
        if general and resid:
            R.implies(f"path{k}/affine", pre + p.pc, sympy.And(*[sympy.Eq(r, 0) for r in resid]), case)
            continue
        R.ok(f"path{k}/dim", len(p.value) == spec.TDIM[cell], str(p.value))
        for j, a in enumerate(p.value):
            a = sympy.S(a)
            R.zero(f"path{k}/inverse-of-forward{j}", sub(a, fwd) - X[j], p.pc, case)
            den = sympy.fraction(sympy.together(a))[1]
            R.implies(f"path{k}/defined{j}", pre + p.pc, sympy.Ne(den, 0), case)
        if spec.TDIM[cell] == gdim:
            for j in range(gdim):
                R.zero(f"path{k}/forward-of-inverse{j}", sub(fwd[j], p.value) - X[j], p.pc, case)
    R.ok("some-path-returns", n_ret > 0)


def default_identity(R, cell):
    r = make(cell)
    tdim = spec.TDIM[cell]
    case = {"kind": "default", "cell": cell}
    R.ok("vertices", tuple(r.vertices) == tuple(tuple(sympy.S(c) for c in p) for p in spec.VERTS[cell]),
         str(r.vertices), case)
    R.ok("reference_vertices", r.reference_vertices == r.vertices, "", case)
    for nm, m in [("map", r.get_map_to_self()), ("inverse", r.get_inverse_map_to_self()),
                  ("map_to", r.get_map_to(r.vertices)),
                  ("inverse_to", r.get_inverse_map_to(r.vertices))]:
        R.ok(f"{nm}/dim", len(m) == tdim, str(m), case)
        for j, a in enumerate(m):
            R.zero(f"{nm}{j}", sympy.S(a) - X[j], (), lambda m: case)


def polyset(R, cell, gdim):
    """map_polyset_from_default(P) = {p o inverse map}, for every function p."""
    v = affine_vertices(cell, gdim)
    pre = nondegenerate(cell, v)
    fs = [sympy.Function(n)(*X[:gdim]) for n in ("f", "g", "h")]
    sc = [fs[0], fs[1]]
    ve = [(fs[0], fs[1])]
    case = lambda m: {"kind": "polyset", "cell": cell, "v": val(m, v)}  # noqa: E731
    for k, p in enumerate(engine.explore(lambda: (make(cell, v).map_polyset_from_default(sc + ve),
                                                  make(cell, v).get_inverse_map_to_self()), pre)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc))
            continue
        got, inv = p.value
        R.ok(f"path{k}/len", len(got) == 3)
        for a, f in zip(got[:2], sc):
            a = a.as_sympy() if hasattr(a, "as_sympy") else a
            # on the path where the cell is the default one the set is returned as is
            b = f.subs(dict(zip(X, inv)), simultaneous=True)
            R.ok(f"path{k}/{f.func}", a == b or _eq_fun(a, b, p.pc), f"{a} != {b}")
        g = got[2]
        g = tuple(i for i in (g.as_sympy() if hasattr(g, "as_sympy") else g))
        for i in range(2):
            a, b = sympy.S(g[i]), fs[i].subs(dict(zip(X, inv)), simultaneous=True)
            R.ok(f"path{k}/vec{i}", a == b or _eq_fun(a, b, p.pc), f"{a} != {b}")


def _eq_fun(a, b, pc):
    """f(args) == f(args') with args equal under the path condition's linear equalities."""
    eqs = [c for c in pc if isinstance(c, sympy.Eq)]
    syms = sorted(set().union(*[c.free_symbols for c in eqs]) if eqs else [], key=str)
    if not syms:
        return False
    sol = sympy.solve([c.lhs - c.rhs for c in eqs], syms, dict=True)
    return any(sympy.simplify(a.subs(s)) == sympy.simplify(b.subs(s)) for s in sol)


def guard(R, cell, gdim):
    """get_map_to / get_inverse_map_to refuse a cell that is not the default one."""
    v = affine_vertices(cell, gdim)
    ref = [tuple(sympy.S(c) for c in p) for p in spec.VERTS[cell]]
    isdef = sympy.And(*[sympy.Eq(a, b) for p, q in zip(v, ref) for a, b in zip(p, q)])
    for which in ("get_map_to", "get_inverse_map_to"):
        def run():
            return getattr(make(cell, v), which)(spec.VERTS[cell])

        for k, p in enumerate(engine.explore(run, nondegenerate(cell, v))):
            if p.exc is None:
                R.implies(f"{which}/path{k}/default-only", p.pc, isdef)
            else:
                R.implies(f"{which}/path{k}/refused", p.pc, sympy.Not(isdef))


def units(tier):
    u = []
    for cell, gdim in CELLS:
        for which in ("get_map_to", "get_map_to_self"):
            if gdim:
                u.append((f"forward/{cell}{gdim}/{which}", forward, cell, gdim, which))
                u.append((f"affine-forward/{cell}{gdim}/{which}", affine_forward, cell, gdim, which))
        if cell == "point":
            continue
        for which in ("get_inverse_map_to", "get_inverse_map_to_self"):
            u.append((f"inverse/{cell}{gdim}/{which}", inverse, cell, gdim, which))
            if cell in ("quadrilateral", "hexahedron", "prism", "pyramid"):
                u.append((f"inverse-general/{cell}{gdim}/{which}", inverse, cell, gdim, which, True))
        if gdim == spec.TDIM[cell]:
            u.append((f"default/{cell}", default_identity, cell))
            u.append((f"guard/{cell}", guard, cell, gdim))
            u.append((f"polyset/{cell}{gdim}", polyset, cell, gdim))
    return u


# ------------------------------------------------------------------ replay (original code)
def replay(case):
    from symfem import create_reference

    cell = case["cell"]
    if case["kind"] == "default":
        r = create_reference(cell)
        bad = []
        for nm, m in [("get_map_to_self()", r.get_map_to_self()),
                      ("get_inverse_map_to_self()", r.get_inverse_map_to_self()),
                      ("get_map_to(default)", r.get_map_to(r.vertices)),
                      ("get_inverse_map_to(default)", r.get_inverse_map_to(r.vertices))]:
            if [sympy.expand(a - b) for a, b in zip(m, X)] != [0] * spec.TDIM[cell] or len(m) != spec.TDIM[cell]:
                bad.append(f"{nm} = {m}, expected the identity")
        want = tuple(tuple(sympy.S(c) for c in p) for p in spec.VERTS[cell])
        if r.vertices != want:
            bad.append(f"vertices {r.vertices}")
        return bool(bad), f"{cell}: " + "; ".join(bad or ["identity"])
    v = spec.parse(case["v"])
    which = case.get("which", "get_map_to")
    ax = axes_of(cell, v)
    if case["kind"] in ("inverse", "polyset") and ax and spec.gram_det(ax) == 0:
        return False, "degenerate cell"
    w = spec.affine_vertices(cell, [v[0]] + [v[i] for i in spec.AXES[cell]])
    affine = tuple(map(tuple, w)) == tuple(map(tuple, v))
    if case["kind"] == "forward":
        r = create_reference(cell)
        m = r.get_map_to(v) if which == "get_map_to" else create_reference(cell, v).get_map_to_self()
        bad = []
        for i, p in enumerate(spec.VERTS[cell]):
            got = tuple(sympy.nsimplify(sympy.limit(sympy.S(a).subs({X[0]: 0, X[1]: 0}), X[2], 1)) if (
                cell == "pyramid" and i == 4) else sub(a, p) for a in m)
            if any(sympy.simplify(a - b) != 0 for a, b in zip(got, v[i])) or len(got) != len(v[i]):
                bad.append(f"vertex {i}: {p} -> {got}, expected {v[i]}")
        pt = (sympy.Rational(1, 5), sympy.Rational(1, 4), sympy.Rational(1, 3))
        if cell != "pyramid" or affine:
            want = tuple(sub(a, pt) for a in spec.geometry_map(cell, v))
            got = tuple(sub(a, pt) for a in m)
            if any(sympy.simplify(a - b) != 0 for a, b in zip(got, want)):
                bad.append(f"{pt[:spec.TDIM[cell]]} -> {got}, expected {want}")
        return bool(bad), f"{which} of {cell} with vertices {v}: {m}: " + "; ".join(bad or ["as specified"])
    fwd = tuple(v[0][j] + sum(c * x[j] for c, x in zip(X, ax)) for j in range(len(v[0])))
    if case["kind"] == "polyset":
        r = create_reference(cell, v)
        p = r.map_polyset_from_default([X[0] + 2 * X[0] ** 2])[0]
        p = p.as_sympy() if hasattr(p, "as_sympy") else p
        e = sympy.expand(sub(p, fwd) - X[0] - 2 * X[0] ** 2)
        return e != 0, f"mapped polynomial pulled back differs by {e}"
    try:
        if which == "get_inverse_map_to":
            inv = create_reference(cell).get_inverse_map_to(v)
        else:
            inv = create_reference(cell, v).get_inverse_map_to_self()
    except AssertionError as e:
        if affine and not (cell == "triangle" and len(v[0]) == 3 and which == "get_inverse_map_to"):
            return True, f"{which} refused the affine cell {v}: {e!r}"
        return False, "refused"
    if not affine:
        return True, f"{which} returned {inv} for the non-affine {cell} {v}"
    back = tuple(sympy.simplify(sub(a, fwd)) for a in inv)
    return back != X[:len(back)] or len(back) != spec.TDIM[cell], (
        f"{which} of {cell} {v} = {inv}; after the forward map it gives {back}")
