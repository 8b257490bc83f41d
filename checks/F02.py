"""F02: derivatives and integrals."""
from pyvc import env  # noqa: F401
import random

import sympy
from sympy.core.function import AppliedUndef

from checks.F01 import UNDEF, basis_class, entries, fn, func, mapv, same, tsum, value
from pyvc import engine, smt, spec
from pyvc.formal import formal_integrals
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Derivatives are proved for uninterpreted smooth functions. Integrals are proved for uninterpreted integrands over cells with symbolic "
              "vertices, modularly against the contract of sympy's integrate (trusted); a bounded run of polynomials exercises the integration itself.")
TRUSTED = ["sympy.integrate computes the iterated integral it is asked for"]
ASSUMPTIONS = ["functions are smooth (mixed derivatives commute)", "cells are affine and non-degenerate"]
BOUNDS = "bounded stand-in: polynomials up to degree 3 on random integer cells"
S = sympy.S


# ------------------------------------------------------------------ derivatives
def d(e, *vs):
    return sympy.diff(e, *vs)


def deriv_cases(shape):
    """name -> (call, expected)"""
    x = X
    out = {}
    for i, v in enumerate(x + (sympy.Symbol("s"),)):
        out[f"diff{i}"] = (lambda a, v=v: a.diff(v), lambda e, v=v: mapv(lambda q: d(q, v), e))
    dirs = {n: tuple(sympy.Symbol(f"d{i}") for i in range(n)) for n in (1, 2, 3)}
    if shape == ():
        for n in (1, 2, 3):
            out[f"directional{n}"] = (lambda a, n=n: a.directional_derivative(dirs[n]),
                                      lambda e, n=n: tsum(c * d(e, v) for c, v in zip(dirs[n], x)))
            out[f"grad{n}"] = (lambda a, n=n: a.grad(n), lambda e, n=n: tuple(d(e, v) for v in x[:n]))
            out[f"jacobian{n}"] = (lambda a, n=n: a.jacobian(n),
                                   lambda e, n=n: tuple(tuple(d(e, v, w) for w in x[:n]) for v in x[:n]))
        for i in range(3):
            for j in range(3):
                out[f"component{i}{j}"] = (lambda a, i=i, j=j: a.jacobian_component((i, j)), lambda e, i=i, j=j: d(e, x[i], x[j]))
    if len(shape) == 1 and shape[0] <= 3:
        out["div"] = (lambda a: a.div(), lambda e: tsum(d(q, v) for q, v in zip(e, x)))
    if shape == (3,):
        out["curl"] = (lambda a: a.curl(), lambda e: (d(e[2], x[1]) - d(e[1], x[2]), d(e[0], x[2]) - d(e[2], x[0]),
                                                      d(e[1], x[0]) - d(e[0], x[1])))
    elif len(shape) != 1 or shape[0] != 3:
        out["curl"] = (lambda a: a.curl(), UNDEF)
    if shape == () or len(shape) == 2:
        out["div"] = (lambda a: a.div(), UNDEF)
    if shape != ():
        out["grad"] = (lambda a: a.grad(2), UNDEF)
    return out


def ent(shape, other):
    e = entries(shape, "f")
    if other:
        # parameters and products, so that derivatives see more than one atom
        s = sympy.Symbol("s")
        e = mapv(lambda q: q * s ** 2 + sympy.Function("g")(X[1], X[0]) * X[2] - s, e)
    return e


def run_deriv(shape, form, name, other):
    e = ent(shape, other)
    a = func(e)
    if form == "basis":
        a = basis_class()(a)
    if form == "subbed":
        sw = (X[1] + X[2], X[0], X[2])
        a = basis_class()(a).subs(X, sw)
        e = mapv(lambda q: q.subs(dict(zip(X, sw)), simultaneous=True), e)
    call, want = deriv_cases(shape)[name]
    w = UNDEF if want is UNDEF else mapv(lambda q: q.doit(), want(e))
    try:
        got = value(call(a))
    except Exception as ex:
        return w is UNDEF, f"refused: {ex!r}"
    if w is UNDEF:
        return False, f"not defined, but returned {got}"
    return same(mapv(lambda q: S(q).doit(), got), w), f"{got}, expected {w}"


def derivs(R, shape):
    for form in ("function", "basis", "subbed"):
        for other in (False, True):
            for name in deriv_cases(shape):
                if form == "subbed" and not other and name == "diff3":
                    continue
                ok, text = run_deriv(shape, form, name, other)
                R.ok(f"{form}/{name}/{other:d}", ok, text, {"kind": "deriv", "shape": list(shape), "form": form, "name": name,
                                                            "other": other})


# ------------------------------------------------------------------ integrals
CELLS = [("interval", 1), ("interval", 2), ("interval", 3), ("triangle", 2), ("triangle", 3),
         ("quadrilateral", 2), ("quadrilateral", 3), ("tetrahedron", 3), ("hexahedron", 3), ("prism", 3), ("pyramid", 3)]


def setting(cell, gdim):
    v = [tuple(engine.sym(f"v{i}_{j}") for j in range(gdim)) for i in range(spec.TDIM[cell] + 1)]
    verts = spec.affine_vertices(cell, v)
    ax = [tuple(b - a for a, b in zip(v[0], w)) for w in v[1:]]
    g = sympy.expand(spec.gram_det(ax)) if len(ax) != gdim else sympy.expand(spec.det(ax))
    return v, verts, ax, [sympy.Ne(g, 0)]


def region_formula(limits):
    c = []
    for v, a, b in limits:
        c += [v >= a, v <= b]
    return sympy.And(*c)


def integral(R, cell, gdim, mode):
    from symfem import create_reference
    from symfem.functions import ScalarFunction

    v, verts, ax, pre = setting(cell, gdim)
    R.cover("pre", pre)
    td = spec.TDIM[cell]
    ts = tuple(sympy.Symbol(n, real=True) for n in ("t0", "t1", "t2"))
    vs, kw = X, {}
    if mode == "named":
        vs = sympy.symbols("u v w")
        dv = tuple(sympy.symbols("s0 s1 s2"))
        kw = {"vars": vs, "dummy_vars": dv}
    par = sympy.Symbol("par")
    f = sympy.Function("f")(*vs[:gdim], par)
    case = {"kind": "integral", "cell": cell, "gdim": gdim, "mode": mode}

    def run():
        g = ScalarFunction(f)
        if mode == "basis":
            g = basis_class()(g)
        with formal_integrals() as tab:
            r = create_reference(cell, verts)
            out = g.integral(r, **kw)
            assert isinstance(out, ScalarFunction), type(out)
            return tab.split(out.as_sympy())

    for k, p in enumerate(engine.explore(run, pre)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case])
            continue
        e, limits = p.value
        bound = [i[0] for i in limits]
        R.ok(f"path{k}/variables", len(bound) == td == len(set(bound)) and all(len(i) == 3 for i in limits), str(limits), case)
        apps = list(e.atoms(AppliedUndef))
        R.ok(f"path{k}/one-evaluation", len(apps) == 1, str(apps), case)
        if len(apps) != 1 or len(bound) != td:
            continue
        a = apps[0]
        R.ok(f"path{k}/parameter-kept", a.args[-1] == par, str(a), case)
        # the parametrisation: a permutation of the bound variables is the tuple of reference coordinates
        order = None
        for perm in _perms(bound):
            if all(smt.is_zero(a.args[j] - v[0][j] - sum(t * x[j] for t, x in zip(perm, ax))) for j in range(gdim)):
                order = perm
                break
        if order is None:
            R.undecided(f"path{k}/parametrisation", f"{a}", [case])
            continue
        R.ok(f"path{k}/parametrisation", True)
        ren = {o: t for o, t in zip(order, ts)}
        lim = [tuple(S(c).xreplace(ren) for c in i) for i in limits]
        # iterated limits: bounds only mention variables integrated later, and describe exactly the cell
        okorder = all(not (S(b).free_symbols & {j[0] for j in lim[:n + 1]}) for n, i in enumerate(lim) for b in i[1:])
        R.ok(f"path{k}/limits-well-formed", okorder, str(limits), case)
        want = spec.cell_condition(cell, ts[:td])
        reg = region_formula(lim)
        R.implies(f"path{k}/region-in-cell", [reg], want, lambda m: case)
        R.implies(f"path{k}/cell-in-region", [want], reg, lambda m: case)
        # orientation: every lower limit is below its upper limit inside the outer limits
        for n, i in enumerate(lim):
            R.implies(f"path{k}/oriented{n}", [region_formula(lim[n + 1:])], i[1] <= i[2], lambda m: case)
        A = sympy.Dummy("A")
        e = e.xreplace({a: A})
        factor = e.subs(A, 1)
        R.zero(f"path{k}/linear", e - factor * A, (), lambda m: case)
        R.ok(f"path{k}/constant-measure", not (factor.free_symbols & set(bound)), str(factor), case)
        g = spec.gram_det(ax)
        if td == gdim:
            R.zero(f"path{k}/measure", factor - sympy.Abs(spec.det(ax)), p.pc, lambda m: case)
        else:
            R.zero(f"path{k}/measure", factor - sympy.sqrt(sympy.expand(g)), p.pc, lambda m: case)


def _perms(b):
    from itertools import permutations

    return permutations(b)


def at_point(R, gdim):
    from symfem import create_reference
    from symfem.functions import ScalarFunction

    v = tuple(engine.sym(f"v{j}") for j in range(gdim))
    f = sympy.Function("f")(*X[:gdim], sympy.Symbol("par"))
    for k, p in enumerate(engine.explore(lambda: ScalarFunction(f).integral(create_reference("point", (v,))))):
        case = {"kind": "point", "gdim": gdim}
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case])
            continue
        R.ok(f"path{k}/kind", isinstance(p.value, ScalarFunction), type(p.value), case)
        R.ok(f"path{k}/value", value(p.value) == f.subs(dict(zip(X, v)), simultaneous=True), str(p.value), case)


def plain_integrate(R):
    from symfem.functions import ScalarFunction

    x, y, z = X
    for n, limits in enumerate([((x, 0, 1),), ((x, 0, 1 - y), (y, 0, 1)), ((x, y, z),), ((z, x, 2 * y), (y, 0, x), (x, -1, 3))]):
        f = fn("f")
        with formal_integrals() as tab:
            r = ScalarFunction(f).integrate(*limits)
            e, lim = tab.split(r.as_sympy())
        R.ok(f"{n}", e == f and list(map(tuple, lim)) == [tuple(map(S, i)) for i in limits] or
             list(lim) == list(limits), f"{e} {lim}")


# bounded: polynomials through sympy's integration
def run_poly(cell, gdim, verts, e, mode):
    from symfem import create_reference
    from symfem.functions import ScalarFunction

    r = create_reference(cell, verts)
    f = ScalarFunction(e)
    kw = {}
    if mode == "named":
        vs = sympy.symbols("u v w")
        f = ScalarFunction(S(e).subs(dict(zip(X, vs)), simultaneous=True))
        kw = {"vars": vs, "dummy_vars": sympy.symbols("s0 s1 s2")}
    if mode == "basis":
        f = basis_class()(f)
    got = value(f.integral(r, **kw))
    want = spec.integrate_on(cell, verts, e)
    return sympy.simplify(got - want) == 0, f"integral of {e} over {cell} {verts}: {got}, expected {want}"


def random_cell(cell, gdim, rng):
    while True:
        v = [tuple(S(rng.randint(-3, 3)) for _ in range(gdim)) for _ in range(spec.TDIM[cell] + 1)]
        ax = [tuple(b - a for a, b in zip(v[0], w)) for w in v[1:]]
        if spec.gram_det(ax) != 0:
            return spec.affine_vertices(cell, v)


def random_poly(gdim, rng, deg=3):
    e = S(0)
    for _ in range(4):
        m = S(rng.randint(-4, 4))
        for _ in range(rng.randint(0, deg)):
            m *= X[rng.randrange(gdim)]
        e += m
    return e + rng.randint(1, 3) * X[gdim - 1]


def polys(R, cell, gdim, n):
    rng = random.Random(f"{env.SEED}:{cell}{gdim}")
    for i in range(n):
        verts = random_cell(cell, gdim, rng)
        e = random_poly(gdim, rng)
        for mode in ("plain", "named", "basis"):
            ok, text = run_poly(cell, gdim, verts, e, mode)
            R.bounded(f"{i}/{mode}", ok, text, {"kind": "poly", "cell": cell, "gdim": gdim, "mode": mode, "e": str(e),
                                                "v": [[str(c) for c in q] for q in verts]})


def units(tier):
    u = []
    for s in ((), (1,), (2,), (3,), (4,), (2, 2), (2, 3), (3, 3)):
        u.append((f"derivatives/{'x'.join(map(str, s)) or 'scalar'}", derivs, s))
    for c, g in CELLS:
        for mode in ("plain", "named", "basis"):
            u.append((f"integral/{c}{g}/{mode}", integral, c, g, mode))
        u.append((f"polynomials/{c}{g}", polys, c, g, 3 if tier == "quick" else 25))
    for g in (0, 1, 2, 3):
        u.append((f"point/{g}", at_point, g))
    u.append(("integrate", plain_integrate))
    return u


def replay(c):
    k = c["kind"]
    if k == "deriv":
        ok, text = run_deriv(tuple(c["shape"]), c["form"], c["name"], c["other"])
        return not ok, f"{c['name']} of {c['form']}{tuple(c['shape'])}: {text}"
    if k == "poly":
        ok, text = run_poly(c["cell"], c["gdim"], spec.parse(c["v"]), sympy.sympify(c["e"]), c["mode"])
        return not ok, text
    if k == "point":
        from symfem import create_reference
        from symfem.functions import ScalarFunction

        v = tuple(S(i + 2) for i in range(c["gdim"]))
        e = X[0] ** 2 + 3 * X[1] + 5 * X[2]
        try:
            got = ScalarFunction(e).integral(create_reference("point", (v,)))
            ok = isinstance(got, ScalarFunction) and sympy.expand(value(got) - e.subs(dict(zip(X, v)))) == 0
        except Exception as ex:
            ok, got = False, repr(ex)
        return not ok, f"integral over the point {v}: {got}"
    rng = random.Random(1)
    for _ in range(8):
        verts = random_cell(c["cell"], c["gdim"], rng)
        e = random_poly(c["gdim"], rng)
        try:
            ok, text = run_poly(c["cell"], c["gdim"], verts, e, c["mode"])
        except Exception as ex:
            ok, text = False, f"{c['cell']} {verts}: {ex!r}"
        if not ok:
            return True, text
    return False, "as specified"
