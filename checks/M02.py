"""M02: push-forward maps."""
from pyvc import env  # noqa: F401
import random

import sympy
from sympy.core.function import AppliedUndef

from pyvc import engine, smt, spec
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Every map in symfem.mappings is executed on uninterpreted functions and a symbolic affine map (all real coefficients, "
              "cells of dimension 1 to 3 and cells embedded in a higher dimension); the defining identities are discharged "
              "exactly. Trusted: sympy differentiation and substitution, the ring normaliser.")
TRUSTED = ["the embedding of values: f(p) for the inverse image p is replaced by one symbol per component once its arguments are proved equal to p"]
ASSUMPTIONS = ["the cell is affine and non-degenerate (symfem has no inverse map for other cells)"]

DIMS = [(1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3)]
S = sympy.S


def setting(tdim, gdim, A=None, b=None):
    """A (gdim x tdim), forward map and its (left) inverse on the image."""
    if A is None:
        A = sympy.Matrix(gdim, tdim, lambda i, j: engine.sym(f"a{i}{j}"))
        b = sympy.Matrix(gdim, 1, lambda i, j: engine.sym(f"b{i}"))
    xt = sympy.Matrix(X[:tdim])
    xg = sympy.Matrix(X[:gdim])
    fwd = tuple(A * xt + b)
    if tdim == gdim:
        pinv = A.adjugate() / A.det()
        pre = [sympy.Ne(sympy.expand(A.det()), 0)]
    else:
        G = (A.T * A)
        pinv = G.adjugate() / G.det() * A.T
        pre = [sympy.Ne(sympy.expand(G.det()), 0)]
    inv = tuple(sympy.S(i) for i in pinv * (xg - b))
    return A, fwd, inv, pinv, pre


def scale(A):
    """Factor by which the map scales volume, and its square."""
    if A.rows == A.cols:
        d = A.det()
        return sympy.Abs(d), d ** 2
    g = sympy.expand((A.T * A).det())
    return sympy.sqrt(g), g


def generic(shape, n, name="f"):
    if shape == ():
        return sympy.Function(name)(*X[:n])
    if len(shape) == 1:
        return tuple(sympy.Function(f"{name}{i}")(*X[:n]) for i in range(shape[0]))
    return tuple(tuple(sympy.Function(f"{name}{i}{j}")(*X[:n]) for j in range(shape[1])) for i in range(shape[0]))


def flat(v):
    """Value of a symfem function as a sympy Matrix (column for vectors)."""
    v = v.as_sympy()
    if isinstance(v, tuple):
        return sympy.Matrix(v)
    if isinstance(v, sympy.MatrixBase):
        return sympy.Matrix(v)
    return sympy.Matrix([v])


def want_flat(v):
    if isinstance(v, tuple):
        return sympy.Matrix(v)
    return sympy.Matrix([v])


def lift(R, name, m, point, case):
    """Replace f_i(args) by the symbol F_i after proving args == point."""
    table = {}
    ok = True
    for q in sorted(m.atoms(AppliedUndef), key=str):
        good = len(q.args) == len(point) and all(smt.is_zero(a - p) for a, p in zip(q.args, point))
        ok = ok and good
        table[q] = sympy.Symbol("F" + str(q.func)[1:], real=True)
    R.ok(name + "/evaluated-at-the-inverse-image", ok, str(list(table)), case)
    return m.xreplace(table)


def symvals(shape):
    if shape == ():
        return sympy.Matrix([sympy.Symbol("F", real=True)])
    if len(shape) == 1:
        return sympy.Matrix([sympy.Symbol(f"F{i}", real=True) for i in range(shape[0])])
    return sympy.Matrix(shape[0], shape[1], lambda i, j: sympy.Symbol(f"F{i}{j}", real=True))


KIND = {"identity": (), "l2": (), "covariant": (1,), "contravariant": (1,), "double_covariant": (2,),
        "double_contravariant": (2,)}


def post(name, A, pinv, u, F):
    """Obligations (label, expression that must vanish) for the value u and reference value F."""
    sc, sc2 = scale(A)
    out = []

    def mat(label, m):
        for i in range(m.rows):
            for j in range(m.cols):
                out.append((f"{label}{i}{j}", m[i, j]))

    # inside the tangent space of the cell
    P = A * pinv
    proj = P - sympy.eye(A.rows)
    if name in ("identity", "identity_inverse_transpose"):
        mat("value", u - F)
    elif name == "l2":
        mat("integral", u * sc - F)
    elif name == "l2_inverse_transpose":
        mat("dual-integral", u - sc * F)
    elif name == "covariant":
        mat("tangential", A.T * u - F)
        if A.rows != A.cols:
            mat("in-tangent-space", proj * u)
    elif name == "contravariant":
        if A.rows == A.cols:
            mat("flux", A.adjugate() * u - F)  # u.(cof n) = f.n
        else:
            mat("flux", sc * u - A * F)
    elif name == "covariant_inverse_transpose":
        mat("dual", u - A * F)
    elif name == "contravariant_inverse_transpose":
        # (A/det)^-T
        if A.rows == A.cols:
            mat("dual", A.T * u - A.det() * F)
        else:
            mat("dual", A.T * u - sc * F)
            mat("in-tangent-space", proj * u)
    elif name == "double_covariant":
        mat("tangent-tangent", A.T * u * A - F)
        if A.rows != A.cols:
            mat("in-tangent-space", proj * u)
            mat("in-tangent-space'", u * proj.T)
    elif name == "double_contravariant":
        if A.rows == A.cols:
            mat("normal-normal", A.adjugate() * u * A.adjugate().T - F)
        else:
            mat("normal-normal", sc2 * u - A * F * A.T)
    return out


def shape_of(name, tdim):
    k = KIND[name.replace("_inverse_transpose", "")]
    return (tdim,) * (k[0] if k else 0)


def inputs(shape, n):
    """The same function in every form a caller may use."""
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction

    g = generic(shape, n)
    out = [("plain", g)]
    if shape == ():
        out.append(("function", ScalarFunction(g)))
    elif len(shape) == 1:
        out += [("function", VectorFunction(g)), ("list", list(g))]
    else:
        out += [("function", MatrixFunction(g)), ("list", [list(r) for r in g])]
    return out


def curve_refused(name, A, exc):
    """Maps that need a volume scaling refuse curves in two and three dimensions."""
    return A.cols == 1 < A.rows and isinstance(exc, ValueError) and "determinant" in str(exc)


def push(R, name, tdim, gdim):
    from symfem import mappings

    A, fwd, inv, pinv, pre = setting(tdim, gdim)
    R.cover("pre", pre)
    shape = shape_of(name, tdim)
    F = symvals(shape)
    case = lambda m: {"kind": "push", "name": name, "tdim": tdim, "gdim": gdim, "m": {k: str(v) for k, v in m.items()}}  # noqa: E731
    for form, f in inputs(shape, tdim):
        for substitute in (True, False):
            label = f"{form}-{'at-image' if substitute else 'unsubstituted'}"
            for k, p in enumerate(engine.explore(lambda: getattr(mappings, name)(f, fwd, inv, *(
                    [] if substitute else [False])), pre)):
                if p.exc is not None and curve_refused(name, A, p.exc):
                    R.ok(f"{label}/path{k}/refused", True)
                    continue
                if p.exc is not None:
                    R.undecided(f"{label}/path{k}/returns", repr(p.exc), [case({})])
                    continue
                u = flat(p.value)
                u = lift(R, f"{label}/path{k}", u, inv if substitute else X[:tdim], case({}))
                rows = 1 if shape == () else gdim
                cols = gdim if len(shape) == 2 else 1
                R.ok(f"{label}/path{k}/shape", u.shape == (rows, cols), str(u.shape), case({}))
                if u.shape != (rows, cols):
                    continue
                for lab, e in post(name, A, pinv, u, F):
                    R.zero(f"{label}/path{k}/{lab}", e, p.pc, case)


def nonlinear(R, dim):
    """The identity map composes with any (not only affine) inverse map."""
    from symfem import mappings

    ks = [sympy.Function(f"k{i}")(*X[:dim]) for i in range(dim)]
    f = generic((), dim)
    for name in ("identity", "identity_inverse_transpose"):
        for k, p in enumerate(engine.explore(lambda: getattr(mappings, name)(f, X[:dim], tuple(ks)))):
            R.ok(f"{name}/path{k}", p.exc is None and p.value.as_sympy() == sympy.Function("f")(*ks), str(p.exc or p.value),
                 {"kind": "nonlinear", "name": name, "dim": dim})


def roundtrip(R, name, tdim, gdim):
    """Mapping and mapping back is the identity, for every function."""
    from symfem import mappings

    A, fwd, inv, pinv, pre = setting(tdim, gdim)
    shape = shape_of(name, tdim)
    f = generic(shape, tdim)
    F = symvals(shape)
    case = lambda m: {"kind": "roundtrip", "name": name, "tdim": tdim, "gdim": gdim, "m": {k: str(v) for k, v in m.items()}}  # noqa: E731

    def run():
        there = getattr(mappings, name)(f, fwd, inv)
        return getattr(mappings, name + "_inverse")(there, fwd, inv)

    for k, p in enumerate(engine.explore(run, pre)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case({})])
            continue
        u = lift(R, f"path{k}", flat(p.value), X[:tdim], case({}))
        R.ok(f"path{k}/shape", u.shape == F.shape, str(u.shape), case({}))
        if u.shape != F.shape:
            continue
        for i in range(F.rows):
            for j in range(F.cols):
                R.zero(f"path{k}/{i}{j}", u[i, j] - F[i, j], p.pc, case)


def inverse(R, name, dim):
    """f_inverse(g) is the g' with f(g') = g: f(f_inverse(g)) = g."""
    from symfem import mappings

    A, fwd, inv, pinv, pre = setting(dim, dim)
    shape = shape_of(name, dim)
    g = generic(shape, dim)
    F = symvals(shape)
    case = lambda m: {"kind": "inverse", "name": name, "tdim": dim, "gdim": dim, "m": {k: str(v) for k, v in m.items()}}  # noqa: E731

    def run():
        return getattr(mappings, name)(getattr(mappings, name + "_inverse")(g, fwd, inv), fwd, inv)

    for k, p in enumerate(engine.explore(run, pre)):
        if p.exc is not None:
            R.undecided(f"path{k}/returns", repr(p.exc), [case({})])
            continue
        u = lift(R, f"path{k}", flat(p.value), X[:dim], case({}))
        R.ok(f"path{k}/shape", u.shape == F.shape, str(u.shape), case({}))
        if u.shape == F.shape:
            for i in range(F.rows):
                for j in range(F.cols):
                    R.zero(f"path{k}/{i}{j}", u[i, j] - F[i, j], p.pc, case)


ALL = ["identity", "l2", "covariant", "contravariant", "double_covariant", "double_contravariant"]
TR = ["identity_inverse_transpose", "l2_inverse_transpose", "covariant_inverse_transpose",
      "contravariant_inverse_transpose"]


def lookup(R):
    """get_mapping returns the map of that name, and refuses names that do not exist."""
    from symfem import mappings

    for n in ALL:
        for inverse in (False, True):
            for transpose in (False, True):
                full = n + ("_inverse" if inverse else "") + ("_transpose" if transpose else "")
                exists = full in ALL + TR + [i + "_inverse" for i in ALL]
                try:
                    got = mappings.get_mapping(n, inverse=inverse, transpose=transpose)
                except ValueError:
                    got = None
                c = {"kind": "lookup", "name": n, "inverse": inverse, "transpose": transpose}
                R.ok(f"{full}", got is (getattr(mappings, full) if exists else None), str(got), c)
    for n in ("nonsense", "", "Identity", "contravarian"):
        try:
            got = mappings.get_mapping(n)
        except ValueError:
            got = None
        R.ok(f"refuses-{n}", got is None, str(got), {"kind": "lookup", "name": n, "inverse": False, "transpose": False})


def refuses(R, name):
    """Functions of the wrong value kind are refused."""
    from symfem import mappings

    A, fwd, inv, pinv, pre = setting(2, 2)
    k = len(shape_of(name, 2))
    for shape in ((), (2,), (2, 2)):
        if len(shape) == k:
            continue
        try:
            v = getattr(mappings, name)(generic(shape, 2), fwd, inv)
        except Exception:
            v = None
        R.ok(f"{len(shape)}", v is None, f"returned {v}", {"kind": "refuses", "name": name, "shape": list(shape)})


def reference_maps(R, cell, gdim):
    """Maps computed by the cell classes drive the same postconditions (caller side)."""
    from symfem import create_reference, mappings

    d = spec.TDIM[cell]
    v = [tuple(engine.sym(f"v{i}{j}") for j in range(gdim)) for i in range(d + 1)]
    verts = spec.affine_vertices(cell, v)
    A = sympy.Matrix(gdim, d, lambda i, j: v[j + 1][i] - v[0][i])
    g = sympy.expand((A.T * A).det() if gdim != d else A.det())
    pre = [sympy.Ne(g, 0)]
    R.cover("pre", pre)
    for name in ("covariant", "contravariant"):
        f = generic((d,), d)
        F = symvals((d,))

        def run():
            r = create_reference(cell, verts)
            fwd, inv = r.get_map_to_self(), r.get_inverse_map_to_self()
            return getattr(mappings, name)(f, fwd, inv, substitute=False)

        case = {"kind": "refmap", "name": name, "cell": cell, "gdim": gdim}
        for k, p in enumerate(engine.explore(run, pre)):
            if p.exc is not None and curve_refused(name, A, p.exc):
                R.ok(f"{name}/path{k}/refused", True)
                continue
            if p.exc is not None:
                R.undecided(f"{name}/path{k}/returns", repr(p.exc), [case])
                continue
            u = lift(R, f"{name}/path{k}", flat(p.value), X[:d], case)
            R.ok(f"{name}/path{k}/shape", u.shape == (gdim, 1), str(u.shape), case)
            if u.shape != (gdim, 1):
                continue
            pinv = A.adjugate() / A.det() if gdim == d else (A.T * A).adjugate() / (A.T * A).det() * A.T
            for lab, e in post(name, A, pinv, u, F):
                R.zero(f"{name}/path{k}/{lab}", e, p.pc, lambda m: case)


def units(tier):
    u = [("lookup", lookup)]
    for tdim, gdim in DIMS:
        for n in ALL + TR:
            u.append((f"push/{n}/{tdim}{gdim}", push, n, tdim, gdim))
        for n in ALL:
            if tdim == gdim or n in ("identity", "covariant", "double_covariant"):
                u.append((f"roundtrip/{n}/{tdim}{gdim}", roundtrip, n, tdim, gdim))
            if tdim == gdim:
                u.append((f"inverse/{n}/{tdim}{gdim}", inverse, n, tdim))
    for n in ALL + TR:
        if n not in ("identity", "l2", "identity_inverse_transpose", "l2_inverse_transpose"):
            u.append((f"refuses/{n}", refuses, n))
    for d in (1, 2, 3):
        u.append((f"nonlinear/{d}", nonlinear, d))
    for c, g in (("interval", 1), ("interval", 2), ("interval", 3), ("triangle", 2), ("triangle", 3),
                 ("quadrilateral", 2), ("quadrilateral", 3), ("tetrahedron", 3), ("hexahedron", 3), ("prism", 3),
                 ("pyramid", 3)):
        u.append((f"cell-maps/{c}{g}", reference_maps, c, g))
    return u


# ------------------------------------------------------------------ replay
def concrete(shape, n, rng):
    def poly():
        return sum(rng.randint(-3, 3) * q for q in (1, *X[:n], X[0] ** 2, X[0] * X[n - 1])) + rng.randint(1, 3) * X[n - 1]

    if shape == ():
        return S(poly())
    if len(shape) == 1:
        return tuple(S(poly()) for _ in range(shape[0]))
    return tuple(tuple(S(poly()) for _ in range(shape[1])) for _ in range(shape[0]))


def replay(case):
    from symfem import mappings

    k = case["kind"]
    name = case["name"]
    rng = random.Random(0)
    if k == "lookup":
        full = name + ("_inverse" if case["inverse"] else "") + ("_transpose" if case["transpose"] else "")
        exists = full in ALL + TR + [i + "_inverse" for i in ALL]
        try:
            got = mappings.get_mapping(name, inverse=case["inverse"], transpose=case["transpose"])
        except ValueError:
            got = None
        return got is not (getattr(mappings, full) if exists else None), f"get_mapping({name}, {case['inverse']}, {case['transpose']}) = {got}"
    if k == "refuses":
        A, fwd, inv, pinv, _ = setting(2, 2, sympy.Matrix([[2, 1], [0, 1]]), sympy.Matrix([1, 0]))
        f = concrete(tuple(case["shape"]), 2, rng)
        try:
            v = getattr(mappings, name)(f, fwd, inv)
        except Exception:
            return False, "refused"
        return True, f"{name}({f}) returned {v}"
    if k == "nonlinear":
        inv = tuple(X[i] ** 2 + X[0] for i in range(case["dim"]))
        f = concrete((), case["dim"], rng)
        got = getattr(mappings, name)(f, X[:case["dim"]], inv).as_sympy()
        e = sympy.expand(got - f.subs(dict(zip(X, inv)), simultaneous=True))
        return e != 0, f"{name}({f}) with {inv}: {got}, off by {e}"
    if k == "refmap":
        return False, "no concrete case"
    tdim, gdim = case["tdim"], case["gdim"]
    bad = None
    for attempt in range(6):
        m = case["m"] if attempt == 0 else {}
        A = sympy.Matrix(gdim, tdim, lambda i, j: S(m.get(f"a{i}{j}", rng.randint(-3, 3))))
        b = sympy.Matrix(gdim, 1, lambda i, j: S(m.get(f"b{i}", rng.randint(-3, 3))))
        if (A.T * A).det() == 0:
            continue
        A, fwd, inv, pinv, _ = setting(tdim, gdim, A, b)
        shape = shape_of(name, tdim)
        f = concrete(shape, tdim, rng)
        at = dict(zip(X, inv))
        for substitute in (True, False):
            try:
                if k == "push":
                    v = getattr(mappings, name)(f, fwd, inv, substitute)
                    u = flat(v)
                    F = want_flat(f)
                    if substitute:
                        F = F.applyfunc(lambda e: e.subs(at, simultaneous=True))
                    rows, cols = (1 if shape == () else gdim), (gdim if len(shape) == 2 else 1)
                    if u.shape != (rows, cols):
                        return True, f"{name}({f}) for A={A.tolist()} has shape {u.shape}"
                    es = [e for _, e in post(name, A, pinv, u, F)]
                elif k == "roundtrip":
                    v = getattr(mappings, name + "_inverse")(getattr(mappings, name)(f, fwd, inv), fwd, inv)
                    es = list(flat(v) - want_flat(f)) if flat(v).shape == want_flat(f).shape else [1]
                else:
                    v = getattr(mappings, name)(getattr(mappings, name + "_inverse")(f, fwd, inv), fwd, inv)
                    es = list(flat(v) - want_flat(f)) if flat(v).shape == want_flat(f).shape else [1]
            except Exception as e:
                return True, f"{name}({f}) for A={A.tolist()}: {e!r}"
            if any(sympy.simplify(sympy.expand(e)) != 0 for e in es):
                bad = f"{k} {name}(f, substitute={substitute}) with f={f}, A={A.tolist()}, b={list(b)}: got {v}"
                return True, bad
    return False, "as specified on all attempts"
