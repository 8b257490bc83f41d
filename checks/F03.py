"""F03: piecewise functions behave piece by piece."""
from pyvc import env  # noqa: F401
import random

import sympy

from checks.F01 import OPS, UNDEF, basis_class, func, mapv, same, semantics, sub, tsum, value
from pyvc import engine, smt, spec
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Every operation runs on piecewise functions whose pieces hold uninterpreted functions and its result is proved, piece by piece, to be the "
              "operation on that piece; integration is proved modularly (contracts of integral and intersection) and map_pieces for a symbolic map. "
              "One to three pieces of every supported kind; a bounded run integrates polynomials over real macro cells.")
TRUSTED = ["contract of Reference.intersection (property G01) and of ScalarFunction.integral (property F02) where integration is verified modularly"]
ASSUMPTIONS = ["one to three pieces; value shapes up to length 4 / 3x3"]
BOUNDS = "one to three pieces; vector lengths 1-4, matrix shapes up to 3x3; bounded: polynomials up to degree 3 on five macro cells"
S = sympy.S
h = S(1) / 2

# name -> (tdim, pieces)
PIECES = {
    "interval": (1, [((0,), (h,)), ((h,), (1,))]),
    "interval3": (1, [((0,), (h / 2,)), ((h,), (1,)), ((h / 2,), (h,))]),
    "one": (2, [((0, 0), (1, 0), (0, 1))]),
    "triangles": (2, [((0, 0), (1, 0), (0, 1)), ((1, 1), (1, 0), (0, 1))]),
    "mixed": (2, [((0, 0), (h, 0), (0, 1), (h, 1)), ((h, 0), (1, 0), (h, 1)), ((1, 1), (1, 0), (h, 1))]),
    "tets": (3, [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1))]),
}
SHAPES = [(), (1,), (2,), (3,), (4,), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3)]


def ent(shape, name):
    fn = lambda n: sympy.Function(n)(*X)  # noqa: E731
    if shape == ():
        return fn(name)
    if len(shape) == 1:
        return tuple(fn(f"{name}{i}") for i in range(shape[0]))
    return tuple(tuple(fn(f"{name}{i}{j}") for j in range(shape[1])) for i in range(shape[0]))


def pw(which, shape, name):
    """A piecewise function and the values on its pieces."""
    from symfem.piecewise_functions import PiecewiseFunction

    tdim, pieces = PIECES[which]
    vals = [ent(shape, f"{name}p{k}_") for k in range(len(pieces))]
    return PiecewiseFunction({p: func(v) for p, v in zip(pieces, vals)}, tdim), vals


def operand(which, shape, form, name):
    """(operand, its value on each piece)."""
    n = len(PIECES[which][1])
    if form == "piecewise":
        return pw(which, shape, name)
    if form == "basis":  # a basis function whose function is piecewise
        p, v = pw(which, shape, name)
        return basis_class()(p), v
    e = ent(shape, name)
    if form == "int":
        return 3, [S(3)] * n
    if form == "function":
        return func(e), [e] * n
    return e, [e] * n


def key(shape):
    return tuple(tuple(S(c) for c in p) for p in shape)


def on_piece(f, k):
    """The value on piece k (a piece may itself be piecewise: what counts is its value there)."""
    from symfem.piecewise_functions import PiecewiseFunction

    while isinstance(f, PiecewiseFunction):
        f = {key(s): g for s, g in f.pieces.items()}[k]
    return value(f)


def pieces_of(r):
    return {key(shape): on_piece(f, key(shape)) for shape, f in r.pieces.items()}


def piecewise_is(r, which, want):
    """r is piecewise on the same pieces with the wanted values."""
    from symfem.basis_functions import BasisFunction
    from symfem.piecewise_functions import PiecewiseFunction

    if isinstance(r, BasisFunction):
        r = r.get_function()
    if len(want) == 1 and not isinstance(r, PiecewiseFunction):  # one piece: the function on it
        return same(value(r), want[0]), f"{r}"
    if not isinstance(r, PiecewiseFunction):
        return False, f"a {type(r).__name__}, not piecewise"
    tdim, pieces = PIECES[which]
    got = pieces_of(r)
    keys = [tuple(tuple(S(c) for c in p) for p in s) for s in pieces]
    if r.tdim != tdim or list(got) != keys:
        return False, f"pieces {list(got)}, tdim {r.tdim}"
    for k, w in zip(keys, want):
        if not same(got[k], w):
            return False, f"{got[k]} on {k}, expected {w}"
    d = {2: r.is_matrix, 1: r.is_vector, 0: r.is_scalar}
    w = want[0]
    rank = 0 if not isinstance(w, tuple) else 2 if isinstance(w[0], tuple) else 1
    if not d[rank] or sum(d.values()) != 1:
        return False, "kind of the result"
    return True, ""


def required(op, sa, fa, sb, fb):
    if op == "**":
        return fa == "piecewise" and fb != "basis"
    if "basis" in (fa, fb):
        return False
    if op in ("dot", "cross") and (fa != "piecewise" or fb == "plain" and op == "cross"):
        return op == "dot" and fb == "piecewise" and fa == "function"
    if op == "@":
        return {fa, fb} <= {"piecewise", "function"}
    if op == "*" and len(sb) and (fa == "piecewise" and fb == "piecewise" or not library(fb)):
        return fb == "piecewise" and fa == "piecewise" and sa == ()
    if op in ("+", "-") and fb == "plain" or fa == "plain":
        return op in ("+", "-") and len(sa) < 2
    return True


def library(form):
    return form in ("piecewise", "basis", "function")


REFLECTED = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__", "**": "__rpow__", "@": "__rmatmul__"}


def run_op(which, op, sa, fa, sb, fb, direct=False):
    """direct: the reflected method of the second operand is called itself (it may refuse, but not be wrong)."""
    a, va = operand(which, sa, fa, "f")
    b, vb = operand(which, sb, fb, "g")
    want = [semantics(op, p, sa, q, sb) for p, q in zip(va, vb)]
    try:
        got = getattr(b, REFLECTED[op])(a) if direct else OPS[op](a, b)
        if got is NotImplemented:
            raise TypeError("NotImplemented")
    except Exception as e:
        if direct or want[0] is UNDEF or not required(op, sa, fa, sb, fb):
            return True, "refused", False
        return False, f"refused: {e!r}", False
    if want[0] is UNDEF:
        return False, f"not defined, but returned {got!r}", True
    ok, text = piecewise_is(got, which, want)
    return ok, text, True


def binary(R, which, op):
    n = 0
    for sa in SHAPES:
        for fa in ("piecewise", "basis", "function", "plain") + (("int",) if sa == () else ()):
            for sb in SHAPES:
                for fb in ("piecewise", "basis", "function", "plain") + (("int",) if sb == () else ()):
                    if "piecewise" not in (fa, fb) and not ("basis" in (fa, fb) and "function" in (fa, fb)):
                        continue
                    if op in ("dot", "cross") and not library(fa):
                        continue
                    ok, text, ret = run_op(which, op, sa, fa, sb, fb)
                    n += ret
                    R.ok(f"{list(sa)}{fa},{list(sb)}{fb}", ok, f"{fa}{sa} {op} {fb}{sb}: {text}",
                         {"kind": "binary", "which": which, "op": op, "sa": list(sa), "fa": fa, "sb": list(sb), "fb": fb})
                    if op in REFLECTED and fb == "piecewise":
                        ok, text, _ = run_op(which, op, sa, fa, sb, fb, True)
                        R.ok(f"{list(sa)}{fa},{list(sb)}{fb}/reflected", ok, f"{REFLECTED[op]}: {fa}{sa} {op} {fb}{sb}: {text}",
                             {"kind": "binary", "which": which, "op": op, "sa": list(sa), "fa": fa, "sb": list(sb), "fb": fb, "direct": True})
    R.ok("not-vacuous", n > 0)


# ------------------------------------------------------------------ refusals
def other_pieces(which):
    tdim, p = PIECES[which]
    out = {"other": [tuple(tuple(c + 1 for c in v) for v in s) for s in p], "fewer": p[:-1], "more": p + [tuple(tuple(c + 5 for c in v) for v in p[0])],
           "last-differs": p[:-1] + [tuple(tuple(c * 2 for c in v) for v in p[-1])],
           "reordered-vertices": [s[::-1] for s in p]}
    return {k: v for k, v in out.items() if v}


def run_refuse(which, op, name, shapes):
    from symfem.piecewise_functions import PiecewiseFunction

    tdim = PIECES[which][0]
    sa, sb = shapes
    a, _ = pw(which, sa, "f")
    b = PiecewiseFunction({p: func(ent(sb, f"g{k}_")) for k, p in enumerate(other_pieces(which)[name])}, tdim)
    for u, v in ((a, b), (b, a)):
        if op == "==":
            try:
                if bool(u == v):
                    return False, "equal although the pieces differ"
            except Exception:
                pass
            continue
        try:
            got = OPS[op](u, v)
        except Exception:
            continue
        return False, f"combined pieces {list(u.pieces)} and {list(v.pieces)} into {list(got.pieces)}"
    return True, "refused"


GOOD = {"+": ((), ()), "-": ((2,), (2,)), "*": ((), (2,)), "/": ((), ()), "**": ((), ()), "@": ((2, 2), (2, 2)), "dot": ((2,), (2,)),
        "cross": ((3,), (3,)), "==": ((), ())}


def refuse(R, which):
    for op, shapes in GOOD.items():
        for nm in other_pieces(which):
            ok, text = run_refuse(which, op, nm, shapes)
            R.ok(f"{op}/{nm}", ok, text, {"kind": "refuse", "which": which, "op": op, "name": nm})


def run_permuted(which, op):
    """The same pieces in another order: the right answer, or a refusal."""
    from symfem.piecewise_functions import PiecewiseFunction

    tdim, pieces = PIECES[which]
    sa, sb = GOOD[op]
    a, va = pw(which, sa, "f")
    vb = [ent(sb, f"g{k}_") for k in range(len(pieces))]
    b = PiecewiseFunction(dict(reversed([(p, func(v)) for p, v in zip(pieces, vb)])), tdim)
    try:
        got = OPS[op](a, b)
    except Exception:
        return True, "refused"
    return piecewise_is(got, which, [semantics(op, p, sa, q, sb) for p, q in zip(va, vb)])


def permuted(R, which):
    for op in OPS:
        ok, text = run_permuted(which, op)
        R.ok(op, ok, text, {"kind": "permuted", "which": which, "op": op})


# ------------------------------------------------------------------ unary
def cases(shape, which):
    x = X
    d = lambda e, *v: sympy.diff(e, *v)  # noqa: E731
    td = PIECES[which][0]
    out = {"neg": (lambda a: -a, lambda e: mapv(lambda q: -q, e))}
    for i in range(3):
        out[f"diff{i}"] = (lambda a, i=i: a.diff(x[i]), lambda e, i=i: mapv(lambda q: d(q, x[i]), e))
    if shape == ():
        dirs = tuple(sympy.Symbol(f"d{i}") for i in range(td))
        out["norm"] = (lambda a: a.norm(), lambda e: sympy.Abs(e))
        out["grad"] = (lambda a: a.grad(td), lambda e: tuple(d(e, v) for v in x[:td]))
        out["directional"] = (lambda a: a.directional_derivative(dirs), lambda e: tsum(c * d(e, v) for c, v in zip(dirs, x)))
        out["jacobian"] = (lambda a: a.jacobian(td), lambda e: tuple(tuple(d(e, v, w) for w in x[:td]) for v in x[:td]))
        out["component"] = (lambda a: a.jacobian_component((0, td - 1)), lambda e: d(e, x[0], x[td - 1]))
    if len(shape) == 1:
        out["norm"] = (lambda a: a.norm(), lambda e: sympy.sqrt(tsum(i ** 2 for i in e)))
        if shape[0] <= 3:
            out["div"] = (lambda a: a.div(), lambda e: tsum(d(q, v) for q, v in zip(e, x)))
        for i in range(-shape[0], shape[0]):
            out[f"getitem{i}"] = (lambda a, i=i: a[i], lambda e, i=i: e[i])
        out["slice"] = (lambda a: a[0:2], lambda e: e[0:2])
    if shape == (3,):
        out["curl"] = (lambda a: a.curl(), lambda e: (d(e[2], x[1]) - d(e[1], x[2]), d(e[0], x[2]) - d(e[2], x[0]), d(e[1], x[0]) - d(e[0], x[1])))
    if len(shape) == 2:
        r, c = shape
        out["transpose"] = (lambda a: a.transpose(), lambda e: tuple(tuple(e[i][j] for i in range(r)) for j in range(c)))
        if r == c == 2:
            out["det"] = (lambda a: a.det(), lambda e: e[0][0] * e[1][1] - e[0][1] * e[1][0])
        for i in range(r):
            out[f"row{i}"] = (lambda a, i=i: a[i], lambda e, i=i: e[i])
            out[f"getitem{i}{c - 1}"] = (lambda a, i=i: a[i, c - 1], lambda e, i=i: e[i][c - 1])
    p, q = sympy.symbols("p q")
    s = {"shift": (x, (x[0] + x[1], x[1] - x[2], x[2] + 1)), "swap": ((x[0], x[1]), (x[1], x[0])), "single": (x[0], x[1] ** 2),
         "symbols": (x, sympy.symbols("a b c")), "other": ((p, q), (h / 2, h / 2)), "number": (x[1], S(2)),
         "other1": ((p,), (h / 2,)), "other3": (sympy.symbols("p q r"), (h / 4, h / 4, h / 4))}
    for nm, (vs, vals) in s.items():
        def want(e, vs=vs, vals=vals):
            return sub(e, dict(zip(vs, vals)) if isinstance(vs, tuple) else {vs: vals})
        out["subs-" + nm] = (lambda a, vs=vs, vals=vals: a.subs(vs, vals), want)
    return out


def run_unary(which, shape, name):
    p, q, r = sympy.symbols("p q r")
    a, va = pw(which, shape, "f")
    if name.startswith("subs-other"):
        va = [mapv(lambda e: e * p + q - r * X[0], v) for v in va]
        from symfem.piecewise_functions import PiecewiseFunction

        a = PiecewiseFunction({s: func(v) for s, v in zip(PIECES[which][1], va)}, PIECES[which][0])
    call, want = cases(shape, which)[name]
    try:
        got = call(a)
    except Exception as e:
        return False, f"refused: {e!r}"
    ok, text = piecewise_is(got, which, [mapv(lambda e: e.doit() if hasattr(e, "doit") else e, want(v)) for v in va])
    if not ok:
        # derivatives that sympy left unevaluated
        try:
            ok = all(same(mapv(lambda e: S(e).doit(), g), mapv(lambda e: S(e).doit(), want(v))) for g, v in zip(pieces_of(got).values(), va)) \
                and list(pieces_of(got)) == [tuple(tuple(S(c) for c in p) for p in s) for s in PIECES[which][1]]
        except Exception:
            ok = False
    return ok, text


def unary(R, which, shape):
    for nm in cases(shape, which):
        ok, text = run_unary(which, shape, nm)
        R.ok(nm, ok, text, {"kind": "unary", "which": which, "shape": list(shape), "name": nm})
    ok, text = run_misc(which, shape)
    R.ok("shape-len-pieces", ok, text, {"kind": "misc", "which": which, "shape": list(shape)})


def run_misc(which, shape):
    a, va = pw(which, shape, "f")
    ok, text = piecewise_is(a, which, va)
    if not ok:
        return ok, text
    if shape and tuple(a.shape) != shape:
        return False, f"shape {a.shape}"
    if len(shape) == 1 and len(a) != shape[0]:
        return False, f"len {len(a)}"
    s = a.as_sympy()
    if len(va) == 1:
        return same(value(s), va[0]), f"as_sympy {s}"
    if not isinstance(s, dict) or len(s) != len(va):
        return False, f"as_sympy {s}"
    for (k, v), p, w in zip(s.items(), PIECES[which][1], va):
        if tuple(tuple(S(c) for c in i) for i in k) != tuple(tuple(S(c) for c in i) for i in p) or not same(value(v), w):
            return False, f"as_sympy {k}: {v}"
    return True, ""


# values at points: inside one piece, the value of that piece
def run_point(which, shape, k, form):
    tdim, pieces = PIECES[which]
    a, va = operand(which, shape, form, "f")
    n = len(pieces[k])
    w = [S(i + 1) for i in range(n)]
    pt = tuple(sum(c * S(v[j]) for c, v in zip(w, pieces[k])) / sum(w) for j in range(tdim))
    got = value(a.subs(X, pt))
    return same(got, sub(va[k], dict(zip(X, pt)))), f"at {pt}: {got}, expected the value of piece {k}"


def points(R, which):
    for shape in SHAPES[:4] + SHAPES[5:7]:
        for k in range(len(PIECES[which][1])):
            for form in ("piecewise", "basis"):
                ok, text = run_point(which, shape, k, form)
                R.ok(f"{list(shape)}/{k}/{form}", ok, text, {"kind": "point", "which": which, "shape": list(shape), "k": k, "form": form})


# ------------------------------------------------------------------ equality
def run_eq(which, shape, k, idx, form):
    """Functions that differ in one entry of one piece (k < 0: equal, but written differently)."""
    from symfem.piecewise_functions import PiecewiseFunction

    from checks.F01 import perturb, rewritten

    tdim, pieces = PIECES[which]
    a, va = pw(which, shape, "f")
    vb = list(va)
    if k < 0:
        vb = [mapv(rewritten, v) for v in va]
    else:
        vb[k] = perturb(va[k], idx)
    b = PiecewiseFunction({p: func(v) for p, v in zip(pieces, vb)}, tdim)
    if form == "basis":
        a = basis_class()(a)
    r = (bool(a == b), bool(a != b), bool(b == a))
    return r == (k < 0, k >= 0, k < 0), f"==, != and == the other way round: {r}"


def equality(R, which, shape):
    from checks.F01 import indices

    for form in ("piecewise", "basis"):
        todo = [(-1, ())] + [(k, i) for k in range(len(PIECES[which][1])) for i in indices(shape)]
        for k, i in todo:
            ok, text = run_eq(which, shape, k, i, form)
            R.ok(f"{form}/{k}/{list(i)}", ok, text, {"kind": "eq", "which": which, "shape": list(shape), "k": k, "idx": list(i), "form": form})


# ------------------------------------------------------------------ integrals, modularly
def run_integral(which, pattern, named):
    """Integral against the contracts of intersection and ScalarFunction.integral.

    pattern: for each piece, the label of its intersection with the domain (None where there is none)."""
    from symfem.functions import ScalarFunction
    from symfem.references import Reference

    a, va = pw(which, (), "f")
    calls = []
    tdim, pieces = PIECES[which]
    keys = [tuple(tuple(S(c) for c in p) for p in s) for s in pieces]
    domain = object()
    doms = {}
    vs, dv = sympy.symbols("u v w"), sympy.symbols("s0 s1 s2")

    class Dom:
        def __init__(self, n):
            self.n = n

        def __eq__(self, o):
            return isinstance(o, Dom) and o.n == self.n

        def __hash__(self):
            return hash(self.n)

    problems = []

    def intersection(self, other):
        if other is not domain:
            problems.append("intersected with something else")
        k = keys.index(tuple(tuple(S(c) for c in p) for p in self.vertices))
        if self.tdim != tdim:
            problems.append("piece of another dimension")
        return None if pattern[k] is None else Dom(pattern[k])

    def integral(self, dom, vars=X, dummy_vars=spec.T):
        if named and (tuple(vars) != tuple(vs) or tuple(dummy_vars) != tuple(dv)):
            problems.append(f"variables {vars} {dummy_vars}")
        if not named and (tuple(vars) != tuple(X) or [str(i) for i in dummy_vars] != ["t0", "t1", "t2"] and len(dummy_vars) != 3):
            problems.append(f"variables {vars} {dummy_vars}")
        return ScalarFunction(sympy.Function("INT")(self.as_sympy(), sympy.Symbol(f"D{dom.n}")))

    old = Reference.intersection, ScalarFunction.integral
    Reference.intersection, ScalarFunction.integral = intersection, integral
    try:
        got = a.integral(domain, vs, dv) if named else a.integral(domain)
    finally:
        Reference.intersection, ScalarFunction.integral = old
    if not isinstance(got, ScalarFunction):
        return False, f"a {type(got).__name__}"
    want, seen = S(0), set()
    alternatives = [S(0)]
    for k, v in enumerate(va):
        if pattern[k] is None:
            continue
        term = sympy.Function("INT")(v, sympy.Symbol(f"D{pattern[k]}"))
        want += term if pattern[k] not in seen else 0
        seen.add(pattern[k])
    del alternatives
    return not problems and smt.is_zero(got.as_sympy() - want), f"{problems} {got.as_sympy()}, expected {want}"


def integrals(R, which):
    n = len(PIECES[which][1])
    import itertools

    for named in (False, True):
        for hit in itertools.product((True, False), repeat=n):
            pat = [k if b else None for k, b in enumerate(hit)]
            ok, text = run_integral(which, pat, named)
            R.ok(f"{named:d}/{''.join('x' if i is None else str(i) for i in pat)}", ok, text,
                 {"kind": "integral", "which": which, "pattern": pat, "named": named})
        if n > 1:  # a facet shared by two pieces
            pat = [7, 7] + [None] * (n - 2)
            ok, text = run_integral(which, pat, named)
            R.ok(f"{named:d}/shared-facet", ok, text, {"kind": "integral", "which": which, "pattern": pat, "named": named})


MACRO = {
    "interval": (1, ((0,), (1,)), PIECES["interval"][1]),
    "triangle": (2, ((0, 0), (1, 0), (0, 1)), [((0, 0), (1, 0), (S(1) / 3, S(1) / 3)), ((1, 0), (0, 1), (S(1) / 3, S(1) / 3)),
                                               ((0, 1), (0, 0), (S(1) / 3, S(1) / 3))]),
    "triangle4": (2, ((0, 0), (2, 1), (-1, 3)), [((0, 0), (1, h), (-h, 3 * h)), ((2, 1), (1, h), (h, 2)), ((-1, 3), (-h, 3 * h), (h, 2)),
                                                 ((h, 2), (1, h), (-h, 3 * h))]),
    "quadrilateral": (2, ((0, 0), (1, 0), (0, 1), (1, 1)), PIECES["triangles"][1]),
    "tetrahedron": (3, ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
                    [((0, 0, 0), (1, 0, 0), (0, 1, 0), (S(1) / 4,) * 3), ((0, 0, 0), (1, 0, 0), (0, 0, 1), (S(1) / 4,) * 3),
                     ((0, 0, 0), (0, 1, 0), (0, 0, 1), (S(1) / 4,) * 3), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (S(1) / 4,) * 3)]),
}
CELLNAME = {("interval", 2): "interval", ("triangle", 3): "triangle", ("quadrilateral", 4): "quadrilateral", ("tetrahedron", 4): "tetrahedron"}


def cell_name(tdim, n):
    return {(1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral", (3, 4): "tetrahedron"}[(tdim, n)]


def run_macro(macro, polys, facet):
    from symfem import create_reference
    from symfem.piecewise_functions import PiecewiseFunction

    tdim, verts, pieces = MACRO[macro]
    f = PiecewiseFunction({p: e for p, e in zip(pieces, polys)}, tdim)
    if facet is None:
        cell = create_reference(cell_name(tdim, len(verts)), verts)
        want = sum(spec.integrate_on(cell_name(tdim, len(p)), p, e) for p, e in zip(pieces, polys))
    else:
        # a facet of a piece: the value of a continuous function
        fv, k = facet
        nm = {(1, 1): "point", (2, 2): "interval", (3, 3): "triangle"}[(tdim, len(fv))]
        cell = create_reference(nm, fv)
        want = spec.integrate_on(nm, fv, polys[k]) if nm != "point" else S(polys[k]).subs(dict(zip(X, fv[0])))
    got = value(f.integral(cell))
    return sympy.simplify(got - want) == 0, f"integral over {macro} {facet}: {got}, expected {want}"


def random_poly(tdim, rng):
    e = S(rng.randint(1, 5))
    for _ in range(3):
        m = S(rng.randint(-4, 4))
        for _ in range(rng.randint(0, 3)):
            m *= X[rng.randrange(tdim)]
        e += m
    return e


def facets(macro):
    from itertools import combinations

    tdim, verts, pieces = MACRO[macro]
    out = []
    for k, p in enumerate(pieces):
        if tdim == 1 or len(p) != tdim + 1:
            continue
        for c in combinations(p, tdim):
            if all(set(c) != set(o[0]) for o in out):
                out.append((c, k))
    return out


def macros(R, macro, n):
    rng = random.Random(f"{env.SEED}:{macro}")
    tdim, verts, pieces = MACRO[macro]
    for i in range(n):
        polys = [random_poly(tdim, rng) for _ in pieces]
        ok, text = run_macro(macro, polys, None)
        R.bounded(f"{i}", ok, text, {"kind": "macro", "macro": macro, "polys": [str(e) for e in polys], "facet": None})
    e = random_poly(tdim, rng)
    for j, fc in enumerate(facets(macro)):
        polys = [e] * len(pieces)
        ok, text = run_macro(macro, polys, fc)
        R.bounded(f"facet{j}", ok, text, {"kind": "macro", "macro": macro, "polys": [str(e)] * len(pieces),
                                          "facet": [[[str(c) for c in v] for v in fc[0]], fc[1]]})


# ------------------------------------------------------------------ map_pieces
def run_map(which, shape, quad, values=None):
    tdim, pieces = PIECES[which]
    mk = (lambda n: engine.sym(n)) if values is None else (lambda n: S(values.get(n, 1)))
    fwd = tuple(mk(f"b{i}") + sum(mk(f"a{i}{j}") * X[j] for j in range(tdim)) + (mk(f"q{i}") * X[0] * X[tdim - 1] if quad else 0)
                for i in range(tdim))
    a, va = pw(which, shape, "f")
    a.map_pieces(fwd)
    want = [tuple(tuple(sympy.expand(c.subs(dict(zip(X, v)), simultaneous=True)) for c in fwd) for v in p) for p in pieces]
    got = [tuple(tuple(sympy.expand(c) for c in v) for v in p) for p in a.pieces]
    if got != want:
        return False, f"pieces {got}, expected {want}"
    vals = [value(f) for f in a.pieces.values()]
    return all(same(p, q) for p, q in zip(vals, va)) and len(vals) == len(va), f"functions {vals}"


def maps(R, which):
    for shape in SHAPES[:4] + SHAPES[5:7]:
        for quad in (False, True):
            ps = engine.explore(lambda: run_map(which, shape, quad))
            for k, p in enumerate(ps):
                case = {"kind": "map", "which": which, "shape": list(shape), "quad": quad}
                if p.exc is not None:
                    R.undecided(f"{list(shape)}/{quad:d}/{k}", repr(p.exc), [case])
                else:
                    R.ok(f"{list(shape)}/{quad:d}/{k}", p.value[0], p.value[1], case)


def run_floats(which, shape):
    from symfem.piecewise_functions import PiecewiseFunction

    tdim, pieces = PIECES[which]
    vals = [mapv(lambda e, k=k: X[0] * (k + 1) / 3 + X[1] ** 2 * sympy.sqrt(2) - k, ent(shape, "f")) for k in range(len(pieces))]
    a = PiecewiseFunction({p: func(v) for p, v in zip(pieces, vals)}, tdim).with_floats()
    if list(pieces_of(a)) != [tuple(tuple(S(c) for c in v) for v in p) for p in pieces]:
        return False, "pieces changed"
    pt = dict(zip(X, (S(2) / 3, S(1) / 7, 0)))

    def close(p, q):
        if isinstance(p, tuple):
            return len(p) == len(q) and all(close(i, j) for i, j in zip(p, q))
        return abs(sympy.N((p - q).subs(pt))) < 1e-9

    return all(close(p, q) for p, q in zip(pieces_of(a).values(), vals)), "values"


def floats(R, which):
    for shape in ((), (2,), (2, 3)):
        ok, text = run_floats(which, shape)
        R.bounded(str(list(shape)), ok, text, {"kind": "floats", "which": which, "shape": list(shape)})


def units(tier):
    u = []
    for w in PIECES:
        for op in OPS:
            u.append((f"binary/{w}/{op}", binary, w, op))
        u.append((f"refuse/{w}", refuse, w))
        u.append((f"permuted/{w}", permuted, w))
        for s in SHAPES:
            nm = "x".join(map(str, s)) or "scalar"
            u.append((f"unary/{w}/{nm}", unary, w, s))
            u.append((f"equal/{w}/{nm}", equality, w, s))
        u += [(f"points/{w}", points, w), (f"integral/{w}", integrals, w), (f"map_pieces/{w}", maps, w), (f"with_floats/{w}", floats, w)]
    for m in MACRO:
        u.append((f"macro/{m}", macros, m, 3 if tier == "quick" else 20))
    return u


def replay(c):
    k = c["kind"]
    t = {n: tuple(c[n]) for n in ("shape", "sa", "sb") if n in c}
    if k == "binary":
        ok, text, _ = run_op(c["which"], c["op"], t["sa"], c["fa"], t["sb"], c["fb"], c.get("direct", False))
        text = f"{c['fa']}{t['sa']} {c['op']} {c['fb']}{t['sb']}: {text}"
    elif k == "refuse":
        ok, text = run_refuse(c["which"], c["op"], c["name"], GOOD[c["op"]])
    elif k == "permuted":
        ok, text = run_permuted(c["which"], c["op"])
    elif k == "unary":
        ok, text = run_unary(c["which"], t["shape"], c["name"])
    elif k == "misc":
        ok, text = run_misc(c["which"], t["shape"])
    elif k == "point":
        ok, text = run_point(c["which"], t["shape"], c["k"], c["form"])
    elif k == "eq":
        ok, text = run_eq(c["which"], t["shape"], c["k"], tuple(c["idx"]), c["form"])
    elif k == "integral":
        ok, text = run_integral(c["which"], c["pattern"], c["named"])
    elif k == "macro":
        f = c["facet"] and (spec.parse(c["facet"][0]), c["facet"][1])
        ok, text = run_macro(c["macro"], [sympy.sympify(e, locals=dict(zip("xyz", X))) for e in c["polys"]], f)
    elif k == "map":
        ok, text = run_map(c["which"], t["shape"], c["quad"], {"a00": 2, "a01": 1, "a10": -1, "a11": 3, "a22": 5, "q0": 1})
    else:
        ok, text = run_floats(c["which"], t["shape"])
    return not ok, f"{k}: {text}"
