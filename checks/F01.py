"""F01: arithmetic of functions is pointwise arithmetic."""
from pyvc import env  # noqa: F401
import operator

import sympy
from sympy.core.function import AppliedUndef

from pyvc import smt
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Every operation of the function classes is executed on operands whose entries are uninterpreted functions and its result "
              "proved equal to the pointwise operation, for every combination of operand forms; vector lengths up to 4 and matrix "
              "shapes up to 3x3 are enumerated (the shape is the only bound). with_floats is a bounded stand-in.")
ASSUMPTIONS = ["entries are real-valued functions; value shapes up to length 4 / 3x3"]
BOUNDS = "vector lengths 1-4, matrix shapes up to 3x3"
S = sympy.S

SHAPES = [(), (1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3)]
FORMS = {0: ["function", "expr", "int", "basis", "subbed"], 1: ["function", "tuple", "list", "mixed", "basis", "subbed"],
         2: ["function", "tuples", "lists", "sympy", "basis", "subbed"]}


def fn(name):
    return sympy.Function(name)(*X)


def entries(shape, name):
    if shape == ():
        return fn(name)
    if len(shape) == 1:
        return tuple(fn(f"{name}{i}") for i in range(shape[0]))
    return tuple(tuple(fn(f"{name}{i}{j}") for j in range(shape[1])) for i in range(shape[0]))


_B = []


def basis_class():
    if not _B:
        from symfem.basis_functions import BasisFunction

        class B(BasisFunction):
            def __init__(self, f):
                super().__init__(scalar=f.is_scalar, vector=f.is_vector, matrix=f.is_matrix)
                self._f0 = f

            def get_function(self):
                return self._f0

            @property
            def shape(self):
                return self._f0.shape

            def plot_values(self, *a, **k):
                raise NotImplementedError

        _B.append(B)
    return _B[0]


def func(e):
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction

    if not isinstance(e, tuple):
        return ScalarFunction(e)
    if e and isinstance(e[0], tuple):
        return MatrixFunction(e)
    return VectorFunction(e)


def build(shape, form, name):
    """(the operand, its value)."""
    e = entries(shape, name)
    if form == "int":
        return 3, S(3)
    if form == "expr":
        return e, e
    if form == "function":
        return func(e), e
    if form == "basis":
        return basis_class()(func(e)), e
    if form == "subbed":
        sw = (X[1], X[0] + X[2], X[2])
        v = sub(e, dict(zip(X, sw)))
        return basis_class()(func(e)).subs(X, sw), v
    if form in ("tuple", "tuples"):
        return e, e
    if form == "list":
        return list(e), e
    if form == "mixed":
        return tuple(func(i) if k % 2 else i for k, i in enumerate(e)), e
    if form == "lists":
        return [list(r) for r in e], e
    if form == "sympy":
        return sympy.Matrix([list(r) for r in e]), e
    raise ValueError(form)


def sub(e, d):
    if isinstance(e, tuple):
        return tuple(sub(i, d) for i in e)
    return S(e).subs(d, simultaneous=True)


def value(v):
    """The value of a result as nested tuples of expressions."""
    if hasattr(v, "as_sympy"):
        v = v.as_sympy()
    if isinstance(v, sympy.MatrixBase):
        return tuple(tuple(v[i, j] for j in range(v.cols)) for i in range(v.rows))
    if isinstance(v, (tuple, list)):
        return tuple(value(i) for i in v)
    return S(v)


def same(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    return smt.is_zero(a - b)


UNDEF = object()


def mapv(f, a):
    return tuple(mapv(f, i) for i in a) if isinstance(a, tuple) else f(a)


def zipv(f, a, b):
    return tuple(zipv(f, i, j) for i, j in zip(a, b)) if isinstance(a, tuple) else f(a, b)


def tsum(it):
    out = S(0)
    for i in it:
        out += i
    return out


def semantics(op, a, sa, b, sb):
    """The value of the operation, or UNDEF."""
    if op in ("+", "-"):
        f = operator.add if op == "+" else operator.sub
        return zipv(f, a, b) if sa == sb else UNDEF
    if op == "*":
        if sb == ():
            return mapv(lambda i: i * b, a)
        if sa == ():
            return mapv(lambda i: a * i, b)
        return UNDEF
    if op == "/":
        return mapv(lambda i: i / b, a) if sb == () else UNDEF
    if op == "**":
        return mapv(lambda i: i ** b, a) if sb == () else UNDEF
    if op == "@":
        if len(sa) == 2 and len(sb) == 2 and sa[1] == sb[0]:
            return tuple(tuple(tsum(a[i][k] * b[k][j] for k in range(sa[1])) for j in range(sb[1])) for i in range(sa[0]))
        if len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
            return tuple(tsum(a[i][k] * b[k] for k in range(sa[1])) for i in range(sa[0]))
        if len(sa) == 1 and len(sb) == 2 and sa[0] == sb[0]:
            return tuple(tsum(a[k] * b[k][j] for k in range(sa[0])) for j in range(sb[1]))
        return UNDEF
    if op == "dot":
        if sa != sb:
            return UNDEF
        if sa == ():
            return a * b
        if len(sa) == 1:
            return tsum(i * j for i, j in zip(a, b))
        return tsum(i * j for p, q in zip(a, b) for i, j in zip(p, q))
    if op == "cross":
        if sa == sb == (2,):
            return a[0] * b[1] - a[1] * b[0]
        if sa == sb == (3,):
            return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        return UNDEF
    raise ValueError(op)


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow,
       "@": operator.matmul, "dot": lambda a, b: a.dot(b), "cross": lambda a, b: a.cross(b)}


def library(form):
    return form in ("function", "basis", "subbed")


REFLECTED = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__", "**": "__rpow__", "@": "__rmatmul__"}


def apply(op, a, fa, b, direct=False):
    """sympy's own operators run first for a sympy matrix on the left, so the reflected method is called itself."""
    return getattr(b, REFLECTED[op])(a) if direct or fa == "sympy" else OPS[op](a, b)


def required(op, sa, fa, sb, fb):
    """Operand forms that the operation accepts (it must not start to refuse them)."""
    if fa == "sympy":
        return False  # not reached by an operator: may be refused, but not wrong
    bas = ("basis", "subbed")
    if op in ("dot", "cross"):
        if not library(fa) or fb == "sympy" or fb == "mixed":
            return False
        if op == "cross" and fb in bas:
            return True
        return True
    if fa in bas and fb in bas:
        return False  # refused: the classes do not know each other
    if fa not in ("function",) and fa not in bas and not library(fb):
        return False
    if op == "**" and (len(sa) and fb in bas or not library(fa)):
        return False
    if op == "@":
        return fa == fb == "function" or (len(sa) == len(sb) and "function" in (fa, fb) and library(fa) and library(fb))
    if op == "*" and sa == () and fa == "function" and len(sb) and not library(fb):
        return False
    if op in ("*", "/") and ((len(sa) and fb in bas) or (not library(fa) and len(sa))):
        return False
    if op == "*" and len(sb) and fa in bas:
        return False
    if "mixed" in (fa, fb):
        return False
    return True


def run_op(op, sa, fa, sb, fb, direct=False):
    """(acceptable, text); direct: the reflected method of the second operand is called itself (it may refuse, but not be wrong)"""
    a, va = build(sa, fa, "f")
    b, vb = build(sb, fb, "g")
    want = semantics(op, va, sa, vb, sb)
    try:
        got = apply(op, a, fa, b, direct)
        if got is NotImplemented:
            raise TypeError("NotImplemented returned")
        got = value(got)
    except Exception as e:
        if direct or want is UNDEF or not required(op, sa, fa, sb, fb):
            return True, "refused", False
        return False, f"refused: {e!r}", False
    if want is UNDEF:
        # sequences of the interpreter concatenate / repeat among themselves: not ours
        return False, f"not defined, but returned {got}", True
    return same(got, want), f"{got}, expected {want}", True


def binary(R, op, sa):
    n = 0
    for fa in FORMS[len(sa)]:
        for sb in SHAPES:
            if len(sb) == 2 and len(sa) == 2 and op != "@" and sb not in (sa, sa[::-1], (2, 2), (3, 3), (1, 2)):
                continue
            for fb in FORMS[len(sb)]:
                if not (library(fa) or library(fb)):
                    continue
                if op in ("dot", "cross") and not library(fa):
                    continue
                ok, text, returned = run_op(op, sa, fa, sb, fb)
                n += returned
                R.ok(f"{fa}{list(sb)}{fb}", ok, f"{fa}{sa} {op} {fb}{sb}: {text}",
                     {"kind": "binary", "op": op, "sa": list(sa), "fa": fa, "sb": list(sb), "fb": fb})
                if op in REFLECTED and library(fa) and fb == "function":
                    ok, text, _ = run_op(op, sa, fa, sb, fb, True)
                    R.ok(f"{fa}{list(sb)}{fb}/reflected", ok, f"{REFLECTED[op]}: {fa}{sa} {op} {fb}{sb}: {text}",
                         {"kind": "binary", "op": op, "sa": list(sa), "fa": fa, "sb": list(sb), "fb": fb, "direct": True})
    if not (op == "cross" and sa not in ((2,), (3,))) and not (op == "@" and sa in ((), (4,))):
        R.ok("not-vacuous", n > 0)


def cofactor_det(m):
    if len(m) == 1:
        return m[0][0]
    return tsum((-1) ** j * m[0][j] * cofactor_det(tuple(r[:j] + r[j + 1:] for r in m[1:])) for j in range(len(m)))


def unary_cases(shape):
    """(name, code on the operand, expected value) for every unary operation on this shape."""
    e = lambda v: v  # noqa: E731
    out = [("neg", lambda a: -a, lambda v: mapv(lambda i: -i, v)),
           ("as_sympy", lambda a: a.as_sympy(), e)]
    if shape != ():
        out.append(("shape", lambda a: tuple(S(i) for i in a.shape), lambda v: tuple(S(i) for i in shape)))
    if shape == ():
        out += [("norm", lambda a: a.norm(), lambda v: sympy.Abs(v)),
                ("len", lambda a: len(a), UNDEF), ("iter", lambda a: list(a), UNDEF), ("det", lambda a: a.det(), UNDEF),
                ("transpose", lambda a: a.transpose(), UNDEF), ("getitem", lambda a: a[0], UNDEF)]
    if len(shape) == 1:
        n = shape[0]
        out += [("len", lambda a: len(a), lambda v: S(n)),
                ("norm", lambda a: a.norm(), lambda v: sympy.sqrt(tsum(i ** 2 for i in v))),
                ("iter", lambda a: tuple(a), e),
                ("iter-nested", lambda a: tuple(i * j for i in a for j in a), lambda v: tuple(i * j for i in v for j in v)),
                ("det", lambda a: a.det(), UNDEF), ("transpose", lambda a: a.transpose(), UNDEF)]
        for i in range(-n, n):
            out.append((f"getitem{i}", lambda a, i=i: a[i], lambda v, i=i: v[i]))
        for sl in (slice(0, 2), slice(1, None), slice(None, None, -1)):
            out.append((f"getitem{sl}", lambda a, sl=sl: a[sl], lambda v, sl=sl: v[sl]))
        out.append(("getitem-outside", lambda a: a[n], UNDEF))
    if len(shape) == 2:
        r, c = shape
        out += [("transpose", lambda a: a.transpose(), lambda v: tuple(tuple(v[i][j] for i in range(r)) for j in range(c)))]
        if r == c:
            out.append(("det", lambda a: a.det(), cofactor_det))
        elif (r, c) == (3, 2):
            out.append(("det", lambda a: a.det(), lambda v: sympy.sqrt(tsum(
                (v[i][0] * v[j][1] - v[j][0] * v[i][1]) ** 2 for i in range(3) for j in range(i)))))
        else:
            out.append(("det", lambda a: a.det(), UNDEF))
        for i in range(r):
            out.append((f"row{i}", lambda a, i=i: a[i], lambda v, i=i: v[i]))
            for j in range(c):
                out.append((f"getitem{i}{j}", lambda a, i=i, j=j: a[i, j], lambda v, i=i, j=j: v[i][j]))
        out.append(("getitem-outside", lambda a: a[r, 0], UNDEF))
    return out


def mat_only(shape):
    r, c = shape
    return [(f"row({i})", lambda a, i=i: a.row(i), lambda v, i=i: v[i]) for i in range(r)] + [
        (f"col({j})", lambda a, j=j: a.col(j), lambda v, j=j: tuple(v[i][j] for i in range(r))) for j in range(c)]


def run_unary(shape, form, name):
    cases = unary_cases(shape) + (mat_only(shape) if len(shape) == 2 and form == "function" else [])
    code, want = next((c[1], c[2]) for c in cases if c[0] == name)
    a, va = build(shape, form, "f")
    w = UNDEF if want is UNDEF else want(va)
    try:
        got = value(code(a))
    except Exception as e:
        return w is UNDEF, f"refused: {e!r}"
    if w is UNDEF:
        return False, f"not defined, but returned {got}"
    return same(got, w), f"{got}, expected {w}"


def unary(R, shape):
    for form in FORMS[len(shape)]:
        if not library(form):
            continue
        for c in unary_cases(shape) + (mat_only(shape) if len(shape) == 2 and form == "function" else []):
            ok, text = run_unary(shape, form, c[0])
            R.ok(f"{form}/{c[0]}", ok, text, {"kind": "unary", "shape": list(shape), "form": form, "name": c[0]})


# -- substitution
def subs_cases():
    a, b, c = sympy.symbols("a b c")
    x, y, z = X
    g = sympy.Function("g")
    return [
        ("point", X, (a, b, c)), ("numbers", X, (1, sympy.Rational(1, 3), -2)), ("list", list(X), [a, b, c]),
        ("swap", (x, y), (y, x)), ("rotate", X, (y, z, x)), ("shift", X, (x + y, y + z, z + x)),
        ("two-of-three", X, (a, b)), ("one-of-three", X, (y,)), ("single", x, y + 1), ("single-int", y, 2),
        ("subset", (y, z), (z + x, y)), ("function", X, (g(*X), x * g(x, y, z), x)), ("mixed-other", (x, a), (a, x)),
    ]


def run_subs(shape, form, name, wrap):
    vs, vals = next((c[1], c[2]) for c in subs_cases() if c[0] == name)
    a, va = build(shape, form, "f")
    if name == "mixed-other":
        al = sympy.Symbol("a")
        va = mapv(lambda e: e * al + al ** 2, va)
        a = func(va) if form == "function" else basis_class()(func(va))
    v2 = vals
    if wrap == "functions":
        v2 = tuple(func(S(i)) for i in vals) if isinstance(vals, (tuple, list)) else func(S(vals))
    if wrap == "vector":
        v2 = func(tuple(S(i) for i in vals))
    d = dict(zip(vs, vals)) if isinstance(vs, (tuple, list)) else {vs: vals}
    want = sub(va, d)
    try:
        r = a.subs(vs, v2)
        got = value(r)
    except Exception as e:
        return False, f"refused: {e!r}"
    return same(got, want), f"{got}, expected {want}"


def substitution(R, shape):
    for form in FORMS[len(shape)]:
        if not library(form):
            continue
        for c in subs_cases():
            if form == "subbed" and c[0] == "mixed-other":
                continue
            for wrap in ("plain", "functions", "vector"):
                if wrap == "vector" and not isinstance(c[2], (tuple, list)):
                    continue
                ok, text = run_subs(shape, form, c[0], wrap)
                R.ok(f"{form}/{c[0]}/{wrap}", ok, text, {"kind": "subs", "shape": list(shape), "form": form, "name": c[0],
                                                         "wrap": wrap})


# -- equality
def rewritten(e):
    x, y = X[:2]
    return e + (x + y) ** 2 - x ** 2 - 2 * x * y - y ** 2


def perturb(e, idx):
    if not idx:
        return e + sympy.Symbol("d") * X[0]
    return tuple(perturb(i, idx[1:]) if k == idx[0] else i for k, i in enumerate(e))


def indices(shape):
    if shape == ():
        return [()]
    if len(shape) == 1:
        return [(i,) for i in range(shape[0])]
    return [(i, j) for i in range(shape[0]) for j in range(shape[1])]


def eq_cases(shape):
    out = [("same", lambda e: e, True), ("rewritten", lambda e: mapv(rewritten, e), True)]
    for i in indices(shape):
        out.append((f"differs{list(i)}", lambda e, i=i: perturb(e, i), False))
    return out


def run_eq(shape, form, other, name):
    make, want = next((c[1], c[2]) for c in eq_cases(shape) if c[0] == name)
    a, va = build(shape, form, "f")
    w = make(va)
    b = {"function": func, "plain": lambda v: v, "basis": lambda v: basis_class()(func(v))}[other](w)
    try:
        back = want if other == "plain" else bool(b == a)  # (sympy's and Python's own == for plain values)
        return (bool(a == b), bool(a != b), back) == (want, not want, want), f"== is {a == b}, != is {a != b}"
    except Exception as e:
        return False, repr(e)


def equality(R, shape):
    for form in ("function", "basis", "subbed"):
        for other in ("function", "plain", "basis"):
            for c in eq_cases(shape):
                if other == "plain" and len(shape) == 2 and False:
                    continue
                ok, text = run_eq(shape, form, other, c[0])
                R.ok(f"{form}/{other}/{c[0]}", ok, text, {"kind": "eq", "shape": list(shape), "form": form, "other": other,
                                                          "name": c[0]})


def run_eq_shapes(sa, sb, form):
    a, va = build(sa, form, "f")
    b, vb = build(sb, "function", "f")
    try:
        r = (bool(a == b), bool(a != b))
    except Exception:
        return True, "refused"
    return r == (False, True), f"== {r[0]}, != {r[1]}"


def eq_shapes(R):
    for sa in SHAPES:
        for sb in SHAPES:
            if sa != sb:
                for form in ("function", "basis"):
                    ok, text = run_eq_shapes(sa, sb, form)
                    R.ok(f"{list(sa)}{list(sb)}{form}", ok, text, {"kind": "eqs", "sa": list(sa), "sb": list(sb), "form": form})


# -- ordering and float of constant scalars; construction
def run_order(p, q, form):
    from symfem.functions import ScalarFunction

    a = ScalarFunction(S(p))
    if form == "basis":
        a = basis_class()(a)
    q = S(q)
    for nm, o in (("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
        if bool(o(a, q)) != bool(o(S(p), q)):
            return False, f"{p} {nm} {q}"
    return abs(float(a) - float(S(p))) < 1e-12, "float"


ORDER = ["-1", "0", "1/3", "2", "sqrt(2)", "7/5"]


def order(R):
    for p in ORDER:
        for q in ORDER:
            for form in ("function", "basis"):
                ok, text = run_order(p, q, form)
                R.bounded(f"{p},{q},{form}", ok, text, {"kind": "order", "p": p, "q": q, "form": form})


def run_parse(shape, form):
    from symfem.functions import parse_function_input, parse_function_list_input

    a, va = build(shape, form, "f")
    try:
        r = parse_function_input(a)
    except Exception as e:
        return form == "sympy", f"refused: {e!r}"
    if (r.is_scalar, r.is_vector, r.is_matrix) != tuple(len(shape) == k for k in range(3)):
        return False, f"kind of {r!r}"
    rs = parse_function_list_input([a, a])
    return same(value(r), va) and len(rs) == 2 and all(same(value(i), va) for i in rs), str(r)


def parsing(R):
    for s in SHAPES:
        for form in FORMS[len(s)]:
            ok, text = run_parse(s, form)
            R.ok(f"{list(s)}{form}", ok, text, {"kind": "parse", "shape": list(s), "form": form})
    from symfem.functions import MatrixFunction, VectorFunction

    def refused(f):
        try:
            f()
        except Exception:
            return True
        return False

    f = fn("f")
    for nm, g in (("ragged", lambda: MatrixFunction(((f, f), (f,)))), ("nested-vector", lambda: VectorFunction((f, VectorFunction((f, f)))))):
        R.ok(f"refuses-{nm}", refused(g))


# -- with_floats (bounded)
FLOATY = ["3", "x/3 + y", "sqrt(2)*x*y - 7*z/5", "x*(1 - y)/3 + (x + 1)**2/7", "0", "-x", "sqrt(3)", "x**2/9 + x*sqrt(5)/2"]


def run_floats(i, shape, form):
    from pyvc import spec  # noqa: F401

    loc = dict(zip("xyz", X))
    e = sympy.sympify(FLOATY[i], locals=loc)
    v = e if shape == () else tuple(e + k for k in range(shape[0])) if len(shape) == 1 else tuple(
        tuple(e + k - 2 * j for j in range(shape[1])) for k in range(shape[0]))
    a = func(v) if form == "function" else basis_class()(func(v))
    got = value(a.with_floats())
    pt = dict(zip(X, (S(2) / 3, S(-1) / 7, S(5) / 4)))

    def close(p, q):
        if isinstance(p, tuple):
            return len(p) == len(q) and all(close(i, j) for i, j in zip(p, q))
        return abs(sympy.N((p - q).subs(pt))) < 1e-9 and abs(sympy.N((p - q).subs(dict(zip(X, (1, 2, 3)))))) < 1e-8

    return close(got, v), f"{got}"


def floats(R):
    for i in range(len(FLOATY)):
        for shape in ((), (2,), (2, 3)):
            for form in ("function", "basis"):
                ok, text = run_floats(i, shape, form)
                R.bounded(f"{i}{list(shape)}{form}", ok, text, {"kind": "floats", "i": i, "shape": list(shape), "form": form})


def units(tier):
    u = []
    for s in SHAPES:
        nm = "x".join(map(str, s)) or "scalar"
        for op in OPS:
            u.append((f"binary/{op}/{nm}", binary, op, s))
        u.append((f"unary/{nm}", unary, s))
        u.append((f"subs/{nm}", substitution, s))
        u.append((f"equal/{nm}", equality, s))
    u += [("equal-shapes", eq_shapes), ("order", order), ("parse", parsing), ("with_floats", floats)]
    return u


def replay(c):
    k = c["kind"]
    t = {n: tuple(c[n]) for n in ("shape", "sa", "sb") if n in c}
    if k == "binary":
        ok, text, _ = run_op(c["op"], t["sa"], c["fa"], t["sb"], c["fb"], c.get("direct", False))
        what = f"{c['fa']}{t['sa']} {c['op']} {c['fb']}{t['sb']}"
    elif k == "unary":
        ok, text = run_unary(t["shape"], c["form"], c["name"])
        what = f"{c['name']} of {c['form']}{t['shape']}"
    elif k == "subs":
        ok, text = run_subs(t["shape"], c["form"], c["name"], c["wrap"])
        what = f"substitution {c['name']} into {c['form']}{t['shape']}"
    elif k == "eq":
        ok, text = run_eq(t["shape"], c["form"], c["other"], c["name"])
        what = f"{c['form']}{t['shape']} compared with {c['name']} {c['other']}"
    elif k == "eqs":
        ok, text = run_eq_shapes(t["sa"], t["sb"], c["form"])
        what = f"{t['sa']} compared with {t['sb']}"
    elif k == "order":
        ok, text = run_order(c["p"], c["q"], c["form"])
        what = "order"
    elif k == "parse":
        ok, text = run_parse(t["shape"], c["form"])
        what = f"parsing {c['form']}{t['shape']}"
    else:
        ok, text = run_floats(c["i"], t["shape"], c["form"])
        what = f"with_floats of {FLOATY[c['i']]}"
    return not ok, f"{what}: {text}"
