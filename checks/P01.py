"""P01: polynomial set generators."""
from pyvc import env  # noqa: F401
from itertools import product

import sympy
from sympy import And, Eq, Or

from pyvc import engine, generic, smt, spec
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("Every generator in polynomials/polysets.py is executed with a symbolic order: comprehensions and append-only loops over ranges with "
              "symbolic ends are summarised by a generic index (loop invariant: the list is the set of members for the indices so far); exactness of "
              "the index sets is discharged by z3 for every order. The recursion in serendipity_indices is verified against its own contract. "
              "Concrete orders are also run (bounded).")
TRUSTED = ["the append-only loop rule (pyvc/loader.py checks its side conditions on the source)",
           "known dimension of {p in the homogeneous polynomials of degree n : x.p = 0} (the map p -> x.p is onto)"]
ASSUMPTIONS = ["orders are non-negative integers"]
BOUNDS = "bounded stand-in: concrete orders 0 to 4 (quick) or 7 (thorough), spans compared by exact linear algebra"
S = sympy.S
U = sympy.symbols("u v w")
n = engine.sym("n", integer=True)
E = tuple(engine.sym(f"e{i}", integer=True) for i in range(3))
COMP = engine.sym("comp", integer=True)


def mod():
    import symfem.polynomials.polysets as P

    return P


def plain(v):
    from symfem.functions import AnyFunction

    if isinstance(v, AnyFunction):
        v = v.as_sympy()
    if isinstance(v, (tuple, list)):
        return tuple(S(i) for i in v)
    return S(v)


# ---------------------------------------------------------------- the named scalar spaces (index sets)
def region_p(dim, e, n):
    return And(*[i >= 0 for i in e[:dim]], sum(e[:dim]) <= n)


def region_q(dim, e, n):
    return And(*[i >= 0 for i in e[:dim]], *[i <= n for i in e[:dim]])


def region_prism(dim, e, n):
    return And(*[i >= 0 for i in e], e[0] + e[1] <= n, e[2] <= n)


def region_pyramid(dim, e, n):
    return And(*[i >= 0 for i in e[:3]], e[0] + e[2] <= n, e[1] + e[2] <= n, Or(And(e[0] <= e[1], Eq(e[3], -e[0])), And(e[1] <= e[0], Eq(e[3], -e[1]))))


def ones(e, at_least):
    """At least so many of the exponents are 1."""
    from itertools import combinations

    if at_least <= 0:
        return sympy.true
    return Or(*[And(*[Eq(i, 1) for i in c]) for c in combinations(e, int(at_least))])


def region_serendipity(dim, e, n):
    """Superlinear degree (degree in the variables that enter to power 2 or more) at most n, not of degree <= n."""
    e = e[:dim]
    return And(*[i >= 0 for i in e], sum(e) > n,
               Or(*[And(*[Eq(e[i], 1) if i in sub else sympy.Ne(e[i], 1) for i in range(dim)],
                        sum([e[i] for i in range(dim) if i not in sub], S(0)) <= n)
                    for r in range(dim + 1) for sub in _subsets(dim, r)]))


def _subsets(d, r):
    from itertools import combinations

    return list(combinations(range(d), r))


def monomial(v, vs, dim):
    """Exponents of a monomial with coefficient 1 in the first dim variables."""
    t = generic.terms(v, vs)
    if len(t) != 1 or t[0][0] != 1 or any(q != 0 for q in t[0][1][dim:]):
        return None
    return t[0][1][:dim]


SCALAR = {"polynomial_set_1d": ((1, 2, 3), region_p), "quolynomial_set_1d": ((1, 2, 3), region_q),
          "prism_polynomial_set_1d": ((3,), region_prism), "pyramid_polynomial_set_1d": ((3,), region_pyramid)}
VECTOR = {"polynomial_set_vector": "polynomial_set_1d", "quolynomial_set_vector": "quolynomial_set_1d",
          "prism_polynomial_set_vector": "prism_polynomial_set_1d", "pyramid_polynomial_set_vector": "pyramid_polynomial_set_1d",
          "serendipity_set_vector": "serendipity_set_1d"}
CELLS = {"interval": ("polynomial_set_1d", 1), "triangle": ("polynomial_set_1d", 2), "tetrahedron": ("polynomial_set_1d", 3),
         "quadrilateral": ("quolynomial_set_1d", 2), "hexahedron": ("quolynomial_set_1d", 3),
         "prism": ("prism_polynomial_set_1d", 3), "pyramid": ("pyramid_polynomial_set_1d", 3)}


def paths_of(R, f, pre, case, kind=None):
    ps = engine.explore(f, pre, 2000)
    bad = [p for p in ps if p.exc is not None]
    if bad and all(isinstance(p.exc, (TypeError, NotImplementedError)) for p in bad):
        # written in a way that a symbolic order does not run through: concrete orders only
        name, dim = case["name"], case["dim"]
        rdim = case.get("rdim", None if name in SCALAR or name == "serendipity_set_1d" else dim)
        c = dict(case, rdim=rdim)
        for k in range(0 if "serendipity" not in name and name not in ("Hdiv_quolynomials", "Hcurl_quolynomials") else 1, {1: 21, 2: 11, 3: 7}[dim]):
            try:
                ok, text = run_concrete(name, dim, rdim, k, tuple(sympy.Symbol(v) for v in case["vs"]), case.get("cell"))
            except Exception as e:
                ok, text = False, f"{name} order {k}: {e!r}"
            R.bounded(f"order{k}", ok, text, dict(c, k=k))
        return None
    for p in bad[:1]:
        R.undecided("returns", f"{p.exc!r} when {p.pc}", [case])
    if bad:
        return None
    for p in ps:
        if not isinstance(p.value, list):
            R.ok("list", False, type(p.value), case)
            return None
    R.ok("list", True)
    return ps


def members(R, ps, case):
    its, idle = generic.items(ps, plain)
    R.ok("every-index-used", not idle, f"{idle} repeat members", case)
    return its


def pyramid_exps(v, vs):
    t = generic.terms_with(v, list(vs) + [1 - vs[2]])
    if len(t) != 1 or t[0][0] != 1:
        return None
    return t[0][1]


def scalar_exps(name, dim, vs):
    if name.startswith("pyramid"):
        return lambda it: pyramid_exps(it.value, vs)
    return lambda it: None if isinstance(it.value, tuple) else monomial(it.value, vs, dim)


def scalar_target(name, dim):
    return E[:dim] if not name.startswith("pyramid") else E + (engine.sym("m", integer=True),)


def scalar(R, name, dim, vs, via=None):
    P = mod()
    pre = [n >= 0]
    R.cover("pre", pre)
    case = {"kind": "run", "name": name, "dim": dim, "vs": [str(v) for v in vs], "cell": via}
    kw = () if vs == X else (vs,)
    f = (lambda: P.polynomial_set(via, n, *kw)) if via else (lambda: getattr(P, name)(dim, n, *kw))
    ps = paths_of(R, f, pre, case)
    if ps is None:
        return
    its = members(R, ps, case)
    region = SCALAR[name][1]
    generic.same_set(R, "index-set", its, scalar_exps(name, dim, vs), lambda e: region(dim, e, n), scalar_target(name, dim), pre, case)


def vector(R, name, dim, rdim, vs):
    """The vector versions against the contract of the scalar generator: one generic function stands for the scalar set."""
    P = mod()
    base = VECTOR[name]
    p, q = sympy.Symbol("P"), sympy.Symbol("Q")
    seen = []
    case = {"kind": "run", "name": name, "dim": dim, "rdim": rdim, "vs": [str(v) for v in vs]}
    old = getattr(P, base)

    def stub(*a, **k):
        from symfem.functions import ScalarFunction

        seen.append(a + tuple(k[i] for i in ("dim", "order", "variables")[len(a):] if i in k))
        return [ScalarFunction(p), ScalarFunction(q)]

    setattr(P, base, stub)
    try:
        out = getattr(P, name)(dim, rdim, n, *(() if vs == X else (vs,)))
    finally:
        setattr(P, base, old)
    a = seen[0] if len(seen) == 1 else ()
    R.ok("calls-scalar-generator", len(seen) == 1 and a[0] == dim and a[1] == n and tuple(a[2] if len(a) > 2 else X) == tuple(vs), str(seen), case)
    want = {tuple(f if i == j else S(0) for j in range(rdim)) for f in (p, q) for i in range(rdim)}
    got = [plain(i) for i in out]
    R.ok("one-component-each", len(got) == len(want) and set(got) == want, str(got), case)


def hdiv_like(R, name, dim, vs):
    """Hdiv_polynomials and Hcurl_polynomials in 2D: p times a fixed linear field, p the monomials of degree n - 1."""
    P = mod()
    pre = [n >= 0]
    case = {"kind": "run", "name": name, "dim": dim, "rdim": dim, "vs": [str(v) for v in vs]}
    ps = paths_of(R, lambda: getattr(P, name)(dim, dim, n, *(() if vs == X else (vs,))), pre, case)
    if ps is None:
        return
    its = members(R, ps, case)
    lin = tuple(vs[:dim]) if name.startswith("Hdiv") else (vs[1], -vs[0])

    def exps(it):
        v = it.value
        if not isinstance(v, tuple) or len(v) != dim:
            return None
        if any(not vanishes(v[i] * lin[0] - v[0] * lin[i], vs) for i in range(1, dim)):
            return None
        return monomial(v[0] / lin[0], vs, dim)

    generic.same_set(R, "index-set", its, exps, lambda e: And(*[i >= 0 for i in e], Eq(sum(e), n - 1)), E[:dim], pre, case)


def vanishes(e, vs):
    return not generic.terms(e, vs)


def hcurl3(R, vs):
    """{p homogeneous of degree n : x.p = 0}: membership, distinct leading terms, dimension."""
    P = mod()
    pre = [n >= 0]
    case = {"kind": "run", "name": "Hcurl_polynomials", "dim": 3, "rdim": 3, "vs": [str(v) for v in vs]}
    ps = paths_of(R, lambda: P.Hcurl_polynomials(3, 3, n, *(() if vs == X else (vs,))), pre, case)
    if ps is None:
        return
    its = members(R, ps, case)

    def lead(it):
        v = it.value
        if not isinstance(v, tuple) or len(v) != 3 or not vanishes(sum(a * b for a, b in zip(v, vs)), vs):
            return None
        first = None
        for c, q in enumerate(v):
            for k, (co, ex) in enumerate(generic.terms(q, vs)):
                if smt.sat(pre + it.cond + [sympy.Not(And(*[i >= 0 for i in ex], Eq(sum(ex), n)))]) != "unsat":
                    return None
                if k > 0:
                    return None
                if first is None:
                    first = (S(c),) + tuple(ex)
        return first

    def region(t):
        c, e = t[0], t[1:]
        return And(*[i >= 0 for i in e], Eq(sum(e), n), Or(And(Eq(c, 0), e[0] <= n - 1), And(Eq(c, 1), e[2] >= 1)))

    generic.same_set(R, "leading-terms", its, lead, region, (COMP,) + E, pre, case)
    m = sympy.Symbol("m", integer=True, positive=True)
    count = (m + 1) * (m + 2) / 2 - 1 + m * (m + 1) / 2
    dim = 3 * (m + 1) * (m + 2) / 2 - (m + 2) * (m + 3) / 2
    R.zero("lemma/dimension", count - dim)


def quo(R, name, dim, vs):
    P = mod()
    pre = [n >= 0]
    case = {"kind": "run", "name": name, "dim": dim, "rdim": dim, "vs": [str(v) for v in vs]}
    ps = paths_of(R, lambda: getattr(P, name)(dim, dim, n, *(() if vs == X else (vs,))), pre, case)
    if ps is None:
        return
    its = members(R, ps, case)

    def exps(it):
        v = it.value
        if not isinstance(v, tuple) or len(v) != dim:
            return None
        nz = [i for i, c in enumerate(v) if c != 0]
        if len(nz) != 1:
            return None
        m = monomial(v[nz[0]], vs, dim)
        return None if m is None else (S(nz[0]),) + m

    def region(t):
        c, e = t[0], t[1:]
        out = []
        for d in range(dim):
            if name.startswith("Hdiv"):
                r = [Eq(e[i], n) if i == d else And(e[i] >= 0, e[i] < n) for i in range(dim)]
            else:
                r = [And(e[i] >= 0, e[i] < n) if i == d else And(e[i] >= 0, e[i] <= n) for i in range(dim)]
                r.append(Or(*[Eq(e[i], n) for i in range(dim)]))
            out.append(And(Eq(c, d), *r))
        return Or(*out)

    # in order 0 the sets are only used together with the empty set of order -1
    generic.same_set(R, "index-set", its, exps, region, (COMP,) + E[:dim], [n >= 1], case)


# ---------------------------------------------------------------- serendipity
def indices_contract(R, dim, done):
    """serendipity_indices(total, linear, dim, done): the lists of dim indices that start with done, sum to total and have
    at least `linear` ones."""
    P = mod()
    total = engine.sym("total", integer=True)
    pre_done = tuple(engine.sym(f"d{i}", integer=True) for i in range(done))
    for linear in range(-1, dim + 2):
        pre = [total >= 0] + [d >= 0 for d in pre_done] + ([sum(pre_done) <= total] if done else [])
        if done == dim:
            pre.append(Eq(sum(pre_done), total))
        case = {"kind": "indices", "dim": dim, "linear": linear, "done": done}
        args = (total, S(linear), dim) + ((list(pre_done),) if done else ())
        ps = engine.explore(lambda: P.serendipity_indices(*args), pre, 2000)
        if any(isinstance(p.exc, (TypeError, NotImplementedError)) for p in ps):
            try:
                bad, text = replay(case)
            except Exception as e:
                bad, text = True, repr(e)
            R.bounded(f"linear{linear}/totals", not bad, text, case)
            continue
        if any(p.exc is not None for p in ps):
            R.undecided(f"linear{linear}/returns", [p.exc for p in ps if p.exc is not None][0], [case])
            continue
        its, idle = generic.items(ps, lambda v: tuple(S(i) for i in v))
        R.ok(f"linear{linear}/every-index-used", not idle or linear > dim, str(idle), case)

        def region(e):
            return And(*[i >= 0 for i in e], Eq(sum(e), total), ones(e, linear), *[Eq(a, b) for a, b in zip(pre_done, e)])

        if linear > dim:
            R.ok(f"linear{linear}/empty", not any(smt.sat(pre + it.cond) != "unsat" for it in its), str([i.value for i in its]), case)
            continue
        generic.same_set(R, f"linear{linear}", its, lambda it: it.value if len(it.value) == dim else None, region, E[:dim], pre, case)


def with_indices_contract(f):
    """Run f with serendipity_indices replaced by its contract."""
    P = mod()
    old = P.serendipity_indices

    def stub(total, linear, dim, done=None):
        if done:
            raise TypeError("called in the middle of a recursion")
        out = []
        k0 = len(engine.E.indices)
        for i in range(dim - 1):
            s = sympy.Symbol(f"k{k0 + i}_", integer=True)
            engine._symbols.add(s)
            out.append(s)
        e = out + [sympy.S(total) - sum(out)]
        lin = sympy.expand(linear)
        if not lin.is_Integer:
            raise TypeError(f"linear = {lin}")
        c = [i >= 0 for i in e]
        if lin > dim:
            c.append(sympy.false)
        if lin > 0:
            c.append(ones(e, lin))
        c = [i for i in c if i is not sympy.true]
        if not out:
            if any(i is sympy.false for i in c) or not engine.decide(And(*c)):
                return []
            return [e]
        for s in out:
            engine.E.indices[s] = engine.Index(c if s is out[0] else [s >= 0, s <= total], None, None)
        return [e]

    P.serendipity_indices = stub
    try:
        return f()
    finally:
        P.serendipity_indices = old


def serendipity(R, dim, vs):
    P = mod()
    pre = [n >= 1]
    case = {"kind": "run", "name": "serendipity_set_1d", "dim": dim, "vs": [str(v) for v in vs]}
    ps = paths_of(R, lambda: with_indices_contract(lambda: P.serendipity_set_1d(dim, n, *(() if vs == X else (vs,)))), pre, case)
    if ps is None:
        return
    its = members(R, ps, case)
    generic.same_set(R, "index-set", its, scalar_exps("", dim, vs), lambda e: region_serendipity(dim, e, n), E[:dim], pre, case)


def curl3(v, vs):
    d = sympy.diff
    return (d(v[2], vs[1]) - d(v[1], vs[2]), d(v[0], vs[2]) - d(v[2], vs[0]), d(v[1], vs[0]) - d(v[0], vs[1]))


def jfields(vs, m, deg):
    """The three families of Arnold and Awanou: products with monomials of degree `deg` in two variables."""
    x, y, z = vs
    return [(S(0), x * z * y ** m * z ** (deg - m), -x * y * y ** m * z ** (deg - m)),
            (y * z * x ** m * z ** (deg - m), S(0), -x * y * x ** m * z ** (deg - m)),
            (y * z * x ** m * y ** (deg - m), -x * z * x ** m * y ** (deg - m), S(0))]


M = tuple(engine.sym(f"m{i}", integer=True) for i in range(3))


def match(it, families, vs):
    """(family, indices) with item == +-family(indices)."""
    v = it.value
    for label, k, f in families:
        w = f(M[:k])
        if len(v) != len(w):
            continue
        comp = next((c for c, q in enumerate(w) if len(generic.terms(q, vs)) == 1), None)
        if comp is None:
            continue
        tv, tw = generic.terms(v[comp], vs), generic.terms(w[comp], vs)
        if len(tv) != 1:
            continue
        sol = generic.solve_any([b - a for a, b in zip(tv[0][1], tw[0][1])], M[:k])
        if sol is None or any(sympy.expand(b.subs(sol) - a) != 0 for a, b in zip(tv[0][1], tw[0][1])):
            continue
        for sgn in (1, -1):
            if all(vanishes(a - sgn * b.subs(sol), vs) for a, b in zip(v, w)):
                return (S(label),) + tuple(sol[q] for q in M[:k]) + (S(0),) * (3 - k)
    return None


def serendipity_vector(R, name, dim, vs):
    P = mod()
    pre = [n >= 1]
    case = {"kind": "run", "name": name, "dim": dim, "rdim": dim, "vs": [str(v) for v in vs]}
    ps = paths_of(R, lambda: with_indices_contract(lambda: getattr(P, name)(dim, dim, n, *(() if vs == X else (vs,)))), pre, case)
    if ps is None:
        return
    d = sympy.diff
    if dim == 2:
        x, y = vs[:2]
        pot = [x ** (n + 1) * y, x * y ** (n + 1)]
        want = [(d(q, y), -d(q, x)) if name.startswith("Hdiv") else (d(q, x), d(q, y)) for q in pot]
        for k, p in enumerate(ps):
            R.ok(f"path{k}/span", same_span([plain(i) for i in p.value], want, vs, pre + p.pc), str([plain(i) for i in p.value]), case)
        return
    hdiv = name.startswith("Hdiv")
    deg = n if hdiv else n - 1
    fam = []
    for i in range(3):
        fam.append((i, 1, lambda m, i=i: curl3(jfields(vs, m[0], deg)[i], vs) if hdiv else jfields(vs, m[0], deg)[i]))
    if not hdiv:
        fam.append((3, 3, lambda m: tuple(d(vs[0] ** m[0] * vs[1] ** m[1] * vs[2] ** m[2], v) for v in vs)))
    # deg == 0 (Hcurl, n == 1): the three families coincide up to sum
    its = members(R, ps, case)
    low = [it for it in its if smt.sat(pre + it.cond + [n >= 2]) == "unsat"]
    high = [it for it in its if it not in low]

    def region(t):
        c, m = t[0], t[1:]
        out = And(c >= 0, c <= 2, m[0] >= 0, m[0] <= deg, Eq(m[1], 0), Eq(m[2], 0))
        return Or(out, And(Eq(c, 3), region_serendipity(3, m, n + 1))) if not hdiv else out

    generic.same_set(R, "families", high, lambda it: match(it, fam, vs), region, (COMP,) + E, [n >= 1] if hdiv else [n >= 2], case)
    if not hdiv:
        got = [tuple(q.subs(n, 1) for q in it.value) for it in low if not it.indices]
        base = jfields(vs, S(0), S(0))
        R.ok("lowest-order/span", same_span(got, base[:2], vs, []), str(got), case)


def same_span(got, want, vs, pre):
    """Spans of two lists of vectors of sums of monomials (possibly with symbolic exponents)."""
    keys = {}
    rows = []
    for v in list(got) + list(want):
        row = {}
        for c, q in enumerate(v):
            for co, ex in generic.terms(q, vs):
                row[(c,) + ex] = co
                keys.setdefault((c,) + ex, len(keys))
        rows.append(row)
    m = sympy.Matrix(len(rows), len(keys), lambda i, j: 0)
    for i, r in enumerate(rows):
        for k, co in r.items():
            m[i, keys[k]] = co
    a, b = m[:len(got), :], m[len(got):, :]
    return a.rank() == b.rank() == m.rank() == len(got)


# ---------------------------------------------------------------- bounded: concrete orders, exact linear algebra
def space(name, dim, rdim, k):
    """A spanning set of the named space, from its definition."""
    x = X[:dim]
    mono = lambda e: sympy.prod([a ** b for a, b in zip(x, e)])  # noqa: E731
    allm = lambda top: list(product(range(top + 1), repeat=dim))  # noqa: E731
    if name == "polynomial_set_1d":
        return [mono(e) for e in allm(k) if sum(e) <= k]
    if name == "quolynomial_set_1d":
        return [mono(e) for e in allm(k)]
    if name == "prism_polynomial_set_1d":
        return [mono(e) for e in allm(k) if e[0] + e[1] <= k]
    if name == "pyramid_polynomial_set_1d":
        # images under x = s(1-z), y = t(1-z): s^i t^j (1-z)^max(i,j) z^k
        return [X[0] ** i * X[1] ** j * X[2] ** m / (1 - X[2]) ** min(i, j) for m in range(k + 1) for i in range(k + 1 - m) for j in range(k + 1 - m)]
    if name == "serendipity_set_1d":
        sl = lambda e: sum(i for i in e if i != 1)  # noqa: E731
        return [mono(e) for e in allm(k + dim) if sum(e) > k and sl(e) <= k]
    if name in VECTOR:
        return [tuple(f if i == j else S(0) for j in range(rdim)) for f in space(VECTOR[name], dim, rdim, k) for i in range(rdim)]
    hom = [mono(e) for e in allm(k) if sum(e) == k - 1]
    if name == "Hdiv_polynomials":
        return [tuple(v * p for v in x) for p in hom]
    if name == "Hcurl_polynomials":
        if dim == 2:
            return [(x[1] * p, -x[0] * p) for p in hom]
        return [tuple(c) for p in hom for i in range(3) for c in [spec.cross(x, tuple(p if i == j else S(0) for j in range(3)))]]
    if name == "Hdiv_quolynomials":
        return [tuple(mono(e) if i == d else S(0) for i in range(dim)) for d in range(dim) for e in allm(k)
                if e[d] == k and all(q < k for i, q in enumerate(e) if i != d)]
    if name == "Hcurl_quolynomials":
        return [tuple(mono(e) if i == d else S(0) for i in range(dim)) for d in range(dim) for e in allm(k) if e[d] < k and k in e]
    dd = sympy.diff
    if name == "Hdiv_serendipity":
        if dim == 2:
            return [(dd(q, X[1]), -dd(q, X[0])) for q in (X[0] ** (k + 1) * X[1], X[0] * X[1] ** (k + 1))]
        return [curl3(f, X) for m in range(k + 1) for f in jfields(X, S(m), S(k))]
    if name == "Hcurl_serendipity":
        if dim == 2:
            return [(dd(q, X[0]), dd(q, X[1])) for q in (X[0] ** (k + 1) * X[1], X[0] * X[1] ** (k + 1))]
        return [f for m in range(k) for f in jfields(X, S(m), S(k - 1))] + [
            tuple(dd(q, v) for v in X) for q in space("serendipity_set_1d", 3, 1, k + 1)]
    raise ValueError(name)


def run_concrete(name, dim, rdim, k, vs, cell=None):
    P = mod()
    args = (dim, k) if rdim is None else (dim, rdim, k)
    vs = tuple(vs)
    kw = () if tuple(vs) == X else (vs,)
    got = [plain(p) for p in (P.polynomial_set(cell, k, *kw) if cell else getattr(P, name)(*args, *kw))]
    for v in got:
        stray = set().union(*[S(q).free_symbols for q in (v if isinstance(v, tuple) else (v,))]) - set(vs[:dim])
        if stray:
            return False, f"{name}{args} in the variables {vs} returned {v}, which depends on {stray}"
    ren = dict(zip(vs, X))
    tup = lambda v: tuple(q.subs(ren, simultaneous=True) for q in v) if isinstance(v, tuple) else (v.subs(ren, simultaneous=True),)  # noqa: E731
    got = [tup(v) for v in got]
    want = [v if isinstance(v, tuple) else (v,) for v in space(name, dim, rdim, k)]
    ext = list(X) + [1 - X[2]] if name.startswith("pyramid") else list(X)
    keys, rows = {}, []
    for v in got + want:
        row = {}
        for c, q in enumerate(v):
            for co, ex in generic.terms_with(q, ext):
                keys.setdefault((c,) + tuple(ex), len(keys))
                row[(c,) + tuple(ex)] = row.get((c,) + tuple(ex), 0) + co
        rows.append(row)
    from sympy.polys.matrices import DomainMatrix

    if not rows:
        return True, "empty"
    if not keys:
        return False, f"{name}({dim}, {k}) consists of zeros"
    mat = [[sympy.QQ.from_sympy(S(r.get(q, 0))) for q in keys] for r in rows]
    rk = lambda m: DomainMatrix(m, (len(m), len(keys)), sympy.QQ).rank() if m else 0  # noqa: E731
    ra, rb, rab = rk(mat[:len(got)]), rk(mat[len(got):]), rk(mat)
    ok = ra == len(got) == rb == rab
    return ok, f"{name}{args} has {len(got)} functions of rank {ra}; the space has dimension {rb}; together {rab}"


def concrete(R, name, dim, rdim, vs, top):
    for k in range(0 if "serendipity" not in name else 1, top + 1):
        if k == 0 and name in ("Hdiv_quolynomials", "Hcurl_quolynomials"):
            continue
        ok, text = run_concrete(name, dim, rdim, k, vs)
        R.bounded(f"order{k}", ok, text, {"kind": "concrete", "name": name, "dim": dim, "rdim": rdim, "k": k, "vs": [str(v) for v in vs]})


def run_refuse(name, args):
    try:
        r = getattr(mod(), name)(*args)
    except Exception:
        return True, ""
    return False, f"{name}{args} returned {len(r)} functions"


REFUSE = [("polynomial_set_1d", (0, 1)), ("polynomial_set_1d", (4, 1)), ("Hdiv_polynomials", (2, 3, 1)), ("Hdiv_polynomials", (1, 1, 1)),
          ("Hcurl_polynomials", (2, 3, 1)), ("Hcurl_polynomials", (1, 1, 1)), ("Hdiv_quolynomials", (2, 3, 1)), ("Hcurl_quolynomials", (3, 2, 1)),
          ("Hdiv_serendipity", (2, 3, 1)), ("Hcurl_serendipity", (3, 2, 1)), ("prism_polynomial_set_1d", (2, 1)),
          ("pyramid_polynomial_set_1d", (2, 1)), ("polynomial_set", ("unknown", 1)), ("Hdiv_serendipity", (1, 1, 1)), ("Hcurl_serendipity", (1, 1, 1))]


def refusals(R):
    for name, args in REFUSE:
        ok, text = run_refuse(name, args)
        R.ok(f"{name}{args}", ok, text, {"kind": "refuse", "name": name, "args": list(args)})


def run_bernstein(k, d):
    import symfem.elements.bernstein as B

    fs = [plain(f) for f in B.bernstein_polynomials(k, d, X)]
    lam = [1 - sum(X[:d])] + list(X[:d])
    want = {sympy.expand(sympy.factorial(k) * sympy.prod([l ** a / sympy.factorial(a) for l, a in zip(lam, e)]))
            for e in product(range(k + 1), repeat=d + 1) if sum(e) == k}
    got = [sympy.expand(f) for f in fs]
    return len(got) == len(want) and set(got) == want, f"Bernstein polynomials of degree {k} in {d}D: {got}"


def bernstein(R, top):
    for d in (1, 2, 3):
        for k in range(0, top - d + 3):
            ok, text = run_bernstein(k, d)
            R.bounded(f"{d}D-degree{k}", ok, text, {"kind": "bernstein", "k": k, "d": d})


def units(tier):
    u = []
    top = 4 if tier == "quick" else 7
    for vs in (X, U):
        v = "xyz" if vs == X else "uvw"
        for name, (dims, _) in SCALAR.items():
            for d in dims:
                u.append((f"{name}/{d}/{v}", scalar, name, d, vs))
                u.append((f"concrete/{name}/{d}/{v}", concrete, name, d, None, vs, top))
        for cell, (name, d) in CELLS.items():
            u.append((f"polynomial_set/{cell}/{v}", scalar, name, d, vs, cell))
        for name in VECTOR:
            for d in ((1, 2, 3) if name[0] in "pqs" and "prism" not in name and "pyramid" not in name else (3,)):
                for r in (1, 2, 3, 4):
                    u.append((f"{name}/{d}-{r}/{v}", vector, name, d, r, vs))
                u.append((f"concrete/{name}/{d}/{v}", concrete, name, d, d, vs, 2))
        for d in (2, 3):
            u.append((f"Hdiv_polynomials/{d}/{v}", hdiv_like, "Hdiv_polynomials", d, vs))
            for name in ("Hdiv_quolynomials", "Hcurl_quolynomials"):
                u.append((f"{name}/{d}/{v}", quo, name, d, vs))
            for name in ("Hdiv_serendipity", "Hcurl_serendipity"):
                u.append((f"{name}/{d}/{v}", serendipity_vector, name, d, vs))
            for name in ("Hdiv_polynomials", "Hcurl_polynomials", "Hdiv_quolynomials", "Hcurl_quolynomials", "Hdiv_serendipity", "Hcurl_serendipity"):
                u.append((f"concrete/{name}/{d}/{v}", concrete, name, d, d, vs, top))
        u.append((f"Hcurl_polynomials/2/{v}", hdiv_like, "Hcurl_polynomials", 2, vs))
        u.append((f"Hcurl_polynomials/3/{v}", hcurl3, vs))
        for d in (1, 2, 3):
            u.append((f"serendipity_set_1d/{d}/{v}", serendipity, d, vs))
            u.append((f"concrete/serendipity_set_1d/{d}/{v}", concrete, "serendipity_set_1d", d, None, vs, top))
    for d in (1, 2, 3):
        for done in range(d + 1):
            u.append((f"serendipity_indices/{d}/{done}", indices_contract, d, done))
    u.append(("refusals", refusals))
    u.append(("bernstein_polynomials", bernstein, top))
    return u


def replay(c):
    k = c["kind"]
    if k == "refuse":
        ok, text = run_refuse(c["name"], tuple(c["args"]))
        return not ok, text
    if k == "bernstein":
        ok, text = run_bernstein(c["k"], c["d"])
        return not ok, text
    if k == "indices":
        P = mod()
        d, lin, done = c["dim"], c["linear"], c["done"]
        for total in range(0, 7):
            for pre in product(range(total + 1), repeat=done):
                if sum(pre) > total or (done == d and sum(pre) != total):
                    continue
                got = [tuple(map(int, i)) for i in P.serendipity_indices(total, lin, d, *([list(pre)] if done else []))]
                want = {e for e in product(range(total + 1), repeat=d) if sum(e) == total and e.count(1) >= lin and e[:done] == pre}
                if len(got) != len(want) or set(got) != want:
                    return True, f"serendipity_indices({total}, {lin}, {d}, {pre}) = {got}, expected {sorted(want)}"
        return False, "as specified"
    vs = sympy.symbols(c["vs"])
    orders = [c["k"]] if "k" in c else range(0 if "serendipity" not in c["name"] else 1, 6)
    for o in orders:
        if o == 0 and c["name"] in ("Hdiv_quolynomials", "Hcurl_quolynomials"):
            continue
        try:
            ok, text = run_concrete(c["name"], c["dim"], c.get("rdim"), o, tuple(vs), c.get("cell"))
        except Exception as e:
            ok, text = False, f"{c['name']} order {o}: {e!r}"
        if not ok:
            return True, text
    return False, "as specified"
