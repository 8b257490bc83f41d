"""Q01: quadrature rules are exact to their nominal degree."""
from pyvc import env  # noqa: F401

import sympy

from pyvc import engine, smt
from pyvc.exact import zero_number
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("The equispaced rule is executed with a symbolic number of points; the sums of its weights are discharged by induction on partial sums. The other "
              "families are executed with a symbolic number of points: every path that returns a rule is decided with exact algebraic numbers, every other "
              "path raises, so that the numbers of points are covered without a bound. The use of the points by elements is checked for listed orders (bounded).")
TRUSTED = ["sympy evaluates expressions in square roots to any number of digits (zero test at 60 digits for algebraic numbers)"]
ASSUMPTIONS = ["numbers of points are integers, at least 2 (equispaced) or 1"]
BOUNDS = "bounded stand-in: equispaced rules with 2 to 40 points; elements of order up to 6 use the points of the rule they are asked for"
S = sympy.S
FAMILIES = ("equispaced", "lobatto", "radau", "legendre")
OFFERED = {"lobatto": range(2, 8), "radau": range(2, 4), "legendre": range(1, 4)}
NAMES = {"equispaced": "equispaced", "lobatto": "lobatto", "gll": "lobatto", "radau": "radau", "legendre": "legendre"}
UNKNOWN = ("", "gauss", "Legendre", "equispaced ", "lobato", "gauss-legendre", None, 3)


def mod():
    import symfem.quadrature as Q

    return Q


def degree(family, n):
    """The nominal degree of exactness."""
    return {"equispaced": 1, "lobatto": 2 * n - 3, "radau": 2 * n - 2, "legendre": 2 * n - 1}[family]


def less(a, b):
    """a <= b for real algebraic numbers."""
    d = S(b) - S(a)
    return zero_number(d) or bool(sympy.N(d, 60, maxn=400) > 0)


def real(a):
    a = S(a)
    return a.is_number and not a.free_symbols and a.is_finite is not False and a.is_real is not False and a is not S.NaN


def faults(family, n, rule):
    """What is wrong with the rule."""
    out = []
    try:
        p, w = rule
        p, w = list(p), list(w)
    except Exception as ex:
        return [("shape", repr(ex))]
    if len(p) != n or len(w) != n:
        return [("number", f"{len(p)} points and {len(w)} weights instead of {n}")]
    if not all(real(i) for i in p + w):
        return [("real", f"{p}, {w}")]
    for i, a in enumerate(p):
        if not (less(0, a) and less(a, 1)):
            out.append(("in-cell", f"point {i} is {a}"))
    for i in range(n):
        for j in range(i):
            if zero_number(S(p[i]) - S(p[j])):
                out.append(("distinct", f"points {j} and {i} are both {p[i]}"))
    ends = {"equispaced": (0, 1), "lobatto": (0, 1), "radau": (0,), "legendre": ()}[family]
    for e in ends:
        if not any(zero_number(S(a) - e) for a in p):
            out.append(("end-points", f"{e} is not a point: {p}"))
    if family == "equispaced":
        for i in range(n):
            if not zero_number(S(p[i]) - sympy.Rational(i, n - 1)):
                out.append(("equispaced", f"point {i} is {p[i]}"))
    for k in range(degree(family, n) + 1):
        d = sum((S(b) * S(a) ** k for a, b in zip(p, w)), S(0)) - sympy.Rational(1, k + 1)
        if not zero_number(d):
            out.append(("weights" if k == 0 else "exactness", f"the integral of x^{k} is off by {sympy.N(d, 10)}"))
    return out


# --------------------------------------------------------------------------- families with a fixed list of rules
def get(family, n, via):
    Q = mod()
    return getattr(Q, family)(n) if via is None else Q.get_quadrature(via, n)


def run_rule(family, n, via=None):
    try:
        r = get(family, n, via)
    except Exception as ex:
        if family in OFFERED and n not in OFFERED[family] and isinstance(ex, (NotImplementedError, ValueError)):
            return True, "refused"
        return False, f"raises {ex!r}"
    f = faults(family, n, r)
    return not f, f"{via or family} with {n} points: " + "; ".join(f"{a}: {b}" for a, b in f[:3])


def listed(R, family):
    """Each rule of the family, directly and by name."""
    for n in OFFERED[family]:
        for via in [None] + [k for k, v in NAMES.items() if v == family]:
            case = {"kind": "rule", "family": family, "n": n, "via": via}
            ok, why = run_rule(family, n, via)
            R.ok(f"{n}/{via or 'direct'}", ok, why, case)


def paths(R, family):
    """For every other number of points: refused, or a rule with the property."""
    n = engine.sym("n", integer=True)
    known = OFFERED[family]
    for via in [None] + [k for k, v in NAMES.items() if v == family]:
        tag = via or "direct"
        try:
            ps = engine.explore(lambda: get(family, n, via), [n >= 1], 400)
            if any(p.exc is not None and not isinstance(p.exc, NotImplementedError) for p in ps):
                raise TypeError([p.exc for p in ps if p.exc is not None][0])
        except Exception as ex:  # selected in a way that cannot be followed symbolically
            for m in range(1, 21):
                ok, why = run_rule(family, m, via)
                R.bounded(f"{tag}/{m}", ok, f"{why} ({ex!r})"[:300], {"kind": "rule", "family": family, "n": m, "via": via})
            continue
        for k, p in enumerate(ps):
            if p.exc is not None:
                R.implies(f"{tag}/path{k}/refused-only-outside", [n >= 1] + p.pc, sympy.And(*[sympy.Ne(n, m) for m in known]),
                          lambda m: {"kind": "rule", "family": family, "n": int(m.get("n", 1)), "via": via})
                continue
            values = [m for m in range(1, 64) if smt.sat(p.pc + [sympy.Eq(n, m)]) != "unsat"]
            R.implies(f"{tag}/path{k}/fixed-number", [n >= 1] + p.pc, sympy.Or(*[sympy.Eq(n, m) for m in values[:8]]),
                      lambda m: {"kind": "rule", "family": family, "n": int(m.get("n", 1)), "via": via})
            for m in values[:8]:
                f = faults(family, m, p.value)
                R.ok(f"{tag}/path{k}/{m}", not f, str(f[:3]), {"kind": "rule", "family": family, "n": m, "via": via})


# --------------------------------------------------------------------------- equispaced, any number of points
def generic_list(ps, part):
    """The list as [(value, condition)] of its entry at position k (a symbol), where that can be read off; else None."""
    out = []
    k = sympy.Symbol("pos", integer=True)
    engine._symbols.add(k)
    for p in ps:
        v = list(p.value[part])
        if len(v) != 1:
            return None
        v = S(v[0])
        ix = [s for s in p.indices if s in v.free_symbols or any(s in c.free_symbols for c in p.pc)]
        mine = None
        for s in p.indices:
            r = p.indices[s].range
            if getattr(r, "step", None) != 1 or r.start != 0:
                return None
        if part >= len(p.indices):
            return None
        mine = list(p.indices)[part]
        if not v.free_symbols <= {mine} | {s for s in v.free_symbols if s not in p.indices}:
            return None
        conds = [c for c in p.pc if not any(s in c.free_symbols for s in p.indices if s != mine)]
        del ix
        out.append((v.subs(mine, k), [c.subs(mine, k) for c in conds], p.indices[mine].range.stop))
    return k, out


def equispaced(R, via):
    n = engine.sym("n", integer=True)
    pre = [n >= 2]
    R.cover("pre", pre)

    def case(m):
        return {"kind": "rule", "family": "equispaced", "n": max(2, int(m.get("n", 2))), "via": via}

    try:
        ps = engine.explore(lambda: get("equispaced", n, via), pre, 64)
        if any(p.exc is not None for p in ps):
            raise TypeError([p.exc for p in ps if p.exc is not None][0])
        k, pts = generic_list(ps, 0)
        k, wts = generic_list(ps, 1)
    except Exception as ex:  # written in a form that the loop rule does not cover
        for m in range(2, 16):
            ok, why = run_rule("equispaced", m, via)
            R.bounded(f"fallback/{m}", ok, f"{why} ({ex!r})"[:300], case({"n": m}))
        return
    inside = [k >= 0, k < n]
    for j, (v, c, stop) in enumerate(pts):
        R.zero(f"point{j}/number", stop - n, pre, case)
        R.zero(f"point{j}/equispaced", v * (n - 1) - k, pre + inside + c, case)
    total = sympy.And(*pre, *inside)
    R.implies("point/every-position", [total], sympy.Or(*[sympy.And(*c) for _, c, _ in pts]), case)
    R.implies("weight/every-position", [total], sympy.Or(*[sympy.And(*c) for _, c, _ in wts]), case)
    for j, (v, c, stop) in enumerate(wts):
        R.zero(f"weight{j}/number", stop - n, pre, case)
        hyp = pre + inside + c
        for what, mom in (("sum", 0), ("first-moment", 1)):
            for side, cond in (("first", [sympy.Eq(k, 0)]), ("middle", [k >= 1, k <= n - 2]), ("last", [k >= 1, sympy.Eq(k, n - 1)])):
                h = hyp + cond
                if smt.sat(h) == "unsat":
                    continue
                lo = S(0) if side == "first" else partial(mom, k, n)
                hi = partial(mom, S(1), n) if side == "first" else partial(mom, k + 1, n) if side == "middle" else S(1) / (mom + 1)
                R.zero(f"weight{j}/{what}/{side}", sympy.together(hi - lo - v * (k / (n - 1)) ** mom), h, case)


def partial(mom, m, n):
    """Sum of the first m terms (1 <= m <= n - 1): each inner weight is 1/(n-1), the first is half of that."""
    if mom == 0:
        return (2 * m - 1) / (2 * (n - 1))
    return m * (m - 1) / (2 * (n - 1) ** 2)


def concrete(R, lo, hi):
    for m in range(lo, hi):
        for via in (None, "equispaced"):
            ok, why = run_rule("equispaced", m, via)
            R.bounded(f"{m}/{via or 'direct'}", ok, why, {"kind": "rule", "family": "equispaced", "n": m, "via": via})


# --------------------------------------------------------------------------- names
def run_name(name):
    try:
        mod().get_quadrature(name, 3)
    except ValueError:
        return True, ""
    except Exception as ex:
        return False, f"{name!r} raises {ex!r}"
    return False, f"{name!r} is accepted"


def names(R):
    for u in UNKNOWN[:6]:
        ok, why = run_name(u)
        R.bounded(f"unknown/{u}", ok, why, {"kind": "name", "name": u})


# --------------------------------------------------------------------------- where the rules are used
USES = [("Lagrange", "interval"), ("Q", "quadrilateral"), ("Lagrange", "prism")]


def run_use(element, cell, variant, order):
    """The points of the element on the edge from vertex 0 to vertex 1 (interval: the cell) are those of the rule."""
    import symfem

    try:
        rule = mod().get_quadrature(variant, order + 1)[0]
        e = symfem.create_element(cell, element, order, variant=variant)
    except NotImplementedError:
        return True, "refused"
    got = []
    for d in e.dofs:
        p = d.dof_point()
        if p is None or any(c is None for c in p):
            return True, "not point evaluations"
        if all(zero_number(c) for c in p[1:]):
            got.append(S(p[0]))
    if len(got) != len(rule) or any(not any(zero_number(a - S(b)) for b in rule) for a in got):
        return False, f"{element} on {cell} with {variant} points: {got} instead of {rule}"
    return True, ""


def uses(R, element, cell):
    for variant in NAMES:
        if variant in ("legendre", "lobatto", "radau"):  # other variants have these names; Radau points have one end point only
            continue
        for order in range(1, 7):
            try:
                ok, why = run_use(element, cell, variant, order)
            except Exception as ex:
                ok, why = False, repr(ex)
            R.bounded(f"{variant}/{order}", ok, why, {"kind": "use", "element": element, "cell": cell, "variant": variant, "order": order})


def replay(case):
    k = case["kind"]
    if k == "rule":
        ok, why = run_rule(case["family"], case["n"], case["via"])
    elif k == "name":
        ok, why = run_name(case["name"])
    else:
        ok, why = run_use(case["element"], case["cell"], case["variant"], case["order"])
    return not ok, why


def units(tier):
    out = []
    for f in OFFERED:
        out.append((f"{f}/listed", lambda R, f=f: listed(R, f)))
        out.append((f"{f}/all", lambda R, f=f: paths(R, f)))
    for via in (None, "equispaced"):
        out.append((f"equispaced/{via or 'direct'}", lambda R, via=via: equispaced(R, via)))
    out.append(("equispaced/concrete", lambda R: concrete(R, 2, 41)))
    out.append(("names", names))
    for e, c in USES:
        out.append((f"use/{e}-{c}", lambda R, e=e, c=c: uses(R, e, c)))
    return out
