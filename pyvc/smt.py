"""z3 back end and polynomial (ring) normaliser."""
import time

from . import env  # noqa: F401
import sympy
import z3
from sympy.core.function import AppliedUndef
from sympy.polys.domains import QQ
from sympy.polys.orderings import lex
from sympy.polys.rings import PolyRing

STATS = {"z3_calls": 0, "z3_time": 0.0, "ring_calls": 0, "ring_time": 0.0}
RLIMIT = 30_000_000  # deterministic budget per query
TIMEOUT_MS = 60_000


class Untranslatable(Exception):
    pass


class Ctx:
    def __init__(self, ints=False):
        self.ints = ints
        self.side = []
        self.cache = {}
        self.n = 0


def tr(e, c):
    e = sympy.S(e)
    k = e
    if k in c.cache:
        return c.cache[k]
    r = _tr(e, c)
    c.cache[k] = r
    return r


def _tr(e, c):
    if e is sympy.true:
        return z3.BoolVal(True)
    if e is sympy.false:
        return z3.BoolVal(False)
    if isinstance(e, sympy.And):
        return z3.And(*[tr(a, c) for a in e.args])
    if isinstance(e, sympy.Or):
        return z3.Or(*[tr(a, c) for a in e.args])
    if isinstance(e, sympy.Not):
        return z3.Not(tr(e.args[0], c))
    if isinstance(e, sympy.Implies):
        return z3.Implies(tr(e.args[0], c), tr(e.args[1], c))
    if isinstance(e, sympy.Equivalent):
        a = [tr(i, c) for i in e.args]
        return z3.And(*[a[0] == i for i in a[1:]])
    if isinstance(e, sympy.Eq):
        return _cmp(e, c, lambda a, b: a == b)
    if isinstance(e, sympy.Ne):
        return _cmp(e, c, lambda a, b: a != b)
    if isinstance(e, sympy.Lt):
        return _cmp(e, c, lambda a, b: a < b)
    if isinstance(e, sympy.Le):
        return _cmp(e, c, lambda a, b: a <= b)
    if isinstance(e, sympy.Gt):
        return _cmp(e, c, lambda a, b: a > b)
    if isinstance(e, sympy.Ge):
        return _cmp(e, c, lambda a, b: a >= b)
    if e.is_Symbol:
        if e.is_integer:
            return z3.Int(e.name)
        return z3.Real(e.name)
    if e.is_Integer:
        return z3.IntVal(int(e)) if c.ints else z3.RealVal(int(e))
    if e.is_Rational:
        return z3.RealVal(f"{e.p}/{e.q}")
    if e.is_Float:
        q = sympy.Rational(e)
        return z3.RealVal(f"{q.p}/{q.q}")
    if e.is_Add:
        r = tr(e.args[0], c)
        for a in e.args[1:]:
            r = r + tr(a, c)
        return r
    if e.is_Mul:
        r = tr(e.args[0], c)
        for a in e.args[1:]:
            r = r * tr(a, c)
        return r
    if e.is_Pow:
        b, x = e.args
        if x.is_Integer:
            n = int(x)
            zb = tr(b, c)
            r = zb
            for _ in range(abs(n) - 1):
                r = r * zb
            return r if n > 0 else 1 / real(r)
        if x.is_Rational and x.q == 2:
            zb = tr(b, c)
            s = z3.Real(f"_sqrt{c.n}")
            c.n += 1
            c.side += [s >= 0, s * s == zb]
            n = int(x.p)
            r = s
            for _ in range(abs(n) - 1):
                r = r * s
            return r if n > 0 else 1 / r
        raise Untranslatable(str(e))
    if isinstance(e, sympy.Abs):
        a = tr(e.args[0], c)
        return z3.If(a >= 0, a, -a)
    if isinstance(e, sympy.floor):
        return z3.ToInt(tr(e.args[0], c))
    if isinstance(e, (sympy.Max, sympy.Min)):
        a = [tr(i, c) for i in e.args]
        r = a[0]
        for b in a[1:]:
            r = z3.If(r >= b, r, b) if isinstance(e, sympy.Max) else z3.If(r <= b, r, b)
        return r
    raise Untranslatable(f"{type(e).__name__}: {e}")


def real(a):
    return z3.ToReal(a) if a.is_int() else a


def _cmp(e, c, f):
    return f(tr(e.args[0], c), tr(e.args[1], c))


def _solver(fs):
    c = Ctx(any(q.is_integer for f in fs for q in getattr(f, "free_symbols", ())))
    zs = [tr(f, c) for f in fs]
    s = z3.Solver()
    s.set("rlimit", RLIMIT)
    s.set("timeout", TIMEOUT_MS)
    s.set("random_seed", 0)
    for z in c.side + zs:
        s.add(z)
    return s


def sat(fs, want_model=False):
    fs = [f for f in fs if f is not sympy.true and f is not True]
    if any(f is sympy.false or f is False for f in fs):
        return ("unsat", None) if want_model else "unsat"
    t = time.time()
    STATS["z3_calls"] += 1
    try:
        s = _solver(fs)
        r = str(s.check())
        if want_model:
            m = None
            if r == "sat":
                m = {}
                zm = s.model()
                for d in zm.decls():
                    v = zm[d]
                    if d.name().startswith("_sqrt") or d.arity() > 0:
                        continue
                    m[d.name()] = _val(v)
            return r, m
        return r
    except Untranslatable as e:
        return (f"unknown: {e}", None) if want_model else "unknown"
    finally:
        STATS["z3_time"] += time.time() - t


def _val(v):
    if z3.is_rational_value(v):
        return sympy.Rational(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return sympy.Integer(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return sympy.Rational(a.numerator_as_long(), a.denominator_as_long())
    return None


# ------------------------------------------------------------ ring normaliser
def ratio(d):
    """d == num/den with coprime polynomials (where the denominators of d are not 0)."""
    t = time.time()
    STATS["ring_calls"] += 1
    d = sympy.S(d)
    try:
        if _has_inverse(d):
            n, den = sympy.fraction(sympy.cancel(sympy.together(d)))
            n = sympy.expand(n)
            if den.is_number:
                return sympy.expand(n / den), sympy.Integer(1)
            return n, den
        return sympy.expand(d), sympy.Integer(1)
    finally:
        STATS["ring_time"] += time.time() - t


def _has_inverse(d):
    return any(p.exp.is_negative for p in d.atoms(sympy.Pow) if p.exp.is_number and p.base.free_symbols)


def drop_squares(num, den):
    """A polynomial with the sign of num/den where den != 0."""
    q = num
    for f, m in sympy.factor_list(den)[1]:
        if m % 2:
            q = q * f
    c = sympy.factor_list(den)[0]
    if c < 0:
        q = -q
    return q


def normal_args(e):
    """Arguments of uninterpreted functions (also under derivatives) in a normal form."""
    if not e.has(AppliedUndef):
        return e

    def go(q):
        if isinstance(q, AppliedUndef):
            return q.func(*[rat_normal(a) for a in q.args])
        if isinstance(q, sympy.Subs):
            return sympy.Subs(q.expr, q.variables, tuple(rat_normal(a) for a in q.point))
        return q

    return e.replace(lambda q: isinstance(q, (AppliedUndef, sympy.Subs)), go)


def rat_normal(a):
    a = sympy.S(a)
    if a.is_Symbol or a.is_number:
        return a
    a = a.replace(lambda q: isinstance(q, sympy.Abs), lambda q: sympy.Abs(sympy.expand(q.args[0])))
    return sympy.cancel(sympy.together(a)) if _has_inverse(a) else sympy.expand(a)


def lowest_terms(e):
    try:
        gens = _atoms(e)
        if not gens:
            return sympy.S(e), sympy.Integer(1)
        f = _Frac(sorted(gens, key=str))
        n, d = f.ev(e)
        den = f.one
        for k, v in d.items():
            den = den * k ** v
        if not n:
            return sympy.Integer(0), sympy.Integer(1)
        n, den = n.cancel(den)
        return n.as_expr(), den.as_expr()
    except NotPolynomial:
        return sympy.fraction(sympy.cancel(sympy.together(e)))


def _roots_to_symbols(e):
    """sqrt(p) and Abs(p) as symbols s with s**2 == q; returns (expression, [(s, q)])."""
    rel = []
    names = {}

    def root(arg):
        """sqrt(arg): sqrt(n/d) with n a positive number is sqrt(n)/sqrt(d)."""
        n, d = lowest_terms(arg)
        if d.is_number:
            key, inv = sympy.expand(n / d), False
        elif n.is_number and n.is_positive:
            key, inv = sympy.expand(d / n), True
        else:
            key, inv = n / d, False
        if key not in names:
            names[key] = sympy.Dummy(f"r{len(rel)}", nonnegative=True)
            rel.append((names[key], key))
        return 1 / names[key] if inv else names[key]

    def go(q):
        if isinstance(q, sympy.Abs):
            a = sympy.expand(q.args[0])
            if a.is_number:
                return q
            if a.could_extract_minus_sign():
                a = sympy.expand(-a)
            key = ("abs", a)
            if key not in names:
                names[key] = sympy.Dummy(f"a{len(rel)}", nonnegative=True)
                rel.append((names[key], sympy.expand(a ** 2)))
            return names[key]
        if q.exp.q == 2:
            return root(q.base) ** (2 * q.exp)
        return q

    # innermost first, so that the relations of nested roots are in terms of symbols
    e = e.replace(lambda q: isinstance(q, sympy.Abs) or (
        q.is_Pow and q.exp.is_Rational and not q.exp.is_Integer), go)
    return e, rel


class NotPolynomial(Exception):
    pass


class _Frac:
    """Exact evaluation of a rational expression to numerator / product of powers, no gcds."""

    def __init__(self, gens):
        self.gens = list(gens)
        self.ring = PolyRing(self.gens, QQ, lex) if self.gens else None
        self.idx = {g: self.ring.gens[i] for i, g in enumerate(self.gens)}
        self.one = self.ring.one
        self.cache = {}

    def mono(self, n):
        """n == c * m with m monic."""
        c = n.LC
        return c, n.quo_ground(c)

    def ev(self, e):
        r = self.cache.get(e)
        if r is None:
            r = self.cache[e] = self._ev(e)
        return r

    def _ev(self, e):
        g = self.idx.get(e)
        if g is not None:
            return g, {}
        if e.is_Rational:
            return self.ring.ground_new(QQ(e.p, e.q)), {}
        if e.is_Float:
            q = sympy.Rational(e)
            return self.ring.ground_new(QQ(q.p, q.q)), {}
        if e.is_Add:
            return self.add([self.ev(a) for a in e.args])
        if e.is_Mul:
            n, d = self.one, {}
            for a in e.args:
                m, f = self.ev(a)
                n = n * m
                for k, v in f.items():
                    d[k] = d.get(k, 0) + v
            return self.tidy(n, d)
        if e.is_Pow and e.exp.is_Integer:
            n, d = self.ev(e.base)
            k = int(e.exp)
            if k >= 0:
                return n ** k, {a: b * k for a, b in d.items()}
            k = -k
            if not n:
                raise ZeroDivisionError(str(e))
            num = self.one
            for a, b in d.items():
                num = num * a ** (b * k)
            if n.is_ground:
                return num.quo_ground(n.LC ** k), {}
            c, m = self.mono(n)
            return num.quo_ground(c ** k), {m: k}
        raise NotPolynomial(str(e))

    def tidy(self, n, d):
        if not n:
            return n, {}
        out = {}
        for k, v in d.items():
            while v:
                q, r = n.div(k) if len(n) >= len(k) else (None, self.one)
                if r:
                    break
                n, v = q, v - 1
            if v:
                out[k] = v
        return n, out

    def add(self, parts):
        lcm = {}
        for _, d in parts:
            for k, v in d.items():
                lcm[k] = max(lcm.get(k, 0), v)
        n = self.ring.zero
        for m, d in parts:
            for k, v in lcm.items():
                if v > d.get(k, 0):
                    m = m * k ** (v - d.get(k, 0))
            n = n + m
        return n, (lcm if n else {})

    def reduce(self, n, s, q):
        """numerator with s**2 replaced by q (the denominators it brings are dropped)."""
        i = self.gens.index(s)
        if not any(m[i] >= 2 for m in n.itermonoms()):
            return n
        qn, qd = self.ev(q)
        den = self.one
        for k, v in qd.items():
            den = den * k ** v
        groups = {}
        for m, c in n.iterterms():
            m2 = list(m)
            m2[i] = m[i] % 2
            h = m[i] // 2
            groups.setdefault(h, {})[tuple(m2)] = c
        top = max(groups)
        out = self.ring.zero
        for h, t in groups.items():
            out = out + self.ring.from_dict(t) * qn ** h * den ** (top - h)
        return out


def _atoms(e):
    if e.is_Add or e.is_Mul:
        r = set()
        for a in e.args:
            r |= _atoms(a)
        return r
    if e.is_Pow and e.exp.is_Integer:
        return _atoms(e.base)
    if e.is_number and (e.is_Rational or e.is_Float):
        return set()
    return {e}


def numerator_vanishes(e, rel):
    """The numerator of e, reduced by s**2 = q for (s, q) in rel, is the zero polynomial."""
    gens = _atoms(e)
    for s, q in rel:
        gens |= {s} | _atoms(q)
    if not gens:
        return e == 0
    f = _Frac(sorted(gens, key=str))
    n, _ = f.ev(e)
    for s, q in reversed(rel):
        if not n:
            return True
        n = f.reduce(n, s, q)
    return not n


def is_zero(e):
    """e vanishes identically (as a rational function, modulo sqrt(a)^2 = a, |a|^2 = a^2)."""
    t = time.time()
    STATS["ring_calls"] += 1
    try:
        e = sympy.S(e)
        if e == 0:
            return True
        e = normal_args(e)
        f, rel = _roots_to_symbols(e)
        if numerator_vanishes(f, rel):
            return True
        # algebraic numbers / square roots left over
        roots = [p for p in e.atoms(sympy.Pow) if p.exp.is_Rational and not p.exp.is_Integer]
        if roots or e.has(sympy.Abs):
            n = sympy.fraction(sympy.together(sympy.expand(e)))[0]
            n = sympy.expand(sympy.radsimp(sympy.simplify(sympy.expand(n))))
            return n == 0
        if e.free_symbols or e.atoms(AppliedUndef) or e.is_Rational:
            # e.g. exp, sin, symbolic exponents: the expression-level normal form
            if any(not (a.is_Symbol or isinstance(a, (AppliedUndef, sympy.Derivative, sympy.Subs))) for a in _atoms(f)):
                return sympy.expand(sympy.fraction(sympy.together(sympy.expand(e)))[0]) == 0
            return False
        return sympy.simplify(e) == 0
    finally:
        STATS["ring_time"] += time.time() - t
