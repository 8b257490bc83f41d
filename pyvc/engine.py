"""Symbolic execution of the loaded functions: every feasible path.

A unit calls `explore(fn)`.  While `fn` runs, a comparison whose operands hold
engine symbols (created by `sym`) yields a `SymBool`; when Python asks for its
truth value the engine decides it (z3: implied by the precondition and the path
so far, or its negation is) or forks.  Every feasible combination of decisions is
run, from the start, on the real code; the result is one `Path` per combination,
so that the disjunction of the path conditions covers every input admitted by the
precondition.
"""
import builtins
import itertools

from . import env  # noqa: F401
import sympy
from sympy.core.relational import Relational

from . import smt

_symbols = set()


class Abandon(BaseException):
    """The current path is infeasible."""


class PathLimit(Exception):
    pass


class Engine:
    def __init__(self):
        self.active = False
        self.pre = []
        self.pc = []
        self.script = []
        self.pos = 0
        self.work = []
        self.dens = []
        self.decisions = 0
        self.forks = 0
        self.indices = {}


E = Engine()


def sym(name, **kw):
    if not kw:
        kw = {"real": True}
    s = sympy.Symbol(name, **kw)
    _symbols.add(s)
    return s


def syms(names, **kw):
    return tuple(sym(n, **kw) for n in names.split())


def has_engine(e):
    fs = getattr(e, "free_symbols", None)
    return bool(fs) and not _symbols.isdisjoint(fs)


def only_engine(e):
    return e.free_symbols <= _symbols


class SymBool:
    """Truth value of a relation between engine symbols (or a conjunction)."""

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return decide(self.cond)

    def __invert__(self):
        return SymBool(sympy.Not(self.cond))

    def __eq__(self, other):
        return bool(self) == other

    def __hash__(self):
        return hash(bool(self))


def decide(cond):
    if cond is sympy.true or cond is True:
        return True
    if cond is sympy.false or cond is False:
        return False
    if not E.active:
        raise TypeError("cannot determine truth value outside explore(): %s" % (cond,))
    E.decisions += 1
    neg = sympy.Not(cond)
    if cond in E.pc:
        return True
    if neg in E.pc:
        return False
    if E.pos < len(E.script):
        take = E.script[E.pos]
        E.pos += 1
        E.pc.append(cond if take else neg)
        return take
    hyps = E.pre + E.pc
    if E.indices:
        # generic indices: a condition on an index is decided under the constraints of that index, and conditions
        # on indices decide nothing about the rest of the function
        ix = _index_closure(cond)
        hyps = E.pre + [c for c in E.pc if {s for s in c.free_symbols if s in E.indices} <= ix]
        local = [c for s in sorted(ix, key=str) for c in E.indices[s].constraints]
        if local and smt.sat(hyps + local) != "unsat":
            hyps = hyps + local
    can_t = smt.sat(hyps + [cond]) != "unsat"
    can_f = smt.sat(hyps + [neg]) != "unsat"
    if not can_t and not can_f:
        raise Abandon()
    if can_t and can_f:
        E.forks += 1
        E.work.append(E.script[: E.pos] + [False])
        E.script = E.script[: E.pos] + [True]
        E.pos += 1
        E.pc.append(cond)
        return True
    # decided: recorded too, so that a replayed script stays aligned
    E.script = E.script[: E.pos] + [can_t]
    E.pos += 1
    E.pc.append(cond if can_t else neg)
    return can_t


def _index_closure(cond):
    out, todo = set(), [s for s in cond.free_symbols if s in E.indices]
    while todo:
        s = todo.pop()
        if s not in out:
            out.add(s)
            todo += [q for c in E.indices[s].constraints for q in c.free_symbols if q in E.indices]
    return out


class Path:
    def __init__(self, pc, value, exc, dens, indices=()):
        self.indices = dict(indices)
        self.pc = pc
        self.value = value
        self.exc = exc
        self.dens = dens


def explore(fn, pre=(), max_paths=256):
    """All feasible paths of fn() under the precondition `pre`."""
    out = []
    E.pre = list(pre)
    E.work = [[]]
    E.active = True
    try:
        while E.work:
            E.script = E.work.pop()
            E.pos = 0
            E.pc = []
            E.dens = []
            E.indices = {}
            value = exc = None
            try:
                value = fn()
            except Abandon:
                continue
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except Exception as e:  # a contract decides whether raising is allowed
                exc = e
            out.append(Path(list(E.pc), value, exc, list(E.dens), E.indices))
            if len(out) > max_paths:
                raise PathLimit("more than %d paths" % max_paths)
    finally:
        E.active = False
        E.pc = []
    return out


# ------------------------------------------------------------------ hooks
_num = (int, float, sympy.Expr)


def _py(op, a, b):
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "in":
        return a in b
    return a not in b


def _symbolic(v, depth=0):
    if isinstance(v, sympy.Basic) or isinstance(v, sympy.MatrixBase):
        return has_engine(v)
    if isinstance(v, (tuple, list)) and depth < 4:
        return any(_symbolic(i, depth + 1) for i in v)
    return False


def _scalar(op, a, b):
    d = sympy.S(a) - sympy.S(b)
    if not has_engine(d):
        if not d.free_symbols:
            return _py(op, d, 0)
        return _py(op, a, b)
    if not only_engine(d):
        # a function of the formal variables with symbolic coefficients: Python
        # compares expressions structurally; so does the instrumented code
        return _py(op, a, b)
    num, den = smt.ratio(d)
    if den != 1:
        E.dens.append(den)
    if not num.free_symbols:
        if op == "==":
            return num == 0
        if op == "!=":
            return num != 0
    if num == 0:
        return _py(op, 0, 0)
    if op in ("==", "!="):
        c = sympy.Eq(num, 0)
        return SymBool(c if op == "==" else sympy.Not(c))
    if den == 1:
        q = num
    else:
        q = num * den  # same sign as num/den where den != 0
        q = smt.drop_squares(num, den)
    if not q.free_symbols:
        return _py(op, q, 0)
    if op == "<":
        return SymBool(q < 0)
    if op == "<=":
        return SymBool(q <= 0)
    if op == ">":
        return SymBool(q > 0)
    return SymBool(q >= 0)


def cmp_hook(op, a, b):
    if not E.active:
        return _py(op, a, b)
    if op in ("in", "not in"):
        if isinstance(b, (tuple, list)) and (_symbolic(a) or _symbolic(b)):
            for i in b:
                if a is i or cmp_hook("==", a, i):
                    return op == "in"
            return op == "not in"
        return _py(op, a, b)
    if isinstance(a, _num) and isinstance(b, _num):
        if has_engine(a) or has_engine(b):
            return _scalar(op, a, b)
        return _py(op, a, b)
    if type(a) is type(b) and isinstance(a, (tuple, list)) and op in ("==", "!="):
        if not (_symbolic(a) or _symbolic(b)):
            return _py(op, a, b)
        if len(a) != len(b):
            return op == "!="
        for i, j in zip(a, b):
            if i is j:
                continue
            if not cmp_hook("==", i, j):
                return op == "!="
        return op == "=="
    return _py(op, a, b)


def chain_hook(ops, *thunks):
    left = thunks[0]()
    res = True
    for op, th in zip(ops, thunks[1:]):
        right = th()
        res = cmp_hook(op, left, right)
        if op is not ops[-1] or th is not thunks[-1]:
            if not res:
                return res
        left = right
    return res


class GenericRange:
    """range(start, stop, step) with symbolic ends: can only be iterated by a comprehension or an append-only loop."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = sympy.S(start), sympy.S(stop), int(step)

    def __iter__(self):
        raise TypeError(f"range({self.start}, {self.stop}) has symbolic ends")

    __len__ = __getitem__ = __contains__ = __reversed__ = __iter__

    def fresh(self):
        k = sym(f"k{len(E.indices)}_", integer=True)
        if abs(self.step) == 1:
            c = [k >= self.start, k < self.stop] if self.step > 0 else [k <= self.start, k > self.stop]
            E.indices[k] = Index(c, self.stop - self.start if self.step > 0 else self.start - self.stop, self)
            return k
        c = [k >= 0, self.start + self.step * k < self.stop if self.step > 0 else self.start + self.step * k > self.stop]
        E.indices[k] = Index(c, None, self)
        return self.start + self.step * k


class Index:
    """A generic index: its constraints and (where it is polynomial) the number of its values."""

    def __init__(self, constraints, length, rng):
        self.constraints, self.length, self.range = constraints, length, rng


class GenericProduct:
    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        raise TypeError("product of symbolic ranges")


def range_hook(*args):
    if any(isinstance(a, sympy.Expr) and has_engine(a) for a in args):
        if len(args) == 1:
            start, stop, step = 0, args[0], 1
        else:
            start, stop, step = (args + (1,))[:3]
        n = sympy.expand(sympy.S(stop) - sympy.S(start))
        if n.is_Integer:
            return [start + i for i in builtins.range(0, int(n), int(step))]
        if not E.active:
            raise TypeError("symbolic range outside explore()")
        return GenericRange(start, stop, step)
    return builtins.range(*args)


def iter_hook(obj):
    if isinstance(obj, GenericRange):
        return [obj.fresh()]
    if isinstance(obj, GenericProduct):
        out = [()]
        for p in obj.parts:
            if isinstance(p, GenericRange):
                v = p.fresh()
                out = [o + (v,) for o in out]
            else:
                out = [o + (i,) for o in out for i in p]
        return out
    return obj


def product_hook(*its, repeat=1):
    if any(isinstance(i, GenericRange) for i in its):
        return GenericProduct(list(its) * int(repeat))
    return itertools.product(*its, repeat=repeat)


def rational_hook(*args):
    if E.active and any(has_engine(a) for a in args):
        return args[0] / sympy.S(args[1]) if len(args) == 2 else sympy.S(args[0])
    return sympy.Rational(*args)


def count_hook(obj, a):
    if E.active and isinstance(obj, (list, tuple)) and (_symbolic(obj) or _symbolic(a)):
        return sum(1 for i in obj if cmp_hook("==", a, i))
    return obj.count(a)


def index_hook(obj, a):
    if E.active and isinstance(obj, (list, tuple)) and (_symbolic(obj) or _symbolic(a)):
        for n, i in enumerate(obj):
            if cmp_hook("==", a, i):
                return n
        raise ValueError(f"{a} is not in list")
    return obj.index(a)


# relations that sympy builds itself (max(), min(), sorting, ...)
def _rel_bool(self):
    if E.active and has_engine(self) and only_engine(self):
        r = _scalar(self.rel_op if self.rel_op in ("==", "!=", "<", "<=", ">", ">=") else "==",
                    self.lhs, self.rhs)
        return bool(r)
    raise TypeError("cannot determine truth value of Relational: %s" % self)


Relational.__bool__ = _rel_bool
Relational.__nonzero__ = _rel_bool
