"""Reasoning about lists built by comprehensions and append-only loops over ranges with symbolic ends.

A path of such a function returns a list of items; an item that mentions generic indices stands for
{item(k) : k satisfies the constraints of the indices and the path condition}.
"""
from . import env  # noqa: F401
import sympy
from sympy import And, Not

from . import engine, smt


def closure(syms, indices):
    """The indices in syms and those that their ranges mention."""
    out = set()
    todo = [s for s in syms if s in indices]
    while todo:
        s = todo.pop()
        if s in out:
            continue
        out.add(s)
        for c in indices[s].constraints:
            todo += [q for q in c.free_symbols if q in indices]
    return out


class Item:
    """One generic member of a list: an expression, its indices and the condition under which it is there."""

    def __init__(self, value, path, free):
        self.value = value
        self.path = path
        ix = closure(free, path.indices)
        grew = True
        while grew:  # conditions that tie other indices to these
            grew = False
            for c in path.pc:
                q = {s for s in c.free_symbols if s in path.indices}
                if q & ix and not q <= ix:
                    ix |= closure(q, path.indices)
                    grew = True
        self.indices = ix
        self.cond = []
        for s in sorted(ix, key=str):
            self.cond += path.indices[s].constraints
        for c in path.pc:
            q = {s for s in c.free_symbols if s in path.indices}
            if q <= ix:
                self.cond.append(c)

    def key(self):
        return frozenset(self.indices), tuple(sorted(map(str, self.cond)))


def free(v):
    if isinstance(v, (tuple, list)):
        return set().union(*[free(i) for i in v]) if v else set()
    return sympy.S(v).free_symbols


def items(paths, value):
    """Items of all paths; the unused indices of the function (a sign of repeated members)."""
    out, used, made = [], set(), set()
    for p in paths:
        made |= set(p.indices)
        for v in p.value:
            w = value(v)
            it = Item(w, p, free(w))
            used |= it.indices
            out.append(it)
    return out, made - used


def terms(e, variables):
    """e as a list of (coefficient, exponents)."""
    e = sympy.expand(sympy.S(e))
    out = {}
    for t in sympy.Add.make_args(e):
        c, ex = sympy.Integer(1), [sympy.Integer(0)] * len(variables)
        for b, p in t.as_powers_dict().items():
            if b in variables:
                ex[list(variables).index(b)] += p
            else:
                c *= b ** p
        if c == 0:
            continue
        ex = tuple(sympy.expand(i) for i in ex)
        out[ex] = out.get(ex, 0) + c
    return [(sympy.expand(c), ex) for ex, c in out.items() if sympy.expand(c) != 0]


def terms_with(e, bases):
    """Like terms, for products of powers of bases that need not be symbols."""
    e = sympy.S(e)
    out = []
    for t in sympy.Add.make_args(e) if e.is_Add and e not in bases else [e]:
        c, ex = sympy.Integer(1), [sympy.Integer(0)] * len(bases)
        for b, p in (t.as_powers_dict().items() if t not in bases else [(t, sympy.Integer(1))]):
            if b in bases:
                ex[list(bases).index(b)] += p
            else:
                c *= b ** p
        if c != 0:
            out.append((c, tuple(sympy.expand(i) for i in ex)))
    return out


def solve_linear(eqs, unknowns):
    """The unique solution of integer-linear equations, or None."""
    unknowns = sorted(unknowns, key=str)
    if not unknowns:
        return {}
    sol = sympy.linsolve([sympy.expand(e) for e in eqs], unknowns)
    if not sol:
        return None
    s = list(sol)[0]
    if any(v.free_symbols & set(unknowns) for v in s):
        return None
    return dict(zip(unknowns, s))


class Region:
    """{e(k) : cond(k)} as a condition on the target symbols."""

    def __init__(self, exps, item, target):
        self.item = item
        n = len(target)
        # choose equations to solve for the indices, the rest become conditions
        sol = solve_any([a - b for a, b in zip(exps, target)], item.indices)
        if sol is None:
            raise ValueError(f"the index map {exps} is not invertible")
        self.sol = sol
        conds = [sympy.Eq(sympy.expand(a.subs(sol) - b), 0) for a, b in zip(exps, target)]
        conds += [c.subs(sol) for c in item.cond]
        integral = [v for v in sol.values() if not all(q.is_Integer for q in sympy.Poly(v, *sorted(
            v.free_symbols, key=str)).coeffs())] if any(v.free_symbols for v in sol.values()) else []
        if integral:
            raise ValueError("the inverse index map is not integral")
        self.cond = And(*conds)
        self.n = n


def solve_any(eqs, unknowns):
    """Solve a subset of the (consistent) equations that determines the unknowns."""
    unknowns = sorted(unknowns, key=str)
    if not unknowns:
        return {}
    m = sympy.Matrix([[sympy.expand(e).coeff(u, 1) for u in unknowns] for e in eqs])
    if any(sympy.expand(e).has(*unknowns) and sympy.Poly(sympy.expand(e), *unknowns).total_degree() > 1 for e in eqs):
        return None
    rows = []
    for i in range(m.rows):
        if m.extract(rows + [i], list(range(m.cols))).rank() == len(rows) + 1:
            rows.append(i)
    if len(rows) < len(unknowns):
        return None
    return solve_linear([eqs[i] for i in rows], unknowns)


def same_set(R, name, its, exps_of, spec, target, pre, case=None):
    """{exps(it)} over all items == {e : spec(e)}, without repetition, for all parameters with pre.

    exps_of(item) -> (exponents, side condition that must hold for the item to be well formed)"""
    regs = []
    for n, it in enumerate(its):
        ex = exps_of(it)
        if ex is None:
            R.undecided(f"{name}/item{n}/shape", f"{it.value}", [case] if case else None)
            return False
        R.implies(f"{name}/item{n}/belongs", list(pre) + it.cond, spec(ex), (lambda m: case) if case else None)
        try:
            regs.append(Region(ex, it, target))
        except ValueError as e:
            R.undecided(f"{name}/item{n}/region", str(e), [case] if case else None)
            return False
    R.implies(f"{name}/complete", list(pre) + [spec(target)], sympy.Or(*[r.cond for r in regs]),
              (lambda m: case) if case else None)
    for i in range(len(its)):
        for j in range(i):
            a, b = its[i], its[j]
            same = a.key()[0] == b.key()[0] and a.value == b.value
            if same and a.path is not b.path:
                continue  # the same member seen on two paths
            R.implies(f"{name}/distinct{j}-{i}", list(pre) + [regs[i].cond, regs[j].cond], sympy.false,
                      (lambda m: case) if case else None)
    return True


def order_symbol(name="n"):
    return engine.sym(name, integer=True)


__all__ = ["items", "terms", "same_set", "Item", "Region", "smt", "Not"]
