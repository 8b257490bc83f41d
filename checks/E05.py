"""E05: tensor-product factorisations reproduce the basis."""
from pyvc import env  # noqa: F401
import itertools
import random

import sympy

from checks.F01 import func
from pyvc.exact import zero_number, zero_poly
from pyvc.spec import X

LEVEL = "proof"
LEVEL_NOTE = ("_get_basis_functions_tensor runs on factors with uninterpreted basis functions and permutations: the result is proved to be, at "
              "each position, the product of the factors' functions in their own variables. The factorisations that elements offer are compared "
              "with their dual bases on the listed orders (bounded).")
TRUSTED = ["get_basis_functions without factorisation returns the dual basis (property E01)"]
ASSUMPTIONS = ["up to three factors of up to three functions in the symbolic obligations"]
BOUNDS = "factors: 1-3 with 1-3 functions; elements: every registered class, cell and variant, functions compared up to degree 4 (quadrilateral), 2 (hexahedron; lower for irrational nodes), nodes up to degree 8 / 6"
S = sympy.S


def factor(n, tag):
    class F:
        space_dim = n

        def get_basis_functions(self, use_tensor_factorisation=False):
            return [func(sympy.Function(f"{tag}{i}")(X[0])) for i in range(n)]

    return F()


def host(factorisation, kind="direct"):
    import symfem
    from symfem.finite_element import FiniteElement

    class H(FiniteElement):
        def __init__(self):
            super().__init__(symfem.create_reference("quadrilateral"), 1, 1, 2, 1)

        def get_tensor_factorisation(self):
            return factorisation

        def get_basis_functions(self, use_tensor_factorisation=False):
            return self._get_basis_functions_tensor()

        dof_plot_positions = dof_directions = dof_entities = entity_dofs = map_to_cell = get_polynomial_basis = None
        maximum_degree = 1

    return H()


def run_tensor(parts):
    """parts: [(sizes of the factors, permutation)]."""
    fac, want = [], {}
    for k, (sizes, perm) in enumerate(parts):
        fs = [factor(n, f"F{k}_{i}_") for i, n in enumerate(sizes)]
        fac.append(("scalar", fs, list(perm)))
        for p, ix in zip(perm, itertools.product(*[range(n) for n in sizes])):
            want[p] = sympy.prod([sympy.Function(f"F{k}_{i}_{j}")(X[i]) for i, j in enumerate(ix)])
    got = [f.as_sympy() for f in host(fac)._get_basis_functions_tensor()]
    if len(got) != len(want):
        return False, f"{len(got)} functions instead of {len(want)}"
    for i, f in enumerate(got):
        if sympy.expand(f - want[i]) != 0:
            return False, f"function {i} is {f} instead of {want[i]}"
    return True, ""


def tensor(R):
    rng = random.Random(7)
    cases = []
    for sizes in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 2, 3), (3, 2, 1),
                  (3, 3, 3)]:
        n = 1
        for s in sizes:
            n *= s
        if n <= 4:
            perms = list(itertools.permutations(range(n)))
        else:
            perms = [list(range(n)), list(range(n))[::-1]]
            for _ in range(8):
                p = list(range(n))
                rng.shuffle(p)
                perms.append(p)
        cases += [[(sizes, list(p))] for p in perms]
    cases += [[((2, 2), [0, 4, 2, 5]), ((2,), [3, 1])], [((1, 1), [3]), ((2,), [0, 2]), ((1, 1, 1), [1])], [((2,), [2, 0]), ((3,), [1, 4, 3])]]
    for c in cases:
        try:
            ok, why = run_tensor(c)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.ok("-".join(f"{'x'.join(map(str, s))}:{','.join(map(str, p))}" for s, p in c), ok, why, {"kind": "tensor", "parts": c})
    try:
        host([("vector", [factor(2, "F")], [0, 1])])._get_basis_functions_tensor()
        ok = False
    except ValueError:
        ok = True
    R.ok("unknown-type-refused", ok, "", {"kind": "type"})


def classes():
    """(class, cell, keyword arguments) of everything registered."""
    import inspect

    from symfem import create

    out = []
    for cls in sorted(create._elementlist, key=lambda c: (c.__module__, c.__qualname__)):
        for cell in cls.references:
            kws = [{}]
            if "variant" in inspect.signature(cls.__init__).parameters:
                kws = [{"variant": v} for v in ("equispaced", "lobatto", "legendre", "radau", "gll")]
            for kw in kws:
                out.append((cls, cell, kw))
    return out


def orders(cls, cell, count):
    lo, hi = getattr(cls, "min_order", 0), getattr(cls, "max_order", 99)
    lo = lo.get(cell, 0) if isinstance(lo, dict) else lo
    hi = hi.get(cell, 99) if isinstance(hi, dict) else hi
    return list(range(lo, min(hi, lo + count - 1) + 1))


def offers(cls):
    """Does the class have a factorisation of its own?"""
    from symfem.finite_element import FiniteElement

    return cls.get_tensor_factorisation is not FiniteElement.get_tensor_factorisation


def find(name, cell):
    return next(c for c, k, kw in classes() if c.__name__ == name and k == cell)


def build(cls, cell, order, kw, vertices=None):
    from symfem import create_element

    if cls.__module__.startswith("symfem.elements"):
        return create_element(cell, cls.names[0], order, **({"vertices": vertices} if vertices else {}), **kw)
    return cls(cell, order, **kw)


def exact(a, b):
    """a and b are the same polynomial."""
    return zero_poly(S(a) - S(b))


def flat(f):
    v = f.as_sympy()
    if isinstance(v, sympy.MatrixBase):
        return list(v)
    return list(v) if isinstance(v, tuple) else [v]


def run_functions(name, cell, order, kw, vertices=None):
    """The factorised basis is the basis, whichever is asked for first."""
    from symfem.finite_element import NoTensorProduct

    cls = find(name, cell)
    try:
        e = build(cls, cell, order, kw, vertices)
        e.cache = False
    except Exception:
        return True, "not available"
    try:
        t0 = e._get_basis_functions_tensor()
    except NoTensorProduct:
        return True, "none offered"
    basis = e.get_basis_functions()
    seqs = [[True, False], [False, True], [True, True, False, True]]
    results = [("_get_basis_functions_tensor", t0)]
    for s in seqs:
        q = build(cls, cell, order, kw, vertices)
        q.cache = False
        for n, flag in enumerate(s):
            results.append((f"call {n + 1} of {s}", q.get_basis_functions(use_tensor_factorisation=flag)))
    seen = []
    for label, r in results:
        if len(r) != len(basis):
            return False, f"{label}: {len(r)} functions instead of {len(basis)}"
        sig = [flat(f) for f in r]
        if sig in seen:
            continue
        for i, (f, g) in enumerate(zip(r, basis)):
            if not all(exact(p, q) for p, q in zip(flat(f), flat(g))):
                return False, f"{label}: function {i} is {f} instead of {g}"
        seen.append(sig)
    return True, ""


def run_nodes(name, cell, order, kw):
    """The nodes of the factors give the nodes of the element (so the products are dual to its evaluations)."""
    from symfem.finite_element import NoTensorProduct
    from symfem.functionals import PointEvaluation

    cls = find(name, cell)
    try:
        try:
            e = build(cls, cell, order, kw)
        except Exception:
            return True, "not available"
        fac = e.get_tensor_factorisation()
    except NoTensorProduct:
        return True, "none offered"
    if not all(type(d) is PointEvaluation for d in e.dofs):
        return True, "not nodal"
    at = {}
    for kind, fs, perm in fac:
        if kind != "scalar" or len(fs) != e.reference.tdim:
            return False, f"kind {kind} with {len(fs)} factors"
        if not all(type(d) is PointEvaluation for f in fs for d in f.dofs):
            return False, "factors that are not nodal"
        combos = list(itertools.product(*[[d.dof_point()[0] for d in f.dofs] for f in fs]))
        if len(combos) != len(perm):
            return False, f"permutation of {len(perm)} entries for {len(combos)} products"
        for p, c in zip(perm, combos):
            if p in at:
                return False, f"position {p} twice"
            at[p] = c
    if sorted(at) != list(range(e.space_dim)):
        return False, f"positions {sorted(at)}"
    for i, d in enumerate(e.dofs):
        if not all(zero_number(S(a) - S(b)) for a, b in zip(d.dof_point(), at[i])):
            return False, f"dof {i} is at {d.dof_point()}, its product belongs to {at[i]}"
    return True, ""


def element(R, name, cell, kw, tops, nodal):
    cls = find(name, cell)
    for o in orders(cls, cell, tops):
        case = {"kind": "functions", "args": [name, cell, o, kw]}
        try:
            ok, why = run_functions(name, cell, o, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"functions/degree{o}", ok, why, case)
    for o in orders(cls, cell, nodal):
        case = {"kind": "nodes", "args": [name, cell, o, kw]}
        try:
            ok, why = run_nodes(name, cell, o, kw)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"nodes/degree{o}", ok, why, case)
    other = {"interval": ((1,), (3,)), "quadrilateral": ((1, 0), (3, 0), (1, 1), (3, 1)), "triangle": ((1, 0), (3, 0), (1, 1)),
             "hexahedron": ((0, 0, 0), (1, 0, 0), (0, 2, 0), (1, 2, 0), (0, 0, 1), (1, 0, 1), (0, 2, 1), (1, 2, 1))}.get(cell)
    if other and cell != "hexahedron" or (other and kw.get("variant") == "equispaced"):
        o = max(orders(cls, cell, 2))
        case = {"kind": "functions", "args": [name, cell, o, kw, other]}
        try:
            ok, why = run_functions(name, cell, o, kw, other)
        except Exception as ex:
            ok, why = False, repr(ex)
        R.bounded(f"functions/other-cell/degree{o}", ok, why, case)


def offered(R):
    """Elements without a factorisation of their own refuse; the Q elements keep theirs."""
    from symfem.finite_element import NoTensorProduct

    for cls, cell, kw in classes():
        if offers(cls) or cell == "dual polygon":
            continue
        R.ok(f"none/{cls.__name__}-{cell}-{kw.get('variant')}", run_none(cls), "", {"kind": "none", "name": cls.__name__, "cell": cell})
    for cell, o in (("quadrilateral", 2), ("hexahedron", 1), ("quadrilateral", 0)):
        for v in ("equispaced",):
            import symfem

            try:
                fac = symfem.create_element(cell, "Q", o, variant=v).get_tensor_factorisation()
                ok = len(fac) > 0
            except NoTensorProduct:
                ok = False
            R.ok(f"Q-offers/{cell}{o}", ok, "", {"kind": "offers", "cell": cell, "order": o})


def run_none(cls):
    from symfem.finite_element import NoTensorProduct

    e = cls.__new__(cls)
    try:
        e.get_tensor_factorisation()
    except NoTensorProduct:
        return True
    except Exception:
        return False
    return False


def units(tier):
    from pyvc import loader  # noqa: F401

    u = [("tensor", tensor), ("offered", offered)]
    for cls, cell, kw in classes():
        if offers(cls):
            q = {"interval": (6, 9), "quadrilateral": (5, 9), "hexahedron": (3, 7)}.get(cell, (3, 5))
            if kw.get("variant") in ("legendre", "lobatto"):
                q = {"quadrilateral": (3, 0), "hexahedron": (2, 0)}.get(cell, (3, 0))
            elif kw.get("variant") in ("gll", "radau"):
                q = {"quadrilateral": (3, 5), "hexahedron": (2, 4)}.get(cell, (3, 5))
            if tier == "thorough":
                q = (q[0] + 1, q[1] + 1)
            u.append((f"element/{cls.__name__}-{cell}-{kw.get('variant')}", element, cls.__name__, cell, kw, *q))
    return u


def replay(c):
    k = c["kind"]
    try:
        if k == "tensor":
            ok, text = run_tensor([(tuple(s), p) for s, p in c["parts"]])
        elif k == "type":
            try:
                host([("vector", [factor(2, "F")], [0, 1])])._get_basis_functions_tensor()
                ok, text = False, "an unknown product type is answered"
            except ValueError:
                ok, text = True, ""
        elif k == "functions":
            a = c["args"]
            ok, text = run_functions(*a[:4], tuple(tuple(S(x) for x in v) for v in a[4]) if len(a) > 4 else None)
        elif k == "nodes":
            ok, text = run_nodes(*c["args"])
        elif k == "none":
            ok, text = run_none(find(c["name"], c["cell"])), "a factorisation that cannot be right"
        else:
            import symfem

            symfem.create_element(c["cell"], "Q", c["order"]).get_tensor_factorisation()
            ok, text = True, ""
    except Exception as ex:
        ok, text = False, repr(ex)
    return not ok, f"{c}: {text}"
