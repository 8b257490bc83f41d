"""Loads /repo/symfem with its comparisons routed through the engine.

The transformation is mechanical and is redone from source on every run:

* every comparison `a == b`, `a != b`, `a < b`, `a <= b`, `a > b`, `a >= b`,
  `a in b`, `a not in b` becomes `__pyvc_cmp__("op", a, b)`; chained
  comparisons keep Python's left-to-right, short-circuit evaluation with every
  operand evaluated once;
* `f"..."`, arithmetic, control flow, calls, classes, decorators: unchanged.
* `range(...)` becomes `__pyvc_range__(...)` (plain `range` on integers);
  `sympy.Rational(a, b)`, `l.count(a)` and `l.index(a)` go through hooks that return
  what Python returns unless an engine symbol is involved;
* the iterable of a comprehension, and of a `for` loop that is checked (below) to be
  append-only, is passed through `__pyvc_iter__`, which returns it unchanged unless it
  is a range with symbolic ends: then the body runs once for a fresh index that stands
  for every index of the range (the list built is {body(i) : i in range}).

A `for` loop is append-only when its body has no break, return, raise, yield, try, with,
attribute or subscript store (but for lists and dictionaries that the iteration itself makes); the only names it changes are local temporaries (written
before they are read in every iteration, and not read after the loop) and accumulators
that are only appended to (`a.append(e)`, `a += e`) and not otherwise mentioned in it.

Nothing is dropped.  On operands that hold no engine symbol each hook returns
exactly what Python's own operator returns, so a concrete run of the loaded
modules is a run of the original code.
"""
import ast
import importlib.abc
import importlib.machinery
import itertools
import os
import sys

from . import env

OPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.In: "in", ast.NotIn: "not in",
}


MUTATORS = {"extend", "insert", "pop", "remove", "add", "update", "setdefault", "sort", "clear", "reverse", "discard",
            "popitem", "write", "save"}


def names(node, ctx):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def exposed(stmts, written=()):
    """Names that may be read before they are written in a list of statements; (exposed, surely written)."""
    w = set(written)
    ex = set()

    def expr(e):
        if e is None:
            return set()
        r = names(e, ast.Load)
        bound = set()
        for c in ast.walk(e):
            if isinstance(c, ast.comprehension):
                bound |= names(c.target, ast.Store)
            if isinstance(c, ast.Lambda):
                bound |= {a.arg for a in c.args.args}
        return r - bound

    for s in stmts:
        if isinstance(s, ast.Assign):
            ex |= expr(s.value) - w
            for t in s.targets:
                ex |= names(t, ast.Load) - w
                w |= names(t, ast.Store)
        elif isinstance(s, ast.AnnAssign):
            ex |= expr(s.value) - w
            if s.value is not None:
                w |= names(s.target, ast.Store)
        elif isinstance(s, ast.AugAssign):
            ex |= (expr(s.value) | names(s.target, (ast.Load, ast.Store))) - w
        elif isinstance(s, ast.For):
            ex |= expr(s.iter) - w
            e, _ = exposed(s.body, w | names(s.target, ast.Store))
            e2, _ = exposed(s.orelse, w)
            ex |= e | e2
        elif isinstance(s, ast.While):
            ex |= expr(s.test) - w
            ex |= exposed(s.body, w)[0] | exposed(s.orelse, w)[0]
        elif isinstance(s, ast.If):
            ex |= expr(s.test) - w
            e1, w1 = exposed(s.body, w)
            e2, w2 = exposed(s.orelse, w)
            ex |= e1 | e2
            w = w1 & w2
        elif isinstance(s, (ast.Expr, ast.Return, ast.Assert, ast.Raise, ast.Delete)):
            for c in ast.iter_child_nodes(s):
                ex |= expr(c) - w
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            w |= {(a.asname or a.name).split(".")[0] for a in s.names}
        else:
            ex |= names(s, ast.Load) - w
    return ex, w


def fresh_names(body):
    """Names that only ever hold lists and dictionaries made in this body (in the statement that assigns them)."""
    ok, no = set(), set()

    def new(v):
        return isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set", "sorted")) or (
            isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Mult, ast.Add)) and (new(v.left) or new(v.right)))

    for n in [m for s in body for m in ast.walk(s)]:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    (ok if n.value is not None and new(n.value) else no).add(t.id)
                else:
                    no |= names(t, ast.Store)
        elif isinstance(n, (ast.For, ast.comprehension)):
            no |= names(n.target, ast.Store)
    return ok - no


def append_only(loop, after):
    """The loop only appends to accumulators; `after`: statements that may run after it (or around it again)."""
    if loop.orelse:
        return False
    targets = names(loop.target, ast.Store)
    if any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(loop.target)):
        return False
    acc, acc_nodes, stored, loads = set(), set(), set(), {}
    fresh = fresh_names(loop.body)
    for n in [m for s in loop.body for m in ast.walk(s)]:
        if isinstance(n, (ast.Break, ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Try, ast.With, ast.Global,
                          ast.Nonlocal, ast.Delete, ast.While, ast.FunctionDef, ast.ClassDef, ast.NamedExpr, ast.Await,
                          ast.Lambda)):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in fresh):
                return False
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add):
            acc.add(n.target.id)
            acc_nodes.add(id(n.target))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == "append" and isinstance(n.value.func.value, ast.Name):
            acc.add(n.value.func.value.id)
            acc_nodes.add(id(n.value.func.value))
            acc_nodes.add(id(n.value.func))
    for n in [m for s in loop.body for m in ast.walk(s)]:
        if isinstance(n, ast.Attribute) and id(n) not in acc_nodes and n.attr in MUTATORS | {"append"}:
            if not (isinstance(n.value, ast.Name) and n.value.id in fresh):
                return False
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store) and id(n) not in acc_nodes:
                stored.add(n.id)
            if id(n) not in acc_nodes:
                loads.setdefault(n.id, 0)
    # a name that is += but initialised in the body is a temporary
    body_exposed, _ = exposed(loop.body, targets)
    temps = {a for a in acc if a not in body_exposed} | stored | targets
    acc -= temps
    if acc & set(loads):
        return False
    if (stored - targets) & body_exposed:
        return False
    if temps & exposed(after)[0]:
        return False
    return True


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.count = 0
        self.tmp = 0
        self.loops = set()

    def mark(self, body, after):
        """Find the append-only loops in a statement list."""
        for i, s in enumerate(body):
            rest = body[i + 1:] + after
            if isinstance(s, ast.For):
                if append_only(s, rest):
                    self.loops.add(id(s))
                self.mark(s.body, s.body + rest)
                self.mark(s.orelse, rest)
            elif isinstance(s, ast.While):
                self.mark(s.body, s.body + rest)
            elif isinstance(s, ast.If):
                self.mark(s.body, rest)
                self.mark(s.orelse, rest)

    def visit_FunctionDef(self, node):
        self.mark(node.body, [])
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        good = id(node) in self.loops
        self.generic_visit(node)
        if good:
            node.iter = self.wrap(node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.wrap(node.iter)
        return node

    def wrap(self, e):
        return ast.copy_location(ast.Call(func=ast.Name(id="__pyvc_iter__", ctx=ast.Load()), args=[e], keywords=[]), e)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(type(o) not in OPS for o in node.ops):
            return node  # `is` / `is not` stay
        self.count += 1
        if len(node.ops) == 1:
            call = self._call(OPS[type(node.ops[0])], node.left, node.comparators[0])
            return ast.copy_location(call, node)
        # a op1 b op2 c -> hook chain: operands evaluated lazily, once each
        lam = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                             kw_defaults=[], defaults=[]), body=c)
               for c in [node.left] + node.comparators]
        call = ast.Call(
            func=ast.Name(id="__pyvc_chain__", ctx=ast.Load()),
            args=[ast.Tuple(elts=[ast.Constant(OPS[type(o)]) for o in node.ops], ctx=ast.Load())]
            + lam, keywords=[])
        return ast.copy_location(call, node)

    def _call(self, op, a, b):
        return ast.Call(func=ast.Name(id="__pyvc_cmp__", ctx=ast.Load()),
                        args=[ast.Constant(op), a, b], keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "range" and not node.keywords:
            node.func = ast.copy_location(ast.Name(id="__pyvc_range__", ctx=ast.Load()), node.func)
        if isinstance(node.func, ast.Attribute) and not node.keywords:
            f = node.func
            if f.attr == "Rational" and isinstance(f.value, ast.Name) and f.value.id == "sympy":
                node.func = ast.copy_location(ast.Name(id="__pyvc_rational__", ctx=ast.Load()), f)
            elif f.attr in ("count", "index") and len(node.args) == 1:
                node.args = [f.value] + node.args
                node.func = ast.copy_location(ast.Name(id=f"__pyvc_{f.attr}__", ctx=ast.Load()), f)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    stats = {}

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        rw = Rewriter()
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        Loader.stats[path] = rw.count
        return compile(tree, path, "exec", dont_inherit=True, optimize=0)

    def get_code(self, fullname):  # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import engine

        module.__dict__["__pyvc_cmp__"] = engine.cmp_hook
        module.__dict__["__pyvc_chain__"] = engine.chain_hook
        module.__dict__["__pyvc_range__"] = engine.range_hook
        module.__dict__["__pyvc_iter__"] = engine.iter_hook
        module.__dict__["__pyvc_rational__"] = engine.rational_hook
        module.__dict__["__pyvc_count__"] = engine.count_hook
        module.__dict__["__pyvc_index__"] = engine.index_hook
        super().exec_module(module)
        if module.__dict__.get("product") is itertools.product:
            module.__dict__["product"] = engine.product_hook


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "symfem" and not fullname.startswith("symfem."):
            return None
        base = os.path.join(env.REPO, *fullname.split("."))
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, fn), origin=fn,
                                                  is_package=True)
            spec.submodule_search_locations = [base]
        else:
            fn = base + ".py"
            if not os.path.isfile(fn):
                return None
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, fn), origin=fn)
        spec.has_location = True
        return spec


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        assert not any(m == "symfem" or m.startswith("symfem.") for m in sys.modules)
        sys.meta_path.insert(0, Finder())
