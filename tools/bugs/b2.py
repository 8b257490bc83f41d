BUGS = [
 dict(id="Q01-lobatto7-weights", property="Q01", edits=[("symfem/quadrature.py",
"""                (124 - 7 * sympy.sqrt(15)) / 700,
                (124 + 7 * sympy.sqrt(15)) / 700,
                sympy.Rational(128, 525),
                (124 + 7 * sympy.sqrt(15)) / 700,
                (124 - 7 * sympy.sqrt(15)) / 700,""",
"""                (124 + 7 * sympy.sqrt(15)) / 700,
                (124 - 7 * sympy.sqrt(15)) / 700,
                sympy.Rational(128, 525),
                (124 - 7 * sympy.sqrt(15)) / 700,
                (124 + 7 * sympy.sqrt(15)) / 700,""")],
 demo="""
from symfem.quadrature import lobatto
p, w = lobatto(7)
bad = [k for k in range(12) if abs(sympy.N(sum(b * a**k for a, b in zip(p, w)) - sympy.Rational(1, k + 1), 30)) > 1e-20]
print(bad)
sys.exit(1 if bad else 0)
""", needs="the 7-point rule and an integrand other than x^11", what_it_breaks="two pairs of weights of the 7-point Gauss-Lobatto rule are exchanged"),
 dict(id="Q01-radau-weights", property="Q01", edits=[("symfem/quadrature.py",
"[sympy.Rational(1, 9), (16 + sympy.sqrt(6)) / 36, (16 - sympy.sqrt(6)) / 36]", "[sympy.Rational(1, 9), (16 - sympy.sqrt(6)) / 36, (16 + sympy.sqrt(6)) / 36]")],
 demo="""
from symfem.quadrature import radau
p, w = radau(3)
bad = [k for k in range(5) if abs(sympy.N(sum(b * a**k for a, b in zip(p, w)) - sympy.Rational(1, k + 1), 30)) > 1e-20]
print(bad)
sys.exit(1 if bad else 0)
""", needs="the three-point Radau rule", what_it_breaks="weights of the Radau rule belong to other points"),
 dict(id="Q01-gll-legendre", property="Q01", edits=[("symfem/quadrature.py",
"""    if rule == "radau":
        return radau(n)""",
"""    if rule == "radau" and n > 1:
        return radau(max(n, 3))""")],
 demo="""
from symfem.quadrature import get_quadrature
p, w = get_quadrature("radau", 2)
print(p)
sys.exit(0 if len(p) == 2 else 1)
""", needs="a two-point Radau rule asked for by name", what_it_breaks="the rule has three points"),
 dict(id="V01-dof-arrow-shift", property="V01", edits=[("symfem/plotting.py",
"        self.add_arrow(start, start + vdirection, color)\n        self.add_dof_marker(start, number, color, bold)",
"        self.add_arrow(start, start + vdirection, color)\n        self.add_dof_marker(point, number, color, bold)")],
 demo="""
import re
from symfem.plotting import Picture
p = Picture()
p.add_line((0, 0), (1, 1))
p.add_dof_arrow((sympy.Rational(1, 2), 0), (1, 0), 3, shifted=True)
s = p.as_svg()
c = float(re.search("circle cx='([^']*)'", s).group(1))
a = float(re.findall("line x1='([^']*)'", s)[1])
print(c, a)
sys.exit(0 if abs(c - a) < 1e-9 else 1)
""", needs="a shifted arrow", what_it_breaks="the marker is not at the start of its arrow"),
 dict(id="V01-width-ignores-x", property="V01", edits=[("symfem/plotting.py",
"            scale = sympy.Integer(self.width) / (maxx - minx)", "            scale = sympy.Integer(self.width) / max(maxx - minx, maxy - miny)")],
 demo="""
import re
from symfem.plotting import Picture
p = Picture(width=300, padding=sympy.Integer(10))
p.add_line((0, 0), (1, 4))
w = float(re.search("svg width='([^']*)'", p.as_svg()).group(1))
print(w)
sys.exit(0 if abs(w - 320) < 1e-9 else 1)
""", needs="a width, and a picture that is taller than wide", what_it_breaks="the picture does not have the width asked for"),
 dict(id="V01-tikz-bezier", property="V01", edits=[("symfem/plotting.py",
"            f\"line cap=round] ({s[0]},{s[1]}) .. controls ({m1[0]},{m1[1]}) \"\n            f\"and ({m2[0]},{m2[1]}) .. ({e[0]},{e[1]});\\n\"",
"            f\"line cap=round] ({s[0]},{s[1]}) .. controls ({m1[0]},{m1[1]}) \"\n            f\"and ({m1[0]},{m2[1]}) .. ({e[0]},{e[1]});\\n\"")],
 demo="""
import re
from symfem.plotting import Picture
p = Picture()
p.add_bezier((0, 0), (sympy.Rational(1, 4), 1), (sympy.Rational(3, 4), 1), (1, 0))
q = re.findall(r"\\(([^(),]+),([^(),]+)\\)", p.as_tikz().split("tikzpicture}[")[1])
x = [float(a) for a, _ in q]
print(x)
sys.exit(0 if abs((x[2] - x[0]) - 3 * (x[1] - x[0])) < 1e-9 else 1)
""", needs="TikZ output of a curve whose control points differ in x", what_it_breaks="the second control point is drawn above the first"),
 dict(id="F03-cross-order", property="F03", edits=[("symfem/piecewise_functions.py",
"                new_pieces[shape0] = f0.cross(f1)", "                new_pieces[shape0] = f1.cross(f0)")],
 demo="""
from symfem.piecewise_functions import PiecewiseFunction
t0, t1 = ((0, 0), (1, 0), (0, 1)), ((1, 0), (0, 1), (1, 1))
f = PiecewiseFunction({t0: (1, 0), t1: (1, 0)}, 2)
g = PiecewiseFunction({t0: (0, 1), t1: (0, 1)}, 2)
v = f.cross(g).pieces
print(v)
sys.exit(0 if all(i == 1 for i in v.values()) else 1)
""", needs="the cross product of two piecewise functions", what_it_breaks="the operands are exchanged"),
 dict(id="F03-transpose-shapes", property="F03", edits=[("symfem/piecewise_functions.py",
"""            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
                assert shape0 == shape1
                new_pieces[shape0] = f0.dot(f1)""",
"""            for (shape0, f0), f1 in zip(self._pieces.items(), other_in._pieces.values()):
                new_pieces[shape0] = f0.dot(f1)""")],
 demo="""
from symfem.piecewise_functions import PiecewiseFunction
t0, t1 = ((0, 0), (1, 0), (0, 1)), ((1, 0), (0, 1), (1, 1))
f = PiecewiseFunction({t0: (1, 0), t1: (2, 0)}, 2)
g = PiecewiseFunction({t1: (1, 0), t0: (2, 0)}, 2)
try:
    print(f.dot(g).pieces)
    sys.exit(1)
except AssertionError:
    sys.exit(0)
""", needs="piecewise functions whose pieces are in another order", what_it_breaks="dot products of unrelated pieces"),
 dict(id="F03-integral-dummy", property="F03", edits=[("symfem/piecewise_functions.py",
"                result += f.integral(sub_domain, vars, dummy_vars)", "                result += f.integral(sub_domain, vars)")],
 demo="""
from symfem.piecewise_functions import PiecewiseFunction
from symfem.symbols import x, t
t0 = ((0, 0), (1, 0), (0, 1))
f = PiecewiseFunction({t0: t[0] * x[0]}, 2)
u = sympy.symbols("u v w")
out = f.integral(symfem.create_reference("triangle"), x, u)
print(out)
sys.exit(0 if out == t[0] / 6 else 1)
""", needs="an integrand that mentions the default dummy variables and other dummy variables", what_it_breaks="the dummy variables asked for are not used"),
 dict(id="E03-mapping-by-type", property="E03", edits=[("symfem/finite_element.py",
"                        t = (type(dof), dof.mapping)", "                        t = (type(dof), self.dofs[entity_dofs[0]].mapping)")],
 demo="""
from symfem.finite_element import CiarletElement
from symfem.functionals import PointEvaluation, IntegralAgainst, DotPointEvaluation
from symfem.symbols import x

class Two(CiarletElement):
    def __init__(self, reference, order):
        dofs = [DotPointEvaluation(reference, (0, 0), (1, 0), entity=(2, 0), mapping="identity"),
                DotPointEvaluation(reference, (0, 0), (0, 1), entity=(2, 0), mapping="contravariant")]
        super().__init__(reference, order, [(1, 0), (0, 1)], dofs, 2, 2)
    names = ["two"]
    references = ["triangle"]
    cache = False

e = Two(symfem.create_reference("triangle"), 0)
f = e.map_to_cell(((0, 0), (2, 0), (0, 3)))
print(f)
sys.exit(0 if f[1].as_sympy() == (0, sympy.Rational(1, 2)) else 1)
""", needs="degrees of freedom of one type with two mappings on one entity", what_it_breaks="all are mapped with the first mapping"),
 dict(id="E01-tiny-coefficients", property="E01", edits=[("symfem/finite_element.py",
"                    for c, d in zip(minv.row(i)[1:], pb[1:]):\n                        sf += ScalarFunction(c) * d",
"                    for c, d in zip(minv.row(i)[1:], pb[1:]):\n                        if abs(c) > 1e-12:\n                            sf += ScalarFunction(c) * d")],
 demo="""
from symfem.finite_element import CiarletElement
from symfem.functionals import PointEvaluation
from symfem.symbols import x

class Steep(CiarletElement):
    def __init__(self, reference, order):
        dofs = [PointEvaluation(reference, (0,), entity=(0, 0)), PointEvaluation(reference, (1,), entity=(0, 1))]
        super().__init__(reference, order, [sympy.S(1), sympy.Integer(10) ** 15 * x[0]], dofs, 1, 1)
    names = ["steep"]
    references = ["interval"]
    cache = False

e = Steep(symfem.create_reference("interval"), 1)
f = e.get_basis_functions()
m = [[d.eval(g) for g in f] for d in e.dofs]
print(m)
sys.exit(0 if m == [[1, 0], [0, 1]] else 1)
""", needs="a user-defined element with a basis function of large size", what_it_breaks="small coefficients of basis functions are dropped"),
 dict(id="D01-point-inner-order", property="D01", edits=[("symfem/functionals.py",
"        return self.lvec.dot(v @ self.rvec)", "        return self.rvec.dot(v @ self.lvec)")],
 demo="""
from symfem.functionals import PointInnerProduct
from symfem.functions import MatrixFunction
r = symfem.create_reference("triangle")
d = PointInnerProduct(r, (0, 0), (1, 0), (0, 1), (0, 0))
v = d.eval(MatrixFunction(((0, 5), (7, 0))))
print(v)
sys.exit(0 if v == 5 else 1)
""", needs="two different vectors and a function that is not symmetric", what_it_breaks="left and right vectors are exchanged"),
 dict(id="D01-dot-constant", property="D01", edits=[("symfem/functionals.py",
"        v2 = self.vector.subs(x, self.point)\n        return v1.dot(v2)", "        v2 = self.vector.subs(x, (0,) * self.reference.gdim)\n        return v1.dot(v2)")],
 demo="""
from symfem.functionals import DotPointEvaluation
from symfem.functions import VectorFunction
from symfem.symbols import x
r = symfem.create_reference("triangle")
d = DotPointEvaluation(r, (sympy.Rational(1, 2), sympy.Rational(1, 2)), (x[0], 1), (1, 0))
v = d.eval(VectorFunction((2, 0)))
print(v)
sys.exit(0 if v == 1 else 1)
""", needs="a direction that depends on the position", what_it_breaks="the direction is taken at the origin"),
 dict(id="D01-multiderivative-scale", property="D01", edits=[("symfem/functionals.py",
"        for dir, o in zip(self.directions, self.orders):\n            for i in range(o):", "        for dir, o in zip(self.directions, self.orders):\n            for i in range(min(o, 2)):")],
 demo="""
from symfem.functionals import IntegralOfDirectionalMultiderivative
from symfem.functions import ScalarFunction
from symfem.symbols import x
r = symfem.create_reference("triangle")
d = IntegralOfDirectionalMultiderivative(r, ((1, 0), (0, 1)), (3, 0), (2, 0))
v = d.eval(ScalarFunction(x[0] ** 3))
print(v)
sys.exit(0 if v == 3 else 1)
""", needs="a derivative of order three", what_it_breaks="third derivatives are second derivatives"),
 dict(id="E04-float-digits", property="E04", edits=[("symfem/functions.py",
"            out += float(co) * term", "            out += float(sympy.Float(co, 5)) * term")],
 demo="""
e = symfem.create_element("interval", "Lagrange", 7)
p = ((sympy.Rational(1, 3),),)
a, b = e.tabulate_basis(p), e.tabulate_basis_float(p)
err = max(abs(float(i) - float(j)) for i, j in zip(a[0], b[0]))
print(err)
sys.exit(0 if err < 1e-9 else 1)
""", needs="coefficients with more than five digits", what_it_breaks="floating point tabulation is accurate to five digits only"),
 dict(id="E04-xxyyzz-width", property="E04", edits=[("symfem/finite_element.py",
"                output.append(tuple(j for i in zip(*row) for j in i))", "                output.append(tuple(j for i in list(zip(*row))[: len(row)] for j in i))")],
 demo="""
e = symfem.create_element("interval", "vector Lagrange", 0, variant="legendre") if False else None
from symfem.finite_element import DirectElement
from symfem.functions import VectorFunction
from symfem.symbols import x

class One(DirectElement):
    def __init__(self, reference, order):
        super().__init__(reference, order, [VectorFunction((x[0], x[1]))], [(2, 0)], 2, 2)
    names = ["one"]
    references = ["triangle"]

e = One(symfem.create_reference("triangle"), 1)
v = e.tabulate_basis(((sympy.Rational(1, 2), sympy.Rational(1, 4)),), "xxyyzz")
print(v)
sys.exit(0 if len(v[0]) == 2 else 1)
""", needs="an element with fewer functions than components", what_it_breaks="components are missing in the layout xxyyzz"),
 dict(id="P02-vector-degree", property="P02", edits=[("symfem/functions.py",
"        return max(f.maximum_degree(cell) for f in self._vec)", "        return max(f.maximum_degree(cell) for f in self._vec[: cell.gdim])")],
 demo="""
from symfem.functions import VectorFunction
from symfem.symbols import x
r = symfem.create_reference("interval")
d = VectorFunction((1, x[0] ** 3)).maximum_degree(r)
print(d)
sys.exit(0 if d == 3 else 1)
""", needs="a function with more components than the cell has dimensions", what_it_breaks="the degree of the last components is ignored"),
 dict(id="P03-triangle-dy2", property="P03", edits=[("symfem/polynomials/legendre.py",
"""                            poly[d_index(dx, dy)][index(0, p)] -= (
                                dy
                                * (dy - 1)""",
"""                            poly[d_index(dx, dy)][index(0, p)] -= (
                                2
                                * (dy - 1)""")],
 demo="""
from symfem.polynomials.legendre import orthogonal_basis
from symfem.symbols import x
p = orthogonal_basis("triangle", 4, 3)
bad = [i for i, (f, g) in enumerate(zip(p[0], p[9])) if sympy.expand(f.as_sympy().diff(x[1], 3) - g.as_sympy()) != 0]
print(bad)
sys.exit(1 if bad else 0)
""", needs="third derivatives in y", what_it_breaks="third derivatives of the orthogonal basis"),
 dict(id="P03-pyramid-order", property="P03", edits=[("symfem/polynomials/lobatto.py",
"""        return [
            i * j.subs(x[0], x[1]) * k.subs(x[0], x[2])
            for i in interval
            for j in interval
            for k in interval
        ]
    raise NotImplementedError(f'Lobatto polynomials not implemented for cell "{cell}"')


def lobatto_dual_basis(""",
"""        return [
            i * j.subs(x[0], x[1]) * k.subs(x[0], x[2])
            for j in interval
            for i in interval
            for k in interval
        ]
    raise NotImplementedError(f'Lobatto polynomials not implemented for cell "{cell}"')


def lobatto_dual_basis(""")],
 demo="""
from symfem.polynomials.lobatto import lobatto_basis, lobatto_dual_basis
from symfem.symbols import x
r = symfem.create_reference("hexahedron")
a, b = lobatto_basis("hexahedron", 2), lobatto_dual_basis("hexahedron", 2)
bad = [(i, j) for i, f in enumerate(a[:9]) for j, g in enumerate(b[:9]) if (f * g).integral(r) != (1 if i == j else 0)]
print(bad[:5])
sys.exit(1 if bad else 0)
""", needs="the hexahedron", what_it_breaks="the Lobatto basis and its dual are in different orders"),
 dict(id="R01-order-dict", property="R01", edits=[("symfem/create.py",
"                if order > element_class.max_order[ref]:", "                if order > max(element_class.max_order.values()):")],
 demo="""
import symfem.create as c
bad = []
for e in c._elementlist:
    m = getattr(e, "max_order", None)
    if isinstance(m, dict):
        for r, o in m.items():
            if o < max(m.values()):
                try:
                    symfem.create_element(r, e.names[0], o + 1)
                    bad.append((r, e.names[0]))
                except ValueError:
                    pass
                except Exception as ex:
                    bad.append((r, e.names[0], repr(ex)))
print(bad)
sys.exit(1 if bad else 0)
""", needs="an element whose largest degree depends on the cell", what_it_breaks="unsupported degrees are not refused"),
 dict(id="K01-short-hash", property="K01", edits=[("symfem/caching.py",
"    hashed_id = sha256(cache_id.encode(\"utf-8\")).hexdigest()\n    filename = os.path.join(CACHE_DIR, f\"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix\")\n    try:\n        with open(filename, encoding",
"    hashed_id = sha256(cache_id.encode(\"utf-8\")).hexdigest()[:8]\n    filename = os.path.join(CACHE_DIR, f\"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix\")\n    try:\n        with open(filename, encoding"),
 ("symfem/caching.py",
"    hashed_id = sha256(cache_id.encode(\"utf-8\")).hexdigest()\n    filename = os.path.join(CACHE_DIR, f\"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix\")\n    data = ",
"    hashed_id = sha256(cache_id.encode(\"utf-8\")).hexdigest()[:8]\n    filename = os.path.join(CACHE_DIR, f\"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix\")\n    data = ")],
 demo="""
import hashlib
from symfem.caching import load_cached_matrix, save_cached_matrix
seen = {}
i = 0
while True:
    h = hashlib.sha256(f"element {i}".encode()).hexdigest()[:8]
    if h in seen:
        break
    seen[h] = i
    i += 1
save_cached_matrix("dual", f"element {seen[h]}", sympy.Matrix([[3]]))
m = load_cached_matrix("dual", f"element {i}", (1, 1))
print(i, seen[h], m)
sys.exit(0 if m is None else 1)
""", needs="two identifiers whose hashes start with the same 32 bits", what_it_breaks="the matrix of another element is loaded"),
 dict(id="K01-inverse-type", property="K01", edits=[("symfem/caching.py",
"        if mat.rows != size[0] or mat.cols != size[1]:", "        if mat.rows != size[0]:")],
 demo="""
from symfem.caching import load_cached_matrix, save_cached_matrix
save_cached_matrix("dual", "an element", sympy.Matrix([[3, 4]]))
m = load_cached_matrix("dual", "an element", (1, 1))
print(m)
sys.exit(0 if m is None else 1)
""", needs="a file with a matrix of another shape", what_it_breaks="a matrix with another number of columns is loaded"),
 dict(id="F01-vector-pow", property="F01", edits=[("symfem/functions.py",
"            return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))", "            return VectorFunction(tuple(j._f - i for i, j in zip(other, self._vec)))")],
 demo="""
from symfem.functions import VectorFunction
v = (1, 2) - VectorFunction((0, 5))
print(v)
sys.exit(0 if v.as_sympy() == (1, -3) else 1)
""", needs="a tuple minus a vector function", what_it_breaks="the sign of the difference"),
 dict(id="F01-cross-2d", property="F01", edits=[("symfem/functions.py",
"        assert other.is_vector and len(self) == len(other)\n", "        assert other.is_vector\n")],
 demo="""
from symfem.functions import VectorFunction
try:
    v = VectorFunction((1, 2)).cross(VectorFunction((1, 2, 3)))
    print(v)
    sys.exit(1)
except AssertionError:
    sys.exit(0)
""", needs="vectors of two and three components", what_it_breaks="operands of other shapes are silently combined"),
 dict(id="E05-hex-faces", property="E05", edits=[("symfem/elements/q.py",
"                perm += [8 + 12 * n + 2 * n**2 + i + n * j for j in range(n)]", "                perm += [8 + 12 * n + 2 * n**2 + n * i + j for j in range(n)]")],
 demo="""
e = symfem.create_element("hexahedron", "Q", 3)
f = symfem.create_element("hexahedron", "Q", 3)
a, b = e.get_basis_functions(False), f.get_basis_functions(True)
p = (sympy.Rational(1, 5), sympy.Rational(2, 7), sympy.Rational(1, 3))
from symfem.symbols import x
bad = [i for i, (g, h) in enumerate(zip(a, b)) if g.subs(x, p) != h.subs(x, p)]
print(bad)
sys.exit(1 if bad else 0)
""", needs="degree 3 on a hexahedron", what_it_breaks="the permutation of face functions"),
 dict(id="P02-serendipity-super", property="P02", edits=[("symfem/elements/serendipity.py",
"        if self.order == 2 and self.reference.tdim == 3:\n            return 1\n        return self.order // self.reference.tdim", "        return self.order // 2")],
 demo="""
e = symfem.create_element("hexahedron", "serendipity Hcurl", 3)
print(e.lagrange_subdegree)
e4 = symfem.create_element("hexahedron", "serendipity Hcurl", 4)
print(e4.lagrange_subdegree)
sys.exit(0 if e4.lagrange_subdegree == 1 else 1)
""", needs="degree 4 on a hexahedron", what_it_breaks="the declared Lagrange subdegree is too large"),
]
