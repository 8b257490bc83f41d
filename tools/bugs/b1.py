BUGS = [
 dict(id="M01-prism-top", property="M01", edits=[("symfem/references.py",
"""            (1 - x[2]) * (v0 + x[0] * (v1 - v0) + x[1] * (v2 - v0))
            + x[2] * (v3 + x[0] * (v4 - v3) + x[1] * (v5 - v3))
            for v0, v1, v2, v3, v4, v5 in zip(*self.vertices)""",
"""            (1 - x[2]) * (v0 + x[0] * (v1 - v0) + x[1] * (v2 - v0))
            + x[2] * (v3 + x[0] * (v4 - v3) + x[1] * (v2 - v0))
            for v0, v1, v2, v3, v4, v5 in zip(*self.vertices)""")],
 demo="""
from symfem.symbols import x
v = ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 2, 2))
r = symfem.create_reference("prism", v)
m = r.get_map_to_self()
p = tuple(sympy.S(c).subs({x[0]: 0, x[1]: 1, x[2]: 1}) for c in m)
print(p)
sys.exit(0 if p == (1, 2, 2) else 1)
""", needs="a prism whose top is not a translate of its base", what_it_breaks="the map to a prism does not interpolate vertex 5"),
 dict(id="M02-double-covariant-nonsymmetric", property="M02", edits=[("symfem/mappings.py",
"    return j_inv @ f @ j_inv.transpose()", "    return j_inv @ f.transpose() @ j_inv.transpose()")],
 demo="""
from symfem.mappings import double_covariant
from symfem.symbols import x
m = (2 * x[0], 3 * x[1])
im = (x[0] / 2, x[1] / 3)
out = double_covariant(((0, 1), (0, 0)), m, im)
print(out.as_sympy())
sys.exit(0 if out.as_sympy() == sympy.Matrix([[0, sympy.Rational(1, 6)], [0, 0]]) else 1)
""", needs="a matrix function that is not symmetric (Regge functions all are)", what_it_breaks="double covariant maps transpose the function"),
 dict(id="M02-l2-inverse-sign", property="M02", edits=[("symfem/mappings.py",
"    return f * abs(jdet)", "    return f * jdet")],
 demo="""
from symfem.mappings import l2_inverse_transpose
from symfem.symbols import x
out = l2_inverse_transpose(x[0] + 1, (x[1], x[0]), (x[1], x[0]))
print(out)
sys.exit(0 if sympy.expand(out.as_sympy() - x[1] - 1) == 0 else 1)
""", needs="a map that reverses the orientation", what_it_breaks="the sign of the inverse transpose of the l2 map"),
 dict(id="G01-quad-side", property="G01", edits=[("symfem/geometry.py",
"    e2 = _vsub(quad[3], quad[1])", "    e2 = _vsub(quad[2], quad[0])")],
 demo="""
from symfem.geometry import parse_set_of_points_input, parse_point_input, point_in_quadrilateral
q = parse_set_of_points_input(((0, 0), (2, 0), (0, 1), (1, 1)))
inside = parse_point_input((sympy.Rational(3, 2), sympy.Rational(1, 4)))
outside = parse_point_input((sympy.Rational(9, 5), sympy.Rational(9, 10)))
a, b = point_in_quadrilateral(inside, q), point_in_quadrilateral(outside, q)
print(a, b)
sys.exit(0 if a and not b else 1)
""", needs="a quadrilateral that is not a parallelogram", what_it_breaks="points beyond a slanted side are reported inside"),
 dict(id="G01-which-side-eq", property="G01", edits=[("symfem/references.py",
"""                    dir1 = _which_side(cell1.vertices, p, n)
                    dir2 = _which_side(cell2.vertices, p, n)
                    if dir1 is not None and dir2 is not None and dir1 * dir2 < 0:""",
"""                    dir1 = _which_side(cell1.vertices, p, n)
                    dir2 = _which_side(cell2.vertices, p, n)
                    if dir1 is not None and dir2 is not None and dir1 * dir2 <= 0:""")],
 demo="""
a = symfem.create_reference("triangle", ((0, 0, 0), (1, 0, 0), (0, 1, 0)))
b = symfem.create_reference("tetrahedron", ((0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)))
c = symfem.create_reference("triangle", ((0, 0, 0), (3, 0, 0), (0, 1, 0)))
try:
    r = b.intersection(c)
except NotImplementedError:
    sys.exit(0)
print(r)
sys.exit(1 if r is None else 0)
""", needs="a cell that lies in the plane of a face of the other and sticks out of it", what_it_breaks="cells that share points are reported disjoint"),
 dict(id="G02-lattice-lines", property="G02", edits=[("symfem/references.py",
"""                if i != k + 1:
                    pairs += [(s, s + i)]
                if k != 0:
                    pairs += [(s, s + i - 1)]
                s += i""",
"""                if i != k + 1:
                    pairs += [(s, s + i)]
                if k != 0:
                    pairs += [(s, s + n - 1)]
                s += i""")],
 demo="""
r = symfem.create_reference("triangle")
pts, lines = r.make_lattice_with_lines(4)
h = sympy.Rational(1, 3)
ok = all(set(map(lambda c: abs(c), (a - b for a, b in zip(pts[i], pts[j])))) <= {0, h} for i, j in lines if max(i, j) < len(pts))
ok = ok and all(max(p) < len(pts) for p in lines)
sys.exit(0 if ok else 1)
""", needs="a triangle lattice of at least four points along each edge", what_it_breaks="lines of the lattice join points that are not neighbours"),
 dict(id="F01-subs-order", property="F01", edits=[("symfem/functions.py",
"""            dummy = [sympy.Symbol(f"DUMMY_{i}") for i, _ in enumerate(values)]""",
"""            if not any(sympy.S(j).has(*x) for j in values):
                for i, j in zip(vars, values):
                    subbed = subbed.subs(i, j)
                return ScalarFunction(subbed)
            dummy = [sympy.Symbol(f"DUMMY_{i}") for i, _ in enumerate(values)]""")],
 demo="""
from symfem.functions import ScalarFunction
from symfem.symbols import t
f = ScalarFunction(t[0] + 2 * t[1])
out = f.subs(t[:2], (t[1], t[0])).as_sympy()
print(out)
sys.exit(0 if sympy.expand(out - t[1] - 2 * t[0]) == 0 else 1)
""", needs="substituting variables other than x by each other", what_it_breaks="substitution is no longer simultaneous"),
 dict(id="F02-tet-dummy", property="F02", edits=[("symfem/references.py",
"""            (vars[0], sympy.Integer(0), 1 - vars[1] - vars[2]),""",
"""            (vars[0], sympy.Integer(0), 1 - vars[1] - t[2]),""")],
 demo="""
from symfem.functions import ScalarFunction
from symfem.symbols import x
r = symfem.create_reference("tetrahedron")
out = ScalarFunction(x[0]).integral(r, dummy_vars=sympy.symbols("a b c")).as_sympy()
print(out)
sys.exit(0 if out == sympy.Rational(1, 24) else 1)
""", needs="integrating over a tetrahedron with other dummy variables than the default", what_it_breaks="the limits mix two sets of variables"),
 dict(id="P01-vars", property="P01", edits=[("symfem/polynomials/polysets.py",
"""            ScalarFunction(variables[0] ** i * variables[1] ** j * variables[2] ** k)
            for k in range(order + 1)
            for j in range(order + 1 - k)""",
"""            ScalarFunction(variables[0] ** i * variables[1] ** j * x[2] ** k)
            for k in range(order + 1)
            for j in range(order + 1 - k)""")],
 demo="""
from symfem.polynomials import polynomial_set_1d
a, b, c = sympy.symbols("a b c")
s = [f.as_sympy() for f in polynomial_set_1d(3, 1, (a, b, c))]
print(s)
sys.exit(0 if set(s) == {1, a, b, c} else 1)
""", needs="a complete space in three named variables", what_it_breaks="one of the variables is the default one"),
 dict(id="P01-hcurl-count", property="P01", edits=[("symfem/polynomials/polysets.py",
"""            for m in range(order)
            for n in range(1, order + 1 - m)""",
"""            for m in range(min(order, 4))
            for n in range(1, order + 1 - m)""")],
 demo="""
from symfem.polynomials import Hcurl_polynomials
n = 5
s = Hcurl_polynomials(3, 3, n)
print(len(s))
sys.exit(0 if len(s) == n * (n + 2) else 1)
""", needs="order five or more", what_it_breaks="the H(curl) polynomials lack members at high order"),
]
