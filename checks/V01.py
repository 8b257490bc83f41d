"""V01: pictures show the coordinates they are given."""
from pyvc import env  # noqa: F401
import math
import os
import random
import re
import shutil
import sys
import tempfile
import types
from xml.etree import ElementTree

import sympy
from sympy import Eq

from pyvc import engine

LEVEL = "proof"
LEVEL_NOTE = ("The whole path from the drawing call to the text of the SVG and TikZ files is executed with symbolic coordinates, axes, padding and scale, for "
              "every kind of element in 0 to 3 dimensions, next to a line that spans an arbitrary bounding box; the bounding box itself is proved for "
              "pictures of two elements. Sequences of calls, Bezier curves without a frame and PNGs are run with random coordinates (bounded).")
TRUSTED = ["float(e) is the value of e (in the symbolic runs float is replaced by the identity)", "cairosvg draws the SVG it is given (replaced by a recorder)",
           "a cubic Bezier curve stays in the convex hull of its control points"]
ASSUMPTIONS = ["real coordinates, padding >= 0, scale > 0, width or height only for pictures of positive extent, arrows of positive length",
               "strokes, text, arrow heads and the radius of circles are decoration: their position counts, not their extent"]
BOUNDS = "sequences of up to 8 drawing calls with random coordinates (40 sequences quick, 400 thorough)"
S = sympy.S
AXES = ((S(1), -S(2) / 25), (S(1) / 2, S(1) / 5), (S(0), S(1)))
NPTS = {"line": 2, "bezier": 4, "arrow": 2, "ncircle": 1, "fill": 3, "math": 1, "dof_marker": 1, "dof_arrow": 2}
UNITS = {"svg": 1, "tex": 200}


def mod():
    import symfem.plotting as P

    return P


def project(p, axes=AXES):
    p = [S(i) for i in p]
    if len(p) == 3:
        return tuple(sum((a[i] * c for a, c in zip(axes, p)), S(0)) for i in range(2))
    return tuple((p + [S(0), S(0)])[:2])


# --------------------------------------------------------------------------- drawing and expected positions
def wrap(p, form):
    from symfem.functions import VectorFunction

    if form == "list":
        return list(p)
    if form == "function" and len(p) > 0:
        return VectorFunction(tuple(p))
    return tuple(p)


def draw(pic, item):
    kind, pts = item["kind"], [wrap(p, item.get("form", "tuple")) for p in item["pts"]]
    if kind == "line":
        pic.add_line(*pts)
    elif kind == "bezier":
        pic.add_bezier(*pts)
    elif kind == "arrow":
        pic.add_arrow(*pts)
    elif kind == "ncircle":
        pic.add_ncircle(*pts, 7)
    elif kind == "fill":
        pic.add_fill(tuple(pts))
    elif kind == "math":
        pic.add_math(*pts, "k", anchor=item.get("anchor", "center"))
    elif kind == "dof_marker":
        pic.add_dof_marker(*pts, 12, "#123456", item.get("bold", True))
    else:
        pic.add_dof_arrow(*pts, 3, shifted=item.get("shifted", False), bold=item.get("bold", True))


def expected(item, axes=AXES, size=1):
    """The figures of a call: [(figure, its points in the plane)]."""
    kind, pts = item["kind"], [project(p, axes) for p in item["pts"]]
    if kind in ("ncircle", "dof_marker"):
        return [("ncircle", pts)]
    if kind == "dof_arrow":
        p, v = pts
        length = sympy.sqrt(sum(c**2 for c in v))
        d = tuple(size * c / (8 * length) for c in v)
        if item.get("shifted", False):
            p = tuple(a + b / 3 for a, b in zip(p, d))
        return [("arrow", [p, tuple(a + b for a, b in zip(p, d))]), ("ncircle", [p])]
    return [(kind, pts)]


# --------------------------------------------------------------------------- reading the files
def read_svg(text, number):
    """(width, height, [[point, ...] for each figure])."""
    root = ElementTree.fromstring(text)
    out, heads = [], []
    todo = []
    for el in root:
        tag = el.tag.split("}")[-1]
        if tag in ("title", "desc"):
            continue
        g = lambda k: number(el.get(k))  # noqa: E731
        if tag == "line":
            todo.append(("line", [(g("x1"), g("y1")), (g("x2"), g("y2"))]))
        elif tag == "path":
            m = re.fullmatch(r"\s*M\s*(\S+?),(\S+?)\s+C\s*(\S+?),(\S+?),?\s+(\S+?),(\S+?),?\s+(\S+?),(\S+?)\s*", el.get("d"))
            if m is None:
                raise ValueError(f"path {el.get('d')}")
            c = [number(i) for i in m.groups()]
            todo.append(("bezier", [(c[2 * i], c[2 * i + 1]) for i in range(4)]))
        elif tag == "polygon":
            todo.append(("fill", [tuple(number(i) for i in q.split(",")) for q in el.get("points").split()]))
        elif tag == "circle":
            todo.append(("circle", [(g("cx"), g("cy"))]))
        elif tag == "text":
            todo.append(("text", [(g("x"), g("y"))]))
        else:
            raise ValueError(f"element {tag}")
    return number(root.get("width")), number(root.get("height")), todo, out, heads


def match_svg(figures, todo):
    """Pairs (point of a figure, position in the file), and the arrow heads."""
    pairs, heads = [], []
    todo = list(todo)

    def take(tag, n):
        if not todo or todo[0][0] != tag or len(todo[0][1]) != n:
            raise ValueError(f"{tag} with {n} points expected, found {todo[:1]}")
        return todo.pop(0)[1]

    for kind, pts in figures:
        if kind == "ncircle":
            pairs += zip(pts, take("circle", 1))
            pairs += zip(pts, take("text", 1))
        elif kind == "math":
            pairs += zip(pts, take("text", 1))
        elif kind == "arrow":
            pairs += zip(pts, take("line", 2))
            for _ in range(2):
                a, b = take("line", 2)
                pairs.append((pts[1], b))
                heads.append((pts, a))
        else:
            pairs += zip(pts, take(kind, len(pts)))
    if todo:
        raise ValueError(f"{len(todo)} further elements: {todo[0]}")
    return pairs, heads


def match_tex(figures, text, number):
    body = text[text.index("\\begin{tikzpicture}") + len("\\begin{tikzpicture}"):text.index("\\end{tikzpicture}")]
    got = [(number(a), number(b)) for a, b in re.findall(r"\(([^(),]+),([^(),]+)\)", body)]
    pairs = []
    for kind, pts in figures:
        for p in (pts * 2 if kind == "ncircle" else pts):
            if not got:
                raise ValueError(f"no coordinates for {kind} {p}")
            pairs.append((p, got.pop(0)))
    if got:
        raise ValueError(f"further coordinates {got}")
    return pairs


# --------------------------------------------------------------------------- concrete pictures
def rational(v):
    return sympy.Rational(str(v))


def picture(options, axes):
    o = {k: (rational(v) if k in ("padding", "dof_arrow_size") else v) for k, v in options.items()}
    if axes is not None:
        o["axes_3d"] = axes
    return mod().Picture(**o)


def run_draw(items, options={}, axes=None, strict=True):
    """The files show each figure at its place."""
    ax = AXES if axes is None else tuple(tuple(rational(c) for c in a) for a in axes)
    items = [{**i, "pts": [tuple(rational(c) for c in p) for p in i["pts"]]} for i in items]
    pic = picture(options, None if axes is None else ax)
    for i in items:
        draw(pic, i)
    figures = [f for i in items for f in expected(i, ax, rational(options.get("dof_arrow_size", 1)))]
    every = [p for _, pts in figures for p in pts]
    lo = [min((float(p[j]) for p in every)) for j in range(2)]
    hi = [max((float(p[j]) for p in every)) for j in range(2)]
    plain = all(k != "bezier" for k, _ in figures) or strict
    w, h, todo, _, _ = read_svg(pic.as_svg(), float)
    pairs, heads = match_svg(figures, todo)
    s = 450.0
    if options.get("scale") is not None:
        s = float(options["scale"])
    elif options.get("width") is not None:
        s = options["width"] / (hi[0] - lo[0])
    elif options.get("height") is not None:
        s = options["height"] / (hi[1] - lo[1])
    pad = float(options.get("padding", 25))
    if not plain:  # the box of a curve may be anything that holds it: read the scaling from the file
        p, q = pairs[0], max(pairs, key=lambda t: abs(float(t[0][0] - pairs[0][0][0])))
        s = (q[1][0] - p[1][0]) / float(q[0][0] - p[0][0]) if q[0][0] != p[0][0] else s
        if not s > 0:
            return False, f"scaling {s}"
        off = (p[1][0] - s * float(p[0][0]), p[1][1] + s * float(p[0][1]))
    else:
        off = (pad - s * lo[0], pad + s * hi[1])
        for name, got, want in (("width", w, 2 * pad + s * (hi[0] - lo[0])), ("height", h, 2 * pad + s * (hi[1] - lo[1]))):
            if abs(got - want) > 1e-6 * (1 + abs(want)):
                return False, f"the {name} of the canvas is {got}, not {want}"
    tol = 1e-6 * (1 + abs(w) + abs(h))

    def inside(q):
        return -tol <= q[0] <= w + tol and -tol <= q[1] <= h + tol

    for p, q in pairs:
        want = (off[0] + s * float(p[0]), off[1] - s * float(p[1]))
        if math.dist(want, q) > tol:
            return False, f"{p} is drawn at {q} instead of {want} (SVG)"
    for kind, pts in figures:
        img = [(off[0] + s * float(p[0]), off[1] - s * float(p[1])) for p in pts]
        if kind == "bezier":
            img = [tuple(sum(math.comb(3, i) * t**i * (1 - t) ** (3 - i) * img[i][j] for i in range(4)) for j in range(2))
                   for t in [k / 16 for k in range(17)]]
        for q in img:
            if not inside(q):
                return False, f"{kind} {pts} leaves the canvas {w} x {h} at {q}"
    for (a, b), t in heads:
        back = sum((float(a[j]) - float(b[j])) * (t[j] - (off[j] + (s, -s)[j] * float(b[j]))) * (s, -s)[j] for j in range(2))
        if back <= 0:
            return False, f"the head of the arrow {a} -> {b} points the other way"
    if pic.as_svg() != pic.as_svg():
        return False, "another SVG the second time"
    tp = match_tex(figures, pic.as_tikz(), float)
    p0, q0 = tp[0]
    for p, q in tp:
        want = tuple(q0[j] + s / 200 * float(p[j] - p0[j]) for j in range(2))
        if math.dist(want, q) > tol / 200 + 1e-9:
            return False, f"{p} is drawn at {q} instead of {want} (TikZ)"
    return True, ""


def num(rng, big=False):
    k = rng.random()
    if k < 0.2:
        return str(rng.randint(-2, 2))
    if k < 0.25 and big:
        return str(rng.randint(-1000, 1000))
    return f"{rng.randint(-40, 40)}/{rng.choice([1, 2, 3, 7, 16])}"


def random_item(rng, kinds=tuple(NPTS)):
    kind = rng.choice(kinds)
    dim = rng.choice([0, 1, 2, 2, 3, 3]) if kind not in ("arrow", "dof_arrow") else rng.choice([1, 2, 3])
    n = NPTS[kind] if kind != "fill" else rng.randint(3, 5)
    while True:
        pts = [[num(rng, True) for _ in range(dim)] for _ in range(n)]
        q = [project([rational(c) for c in p]) for p in pts]
        if kind == "arrow" and q[0] == q[1] or kind == "dof_arrow" and q[1] == (0, 0):
            continue
        break
    return {"kind": kind, "pts": pts, "form": rng.choice(["tuple", "list", "function"]) if kind != "math" else rng.choice(["tuple", "list"]),
            "shifted": rng.random() < 0.5, "bold": rng.random() < 0.5,
            "anchor": rng.choice(["center", "north", "south", "east", "west", "north east", "north west", "south east", "south west"])}


def random_case(rng):
    items = [random_item(rng) for _ in range(rng.randint(1, 8))]
    options = {}
    figures = [f for i in items for f in expected({**i, "pts": [tuple(rational(c) for c in p) for p in i["pts"]]})]
    ext = [len({p[j] for _, pts in figures for p in pts}) > 1 for j in range(2)]
    if all(k != "bezier" for k, _ in figures):
        how = rng.choice(["", "scale", "width", "height"])
        if how == "scale" or how == "width" and ext[0] or how == "height" and ext[1]:
            options[how] = rng.randint(1, 900)
    if rng.random() < 0.5:
        options["padding"] = str(rng.randint(0, 60))
    return {"kind": "draw", "items": items, "options": options, "axes": None, "strict": False}


def random_pictures(R, lo, hi):
    for i in range(lo, hi):
        case = random_case(random.Random(f"V01-{env.SEED}-{i}"))
        ok, why = attempt(case)
        R.bounded(f"{i}", ok, why, case)


def attempt(case):
    try:
        k = case["kind"]
        if k == "draw":
            return run_draw(case["items"], case["options"], case["axes"], case["strict"])
        if k == "files":
            return run_files(case["seed"])
        return run_png(case["seed"])
    except Exception as ex:
        return False, repr(ex)


def replay(case):
    ok, why = attempt(case)
    return not ok, why


# --------------------------------------------------------------------------- files
def run_files(seed):
    rng = random.Random(f"files{seed}")
    d = tempfile.mkdtemp(prefix="v01-")
    try:
        pic = mod().Picture()
        for _ in range(rng.randint(1, 4)):
            draw(pic, {**(i := random_item(rng)), "pts": [tuple(rational(c) for c in p) for p in i["pts"]]})
        names = [os.path.join(d, f"{seed}-{k}.{e}") for k, e in enumerate(rng.sample(["svg", "tex", "svg", "tex"], 3))]
        pic.save(names)
        for n in names:
            want = pic.as_svg() if n.endswith("svg") else pic.as_tikz()
            if open(n).read() != want:
                return False, f"{os.path.basename(n)} is not what {'as_svg' if n.endswith('svg') else 'as_tikz'} returns"
        os.unlink(names[0])
        pic.save(names[0])
        if not os.path.exists(names[0]):
            return False, "one file name: nothing is written"
        for bad in ("picture", "picture.pdf", "picture.svg.txt"):
            try:
                pic.save(os.path.join(d, bad))
            except ValueError:
                continue
            return False, f"{bad} is accepted"
    finally:
        shutil.rmtree(d)
    return True, ""


def run_png(seed):
    """The PNG is the SVG at a scale that gives it the size asked for."""
    rng = random.Random(f"png{seed}")
    seen = []
    fake = types.ModuleType("cairosvg")
    fake.svg2png = lambda bytestring=None, write_to=None, scale=1.0, **k: seen.append((bytestring, write_to, scale, k))
    old = sys.modules.get("cairosvg")
    sys.modules["cairosvg"] = fake
    try:
        pic = mod().Picture()
        pic.add_line(("0", "0"), (str(rng.randint(1, 9)), str(rng.randint(1, 9)))) if False else None
        pic.add_line((S(0), S(0)), (S(rng.randint(1, 9)), S(rng.randint(1, 9))))
        w, h = read_svg(pic.as_svg(), float)[:2]
        a, b, c = rng.randint(10, 900), rng.randint(10, 900), rng.randint(1, 30) / 10
        for o, want in (({}, 1.0), ({"png_width": a}, a / w), ({"png_height": b}, b / h), ({"png_scale": c}, c)):
            del seen[:]
            pic.save("/nonexistent/x.png", o)
            if len(seen) != 1 or seen[0][1] != "/nonexistent/x.png" or abs(seen[0][2] - want) > 1e-9 * want:
                return False, f"options {o}: scale {[s[2] for s in seen]} instead of {want}"
            if seen[0][0] not in (pic.as_svg(), pic.as_svg().encode()):
                return False, "another picture than the SVG"
    finally:
        if old is None:
            del sys.modules["cairosvg"]
        else:
            sys.modules["cairosvg"] = old
    return True, ""


def files(R):
    for s in range(6):
        for k in ("files", "png"):
            case = {"kind": k, "seed": s}
            ok, why = attempt(case)
            R.bounded(f"{k}/{s}", ok, why, case)


# --------------------------------------------------------------------------- symbolic pictures
class Symbolic:
    """float replaced by names for expressions, Integer by the identity on symbols."""

    def __enter__(self):
        P = self.P = mod()
        self.table = {}

        def value(e):
            if isinstance(e, (int, float, str)):
                return float(e)
            s = sympy.Symbol(f"T{len(self.table)}T")
            self.table[s] = S(e)
            return s

        class Sym:
            def __getattr__(self, n):
                return getattr(sympy, n)

            @staticmethod
            def Integer(v):
                return v if isinstance(v, sympy.Expr) else sympy.Integer(v)

        P.float, P.sympy = value, Sym()
        return self

    def __exit__(self, *a):
        del self.P.float
        self.P.sympy = sympy

    def number(self, text):
        s = sympy.Symbol(text)
        return self.table[s] if s in self.table else sympy.sympify(text, locals={str(t): t for t in self.table}, rational=True).subs(self.table)


def reals(prefix, n):
    return [engine.sym(f"{prefix}{i}") for i in range(n)]


MODES = ("default", "scale", "width", "height")


def symbolic(R, kind, dim, mode, free_axes=False, variant={}, frame_first=True):
    """One element next to a line that spans the bounding box."""
    x0, y0, x1, y1, pad, val = engine.syms("x0 y0 x1 y1 pad val")
    pts = [reals("pqrs"[i], dim) for i in range(NPTS[kind])]
    axes = AXES
    if free_axes:
        axes = tuple(tuple(reals(f"a{i}_", 2)) for i in range(3))
    item = {"kind": kind, "pts": pts, **variant}
    frame = {"kind": "line", "pts": [(x0, y0), (x1, y1)]}
    size = engine.sym("size") if kind == "dof_arrow" else S(1)
    figures = expected(item, axes, size)
    pre = [pad >= 0, val > 0, x0 < x1, y0 < y1]
    if kind == "dof_arrow":
        pre += [size > 0]
    boxed = [(p, j) for _, q in figures for p in q for j in range(2)]
    box = [(x0, x1), (y0, y1)]
    hyp = [c for p, j in boxed for c in (p[j] >= box[j][0], p[j] <= box[j][1]) if c not in (True, sympy.true)]
    v = figures[0][1]
    if kind == "arrow":
        pre.append(sympy.Or(sympy.Ne(v[0][0], v[1][0]), sympy.Ne(v[0][1], v[1][1])))
    if kind == "dof_arrow":
        pre.append(sympy.Or(*[sympy.Ne(c, 0) for c in project(pts[1], axes)]))
    options = {"padding": pad}
    if mode != "default":
        options[mode] = val
    if free_axes:
        options["axes_3d"] = axes
    s = {"default": S(450), "scale": val, "width": val / (x1 - x0), "height": val / (y1 - y0)}[mode]

    def case(m):
        g = lambda e: str(m.get(str(e), 0))  # noqa: E731
        i = [{**item, "pts": [[g(c) for c in p] for p in pts]}, {"kind": "line", "pts": [[g(x0), g(y0)], [g(x1), g(y1)]]}]
        o = {"padding": g(pad)}
        if mode != "default":
            o[mode] = max(1, int(sympy.ceiling(rational(g(val)))))
        if kind == "dof_arrow":
            o["dof_arrow_size"] = g(size)
        return {"kind": "draw", "items": i[::-1] if frame_first else i, "options": o, "axes": [[g(c) for c in a] for a in axes] if free_axes else None,
                "strict": True}

    fall = fallback(R, item, mode, free_axes, dim)
    with Symbolic() as Y:
        def run():
            Y.table.clear()
            pic = mod().Picture(**options)
            if kind == "dof_arrow":
                pic.dof_arrow_size = size
            order = [frame, item] if frame_first else [item, frame]
            for i in order:
                draw(pic, i)
            fig = [f for i in order for f in expected(i, axes, size)]
            w, h, todo, _, _ = read_svg(pic.as_svg(), Y.number)
            pairs, heads = match_svg(fig, todo)
            tex = match_tex(fig, pic.as_tikz(), Y.number)
            return w, h, pairs, heads, tex

        try:
            paths = engine.explore(run, pre + hyp, 300)
            bad = [p.exc for p in paths if p.exc is not None]
            if bad:
                raise bad[0]
        except Exception as ex:
            paths, why = None, repr(ex)
    if paths is None:
        fall(why)
        return
    for k, path in enumerate(paths):
        w, h, pairs, heads, tex = path.value
        c = pre + hyp + path.pc
        R.zero(f"path{k}/width", w - 2 * pad - s * (x1 - x0), c, case)
        R.zero(f"path{k}/height", h - 2 * pad - s * (y1 - y0), c, case)
        for n, (p, q) in enumerate(pairs):
            R.zero(f"path{k}/svg/{n}/x", same(q[0], pad + s * (p[0] - x0)), c, case)
            R.zero(f"path{k}/svg/{n}/y", same(q[1], pad + s * (y1 - p[1])), c, case)
        p0, q0 = tex[0]
        for n, (p, q) in enumerate(tex):
            for j in range(2):
                R.zero(f"path{k}/tikz/{n}/{'xy'[j]}", same(q[j] - q0[j], s / 200 * (p[j] - p0[j])), c, case)
    # an element within the box lies on the canvas
    t = engine.sym("t")
    if mode == "default" and dim == 2:
        R.implies("lemma/on-the-canvas", [pad >= 0, val > 0, t >= x0, t <= x1, x0 < x1],
                  sympy.And(pad + val * (t - x0) >= 0, pad + val * (t - x0) <= 2 * pad + val * (x1 - x0)))


def same(a, b):
    d = S(a) - S(b)
    e = sympy.expand(d)
    return S(0) if e == 0 else sympy.together(e)


def fallback(R, item, mode, free_axes, dim):
    """The form of the text is not known to the reader or the code cannot be followed: random coordinates."""
    def f(why):
        for n in range(8):
            rng = random.Random(f"{item['kind']}{dim}{mode}{n}")
            it = {**item, "pts": [[num(rng) for _ in p] for p in item["pts"]]}
            case = {"kind": "draw", "items": [{"kind": "line", "pts": [["-50", "-50"], ["50", "50"]]}, it], "options": {} if mode == "default" else {mode: 300},
                    "axes": None if not free_axes else [[num(rng), num(rng)] for _ in range(3)], "strict": True}
            try:
                figs = expected({**it, "pts": [tuple(rational(c) for c in p) for p in it["pts"]]}, AXES)
            except Exception:
                continue
            if any(k == "arrow" and (p[0] == p[1] or S.NaN in p[0]) for k, p in figs):
                continue
            ok, text = attempt(case)
            R.bounded(f"fallback/{n}", ok, f"{text} ({why})"[:400], case)
    return f


def bounding_box(R, axis):
    """Two elements whose coordinates in one direction are arbitrary: the canvas is the bounding box with padding."""
    a = reals("c", 4)
    pad = engine.sym("pad")
    other = [S(0), S(1), S(2), S(3)]
    pts = [(c, o) if axis == 0 else (o, c) for c, o in zip(a, other)]

    def case(m):
        p = [[str(m.get(str(c), c)) for c in q] for q in pts]
        return {"kind": "draw", "items": [{"kind": "line", "pts": p[:2]}, {"kind": "line", "pts": p[2:]}], "options": {"padding": str(m.get("pad", 0))},
                "axes": None, "strict": True}

    with Symbolic() as Y:
        def run():
            Y.table.clear()
            pic = mod().Picture(padding=pad)
            draw(pic, {"kind": "line", "pts": pts[:2]})
            draw(pic, {"kind": "line", "pts": pts[2:]})
            w, h, todo, _, _ = read_svg(pic.as_svg(), Y.number)
            return (w, h)[axis], match_svg([("line", pts[:2]), ("line", pts[2:])], todo)[0]

        try:
            paths = engine.explore(run, [pad >= 0], 400)
            if any(p.exc is not None for p in paths):
                raise [p.exc for p in paths if p.exc is not None][0]
        except Exception as ex:
            paths, bad = None, repr(ex)
    if paths is None:
        for n in range(12):
            rng = random.Random(n)
            c = case({**{str(s): num(rng) for s in a}, "pad": "3"})
            ok, why = attempt(c)
            R.bounded(f"fallback/{n}", ok, f"{why} ({bad})"[:300], c)
        return
    R.ok("paths", len(paths) > 0)
    for k, p in enumerate(paths):
        size, pairs = p.value
        c = [pad >= 0] + p.pc
        got = [q[axis] for _, q in pairs]
        R.implies(f"path{k}/on-the-canvas", c, sympy.And(*[sympy.And(g >= pad, g <= size - pad) for g in got]), case)
        R.implies(f"path{k}/tight", c, sympy.And(sympy.Or(*[Eq(g, pad) for g in got]), sympy.Or(*[Eq(g, size - pad) for g in got])), case)


def element_box(R, kind, j, n):
    """minx, miny, maxx, maxy of an element hold all of its points."""
    P = mod()
    a = reals("c", n)
    pts = tuple((c, S(i)) if j == 0 else (S(i), c) for i, c in enumerate(a))

    def make():
        return P.Line(*pts, "black", 1.0) if kind == "Line" else P.Arrow(*pts, "black", 1.0) if kind == "Arrow" else P.Fill(pts, "black", 1.0) if kind == "Fill" \
            else P.Bezier(*pts, "black", 1.0) if kind == "Bezier" else P.Math(*pts, "k", "black", 1, "center") if kind == "Math" \
            else P.NCircle(*pts, 1, "black", "black", "black", 1.0, None, 1.0, "f")

    def case(m):
        k = {"NCircle": "ncircle"}.get(kind, kind.lower())
        p = [[str(m.get(str(c), c)) for c in q] for q in pts]
        return {"kind": "draw", "items": [{"kind": k, "pts": p}], "options": {}, "axes": None, "strict": kind != "Bezier"}

    try:
        lows = engine.explore(lambda: getattr(make(), ("minx", "miny")[j])(), [], 200)
        highs = engine.explore(lambda: getattr(make(), ("maxx", "maxy")[j])(), [], 200)
        if any(p.exc is not None for p in lows + highs):
            raise [p.exc for p in lows + highs if p.exc is not None][0]
    except Exception as ex:
        R.bounded("helpers", True, repr(ex))
        return
    if kind == "Bezier":
        t = engine.sym("t")
        a = [sum(math.comb(3, i) * t**i * (1 - t) ** (3 - i) * a[i] for i in range(4))]
        del t
        a = reals("c", n)  # the hull of the control points holds the curve
        for tag, ps, ge in (("min", lows, True), ("max", highs, False)):
            for k, p in enumerate(ps):
                good = sympy.And(*[(p.value <= c) if ge else (p.value >= c) for c in a])
                R.implies(f"{tag}/path{k}", p.pc, good, case)
        return
    for tag, ps, ge in (("min", lows, True), ("max", highs, False)):
        for k, p in enumerate(ps):
            R.implies(f"{tag}/path{k}", p.pc, sympy.And(sympy.And(*[(p.value <= c) if ge else (p.value >= c) for c in a]), sympy.Or(*[Eq(p.value, c) for c in a])), case)


def bezier_alone(R):
    for n in range(40):
        rng = random.Random(f"bezier{n}")
        case = {"kind": "draw", "items": [random_item(rng, ("bezier",)) for _ in range(rng.randint(1, 2))], "options": {}, "axes": None, "strict": False}
        ok, why = attempt(case)
        R.bounded(f"{n}", ok, why, case)


def units(tier):
    out = []
    for kind in NPTS:
        for dim in range(4):
            if dim == 0 and kind in ("arrow", "dof_arrow"):
                continue
            for mode in MODES:
                if mode != "default" and (dim not in (2,) or kind in ("dof_arrow", "arrow")) and not (kind == "line" and dim == 3):
                    continue
                out.append((f"{kind}/{dim}d/{mode}", lambda R, a=(kind, dim, mode): symbolic(R, *a)))
    for kind in ("line", "fill", "ncircle", "math", "bezier"):
        out.append((f"{kind}/3d/any-axes", lambda R, k=kind: symbolic(R, k, 3, "default", True)))
    for kind in ("line", "arrow", "fill"):
        out.append((f"{kind}/2d/last", lambda R, k=kind: symbolic(R, k, 2, "default", frame_first=False)))
    for a in ("north", "south", "east", "west", "north east", "south west"):
        out.append((f"math/anchor/{a}", lambda R, a=a: symbolic(R, "math", 2, "default", variant={"anchor": a})))
    out.append(("dof_arrow/2d/shifted", lambda R: symbolic(R, "dof_arrow", 2, "default", variant={"shifted": True, "bold": False})))
    for form in ("list", "function"):
        for kind in ("line", "bezier", "arrow", "ncircle", "fill"):
            out.append((f"{kind}/2d/{form}", lambda R, k=kind, f=form: symbolic(R, k, 2, "default", variant={"form": f})))
    for axis in range(2):
        out.append((f"bounding-box/{'xy'[axis]}", lambda R, a=axis: bounding_box(R, a)))
        for kind, n in (("Line", 2), ("Arrow", 2), ("Fill", 3), ("NCircle", 1), ("Math", 1), ("Bezier", 4)):
            out.append((f"box/{kind}/{'xy'[axis]}", lambda R, k=kind, a=axis, n=n: element_box(R, k, a, n)))
    out.append(("bezier-alone", bezier_alone))
    out.append(("files", files))
    n = 400 if tier == "thorough" else 40
    for lo in range(0, n, 20):
        out.append((f"sequences/{lo}", lambda R, lo=lo: random_pictures(R, lo, lo + 20)))
    return out
