"""Diagrams: what is drawn where, and the files pictures are saved to."""
import re
from collections import Counter
from checks.sweep import *

PROBE = '''
import symfem
from symfem.plotting import Picture, colors
from symfem.functions import parse_function_input, ScalarFunction, VectorFunction
def dof_diagram(e): e.plot_dof_diagram("dofs.svg")
def entity_diagram(r): r.plot_entity_diagrams("entities.svg")
def entity_colour(d): return colors.entity(d)
def midpoint(r, d, i): return r.sub_entity(d, i).midpoint()
def picture(kw):
    p = Picture(title="T", desc="D", svg_metadata="", tex_comment="", **kw)
    return p
def kwargs(names, values): return {n: v for n, v in zip(names, values)}
def fill(p, pts):
    p.add_line(pts[0], pts[1], "#112233", 3.0)
    p.add_bezier(pts[2], pts[1], pts[3], pts[4], "#445566", 2.0)
    p.add_ncircle(pts[1], 7, "#778899", "#AABBCC", "#DDEEFF")
    p.add_fill([pts[0], pts[3], pts[2]], "#102030", 0.5)
    p.add_math(pts[3], "m", "#405060")
    p.add_arrow(pts[4], pts[0], "#708090", 3.0)
def svg(p): return p.as_svg()
def tikz(p): return p.as_tikz()
def save(p, names): p.save(names)
def plot(f, r, scale): f.plot(r, "f.svg", value_scale=scale)
def plot_basis(e, n): e.plot_basis_function(n, "b.svg")
def value(f, p): return f.subs(symfem.symbols.x, p).as_sympy()
def adjusted(e): return [d.adjusted_dof_point() for d in e.dofs]
def directions(e): return [d.dof_direction() for d in e.dofs]
'''

PTS = [((0, 0), (2, 1), (1, 3), (-1, 1), (1, Fr(1, 2))), ((0,), (2,), (1,), (-1,), (Fr(1, 2),)),
       ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 3))]


def client(s):
    if not hasattr(s, "diagram_probe"):
        s.diagram_probe = s.probe(PROBE, "diagram_probe_")
        s.saved = []
    return s.diagram_probe


def capture(s, fn, *args):
    """The picture a plotting function saves."""
    got = []
    s.it.overrides["symfem.plotting.Picture.save"] = lambda it, a, k: got.append(a[0])
    try:
        s.call(s.attr(client(s), fn), *args)
    finally:
        del s.it.overrides["symfem.plotting.Picture.save"]
    if len(got) != 1:
        raise Unknown(f"{len(got)} pictures saved")
    return got[0]


def point(s, v):
    d = s.data(v)
    if not isinstance(d, list):
        raise Unknown("point")
    return [p if isinstance(p, Rat) else Rat.const(p) for p in d]


class Elements:
    """The elements of a picture by class, with their points as terms."""

    def __init__(self, s, pic):
        self.s = s
        self.axes = [point(s, a) for a in seq(s, s.attr(pic, "axes_3d"))]
        self.circles, self.lines, self.arrows, self.fills, self.beziers = [], [], [], [], []
        for e in seq(s, s.attr(pic, "elements")):
            n = e.cls.name
            if n == "NCircle":
                num = plain(s, s.attr(e, "number"))
                self.circles.append((num, point(s, s.attr(e, "centre")), (s.attr(e, "color"), s.attr(e, "fill_color"))))
            elif n == "Line":
                self.lines.append((point(s, s.attr(e, "start")), point(s, s.attr(e, "end"))))
            elif n == "Arrow":
                self.arrows.append((point(s, s.attr(e, "start")), point(s, s.attr(e, "end"))))
            elif n == "Fill":
                self.fills.append([point(s, v) for v in seq(s, s.attr(e, "vertices"))])
            elif n == "Bezier":
                self.beziers.append([point(s, s.attr(e, a)) for a in ("start", "mid1", "mid2", "end")])

    def flat(self, p):
        """Projection to the plane of the picture."""
        p = [q if isinstance(q, Rat) else Rat.const(q) for q in p]
        if len(p) == 0:
            return [R0, R0]
        if len(p) == 1:
            return [p[0], R0]
        if len(p) == 2:
            return p
        return [sum((self.axes[i][j] * p[i] for i in range(3)), R0) for j in range(2)]


def num(r):
    f = float_of(r)
    if f is None:
        raise Unknown("value of " + repr(r)[:60])
    return f


def close(a, b):
    return all(abs(num(p - q)) < 1e-9 for p, q in zip(a, b))


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


def parallel_to(a, b):
    """Whether a is a positive multiple of b (plane vectors)."""
    cr = num(a[0] * b[1] - a[1] * b[0])
    return abs(cr) < 1e-9 and num(a[0] * b[0] + a[1] * b[1]) > 0


def dof_diagram(R, s, item, lab):
    e = create(s, item)
    try:
        want_pos = [point(s, p) for p in seq(s, s.meth(e, "dof_plot_positions"))]
        dirs = seq(s, s.meth(e, "dof_directions"))
        dirs = [None if d is None else point(s, d) for d in dirs]
        ents = [tuple(plain(s, q)) for q in seq(s, s.meth(e, "dof_entities"))]
    except Dead:
        R.bad("DOF diagrams", lab, "the DOFs' positions cannot be read: " + where(s))
        return
    if flag(s, "is_ciarlet", e):
        adj = [point(s, p) for p in seq(s, s.call(s.attr(client(s), "adjusted"), e))]
        R.ob(len(adj) == len(want_pos) and all(close(p, q) for p, q in zip(adj, want_pos)), "positions of DOFs", lab,
             "the plot positions are not the adjusted points of the DOFs in order")
        dd = [None if d is None else point(s, d) for d in seq(s, s.call(s.attr(client(s), "directions"), e))]
        R.ob(len(dd) == len(dirs) and all((p is None) == (q is None) and (p is None or close(p, q)) for p, q in zip(dd, dirs)), "directions of DOFs", lab,
             "the directions are not those of the DOFs in order")
    else:
        ref = s.attr(e, "reference")
        try:
            ok = all(s.data(s.meth(ref, "contains", s.tup(*p))) is not False for p in want_pos)
        except Dead:
            ok = True
        if any(c.name == "DirectElement" for c in e.cls.mro()):
            ok = ok and len({tuple(map(repr, p)) for p in want_pos}) == len(want_pos)
        R.ob(ok, "positions of DOFs", lab, "positions of basis functions coincide or lie outside the cell")
    try:
        pic = capture(s, "dof_diagram", e)
    except Dead:
        R.bad("DOF diagrams", lab, "drawing the DOFs raises " + where(s))
        return
    E = Elements(s, pic)
    n = len(want_pos)
    seen = Counter(c[0] for c in E.circles)
    miss = [i for i in range(n) if seen.get(i, 0) != 1]
    R.ob(not miss and len(E.circles) == n, "every DOF drawn once", lab, f"DOFs {miss[:5]} are drawn {[seen.get(i, 0) for i in miss[:5]]} times; {len(E.circles)} markers for {n} DOFs")
    bad = []
    for i, c, cols in E.circles:
        if not 0 <= i < n:
            continue
        want = E.flat(want_pos[i])
        if s.call(s.attr(client(s), "entity_colour"), ents[i][0]) not in cols:
            bad.append((i, "colour"))
        if dirs[i] is None:
            if not close(c, want):
                bad.append((i, "position"))
            continue
        d = E.flat(dirs[i])
        if abs(num(d[0])) + abs(num(d[1])) < 1e-12:
            continue
        off = sub(c, want)
        if abs(num(off[0])) + abs(num(off[1])) > 1e-9 and (not parallel_to(off, d) or num(off[0]) ** 2 + num(off[1]) ** 2 > 0.01):
            bad.append((i, "position"))
        if not any(close(a, c) and parallel_to(sub(b, a), d) for a, b in E.arrows):
            bad.append((i, "arrow"))
    R.ob(not bad, "DOFs drawn at their positions", lab, f"DOF {bad[:1]} is not drawn at its position, along its direction and in its entity's colour")
    cell_lines(R, s, e, E, lab)


def edges_of(s, ref):
    vs = [point(s, v) for v in seq(s, s.attr(ref, "vertices"))]
    return vs, [tuple(plain(s, e)) for e in seq(s, s.attr(ref, "edges"))]


def cell_lines(R, s, e, E, lab):
    vs, edges = edges_of(s, s.attr(e, "reference"))
    want = [{fkey(E.flat(vs[a])), fkey(E.flat(vs[b]))} for a, b in edges]
    got = [{fkey(a), fkey(b)} for a, b in E.lines]
    R.ob(all(w in got for w in want) and all(g in want for g in got), "edges of the cell drawn", lab, "the lines of the diagram are not the edges of the cell")


def fkey(p):
    return tuple(round(num(q), 7) + 0.0 for q in p)


def entity_diagram(R, s, cell, ref, lab):
    try:
        pic = capture(s, "entity_diagram", ref)
    except Dead:
        R.bad("entity diagrams", lab, "drawing the sub-entities raises " + where(s))
        return
    E = Elements(s, pic)
    tdim = plain(s, s.attr(ref, "tdim"))
    vs, edges = edges_of(s, ref)
    P_ = lambda n: s.attr(client(s), n)
    by = {}
    col = {s.call(P_("entity_colour"), d): d for d in range(tdim + 1)}
    for n, c, cols in E.circles:
        d = next((col[q] for q in cols if q in col), None)
        by.setdefault(d, {}).setdefault(n, []).append(c)
    trans, lam = {}, None
    for d in range(tdim + 1):
        cnt = plain(s, s.meth(ref, "sub_entity_count", d))
        here = by.get(d, {})
        ok = set(here) == set(range(cnt)) and all(len(q) == 1 for q in here.values())
        R.ob(ok, "every sub-entity labelled once", f"{lab}, dimension {d}", f"labels {sorted(map(str, here))[:12]} for {cnt} sub-entities")
        if not ok:
            continue
        mids = [E.flat(point(s, s.call(P_("midpoint"), ref, d, i))) for i in range(cnt)]
        c = [here[i][0] for i in range(cnt)]
        if lam is None and cnt > 1:
            a, b = sub(c[1], c[0]), sub(mids[1], mids[0])
            j = 0 if abs(num(b[0])) > 1e-9 else 1
            lam = num(a[j]) / num(b[j])
        if lam is None:
            continue
        good = lam > 0 and all(abs(num(x) - lam * num(y)) < 1e-9 for i in range(cnt) for x, y in zip(sub(c[i], c[0]), sub(mids[i], mids[0])))
        R.ob(good, "sub-entities labelled at their midpoints", f"{lab}, dimension {d}", "the labels are not at a scaled copy of the midpoints of the sub-entities")
        trans[d] = [num(x) - lam * num(y) for x, y in zip(c[0], mids[0])]
    if lam is None or len(trans) != tdim + 1:
        return
    want = Counter()
    for d, tr in trans.items():
        for a, b in edges:
            want[frozenset(tuple(round(lam * num(q) + o, 7) + 0.0 for q, o in zip(E.flat(vs[v]), tr)) for v in (a, b))] += 1
    got = Counter(frozenset((fkey(a), fkey(b))) for a, b in E.lines)
    R.ob(set(got) == set(want), "edges drawn for every dimension", lab, "the lines are not the edges of a copy of the cell for every dimension")
    R.ob(len({tuple(round(q, 6) for q in t) for t in trans.values()}) == tdim + 1, "diagrams side by side", lab, "the diagrams of two dimensions are drawn on top of each other")


def render(s, v):
    """Text of a string term."""
    from sa.values import StrT
    if isinstance(v, str):
        return v
    if not isinstance(v, StrT):
        raise Unknown("text")
    out = []
    for p in v.parts:
        if isinstance(p, (str, StrT)):
            out.append(render(s, p))
            continue
        d = s.data(p)
        if isinstance(d, Rat):
            f = num(d)
            out.append(repr(int(f)) if f == int(f) and abs(f) < 1e15 else f"{f:.12f}")
        else:
            out.append(str(d))
    return "".join(out)


NUM = r"(-?[0-9][-+0-9.e]*)"


def drawn(text, kind):
    """[(class, points, colours)] in drawing order, read from the SVG or TikZ text."""
    out = []
    if kind == "svg":
        for m in re.finditer(r"<(line|path|circle|text|polygon)\b([^>]*)>([^<]*)", text):
            tag, att, body = m.groups()
            a = dict(re.findall(r"([a-z0-9-]+)='([^']*)'", att))
            cols = tuple(sorted(v for k, v in a.items() if k in ("stroke", "fill") and v.startswith("#")))
            if tag == "line":
                pts = [(a["x1"], a["y1"]), (a["x2"], a["y2"])]
            elif tag == "path":
                pts = re.findall(NUM + "," + NUM, a["d"])
            elif tag == "circle":
                pts = [(a["cx"], a["cy"])]
            elif tag == "text":
                pts = [(a["x"], a["y"])]
            else:
                pts = re.findall(NUM + "," + NUM, a["points"])
            out.append((tag, [(float(x), float(y)) for x, y in pts], cols, body.strip()))
        return out
    defs = dict(re.findall(r"\\definecolor\{(\w+)\}\{HTML\}\{(\w+)\}", text))
    for m in re.finditer(r"\\(draw|fill|node)\[([^\]]*)\]([^;]*);", text):
        tag, att, body = m.groups()
        cols = tuple(sorted("#" + defs[c] for c in re.findall(r"\w+", att) if c in defs))
        pts = [(float(x), float(y)) for x, y in re.findall(r"\(" + NUM + "," + NUM + r"\)", body)]
        if tag == "node":
            k = "text"
        elif tag == "fill":
            k = "polygon"
        elif "circle" in body:
            k = "circle"
        elif "controls" in body:
            k = "path"
        else:
            k = "line"
        out.append((k, pts, cols, body))
    return out


def picture(R, s, which, kw, lab):
    P_ = lambda n: s.attr(client(s), n)
    pts = PTS[which]
    k = s.call(P_("kwargs"), s.lst(*kw), s.lst(*[s.num(v, "int") if isinstance(v, int) else v for v in kw.values()]))
    p = s.call(P_("picture"), k)
    s.call(P_("fill"), p, s.lst(*[s.tup(*[Rat.const(Fr(c)) for c in q]) for q in pts]))
    ax = [[float(num(c)) for c in point(s, a)] for a in seq(s, s.attr(p, "axes_3d"))]
    if "axes_3d" in kw:
        ax = AXES3

    def flat(q):
        q = [float(Fr(c)) for c in q]
        if len(q) == 1:
            return (q[0], 0.0)
        if len(q) == 2:
            return tuple(q)
        return tuple(sum(ax[i][j] * q[i] for i in range(3)) for j in range(2))
    f = [flat(q) for q in pts]
    want = [("line", [f[0], f[1]], "#112233"), ("path", [f[2], f[1], f[3], f[4]], "#445566"), ("circle", [f[1]], "#778899"), ("text", [f[1]], "#AABBCC"),
            ("polygon", [f[0], f[3], f[2]], "#102030"), ("text", [f[3]], "#405060"), ("line", [f[4], f[0]], "#708090")]
    lo = [min(q[j] for q in f) for j in range(2)]
    hi = [max(q[j] for q in f) for j in range(2)]
    for kind in ("svg", "tikz"):
        try:
            text = render(s, s.call(P_(kind), p))
        except Dead:
            R.bad("pictures", f"{lab}, {kind}", "drawing raises " + where(s))
            continue
        got = drawn(text, kind)
        if kind == "svg":
            got = [g for n, g in enumerate(got) if not (g[0] == "line" and n > 0 and g[2] == ("#708090",) and got[n - 1][0] == "line" and got[n - 1][2] == ("#708090",))]
        same = [g[0] for g in got] == [w[0] for w in want] and all(w[2] in g[2] and len(w[1]) == len(g[1]) for g, w in zip(got, want))
        R.ob(same, "elements of a picture", f"{lab}, {kind}", f"draws {[(g[0], g[2]) for g in got][:8]}")
        if not same:
            continue
        a, b = f[0], f[1]
        sx = (got[0][1][1][0] - got[0][1][0][0]) / (b[0] - a[0])
        x0 = got[0][1][0][0] - sx * a[0]
        sy = (-1 if kind == "svg" else 1) * sx
        y0 = got[0][1][0][1] - sy * a[1]
        tol = 1e-6 * max(1, abs(sx))
        ok = sx > 0 and all(abs(sx * q[0] + x0 - g[0]) < tol and abs(sy * q[1] + y0 - g[1]) < tol for w, h in zip(want, got) for q, g in zip(w[1], h[1]))
        R.ob(ok, "one map for all elements", f"{lab}, {kind}", "points are not drawn at one uniformly scaled, shifted (SVG: upside down) image of their coordinates")
        if kind == "svg":
            m = re.search(r"<svg width='" + NUM + "' height='" + NUM + "'", text)
            if m is None:
                R.unknown("size of a picture", lab, "no size")
                continue
            w, h = float(m.group(1)), float(m.group(2))
            pad = kw.get("padding", 25)
            inside = abs(sx * lo[0] + x0 - pad) < tol and abs(w - pad - (sx * hi[0] + x0)) < tol and abs(sy * hi[1] + y0 - pad) < tol and abs(h - pad - (sy * lo[1] + y0)) < tol
            R.ob(inside, "size of a picture", lab, "the picture is not its content with the padding around it")
            if "scale" in kw:
                R.ob(abs(sx - kw["scale"]) < tol, "size of a picture", lab + " (scale)", f"the scale is {sx} instead of {kw['scale']}")
            if "width" in kw:
                R.ob(abs(sx * (hi[0] - lo[0]) - kw["width"]) < tol, "size of a picture", lab + " (width)", "the content does not have the width asked for")
            if "height" in kw:
                R.ob(abs(sx * (hi[1] - lo[1]) - kw["height"]) < tol, "size of a picture", lab + " (height)", "the content does not have the height asked for")
            R.ob("<title>T</title>" in text and "<desc>D</desc>" in text and text.rstrip().endswith("</svg>"), "elements of a picture", lab + " (title)", "title or description is missing")


AXES3 = [[2, 1], [-1, 3], [1, 1]]


def saving(R, s):
    P_ = lambda n: s.attr(client(s), n)
    got = []

    def rec(kind, at):
        def f(it, a, k):
            fn = a[1] if len(a) > 1 else k.get("filename")
            got.append((kind, fn))
            return None
        return f
    for n in ("svg", "tikz", "png"):
        s.it.overrides[f"symfem.plotting.Picture.as_{n}"] = rec(n, 1)
    empty = s.call(P_("picture"), s.call(P_("kwargs"), s.lst(), s.lst()))
    for names, want in [("a.svg", [("svg", "a.svg")]), ("b.tex", [("tikz", "b.tex")]), ("c.png", [("png", "c.png")]),
                        (["a.svg", "b.tex", "d.e.png", "f.svg"], [("svg", "a.svg"), ("tikz", "b.tex"), ("png", "d.e.png"), ("svg", "f.svg")])]:
        del got[:]
        try:
            s.call(P_("save"), empty, s.lst(*names) if isinstance(names, list) else names)
        except Dead:
            R.bad("saving", f"save({names!r})", "raises " + where(s))
            continue
        R.ob(got == want, "saving", f"save({names!r})", f"writes {got} instead of {want}")
    for n in ("a.gif", "noextension"):
        R.ob(s.dead(s.attr(client(s), "save"), empty, n), "saving", f"save({n!r})", "a file name of an unknown type is accepted")
    for n in ("svg", "tikz", "png"):
        del s.it.overrides[f"symfem.plotting.Picture.as_{n}"]


def function_plots(R, s, cell, lab):
    """Plots of functions show their values at the lattice points, in proportion, whatever was plotted before."""
    P_ = lambda n: s.attr(client(s), n)
    ref = s.ref(cell)
    t = TDIM[cell]
    x = [sym(a) for a in "xyz"[:t]]
    f = sum((Rat.const(2 * i + 1) * a * a for i, a in enumerate(x)), Rat.const(3)) + x[0]
    v = [Rat.const(i + 2) * x[0] + x[-1] * x[-1] + Rat.const(1) for i in range(t)]
    lat = [point(s, p) for p in seq(s, s.meth(ref, "make_lattice_float", 6))]
    if t < 3:
        scalar_plots(R, s, lab, ref, t, x, f, P_)
    if t > 1:
        vector_plots(R, s, lab, ref, t, x, v, lat, P_)


def scalar_plots(R, s, lab, ref, t, x, f, P_):
    pts, pairs = seq(s, s.meth(ref, "make_lattice_with_lines_float", 6))
    pts = [point(s, p) for p in seq(s, pts)]
    pairs = [tuple(plain(s, q)) for q in seq(s, pairs)]

    def at(r, p):
        return num(subs_pt(r, x, p))

    fo = s.scalar(f)
    ratio = {}
    for scale in (1, 2, 1):
        E = Elements(s, capture(s, "plot", fo, ref, s.num(Rat.const(scale))))
        got = E.beziers
        R.ob(len(got) == len(pairs), "plots of scalar functions", f"{lab}, scale {scale}", f"{len(got)} curves for {len(pairs)} lattice lines")
        if len(got) != len(pairs):
            return
        # value direction of the picture: last coordinate
        i, j = pairs[0]
        base = E.flat(pts[i] + [R0])
        k = (num(got[0][0][1]) - num(base[1])) / at(f, pts[i])
        up = num(E.flat(pts[i] + [R1])[1]) - num(base[1])
        ok = k * up > 0
        for (i, j), b in zip(pairs, got):
            for q, z in ((i, b[0]), (j, b[3])):
                w = E.flat(pts[q] + [R0])
                e = [num(c) for c in E.flat(pts[q] + [R1])]
                w = [num(c) for c in w]
                val = k / up * at(f, pts[q])
                if any(abs(num(c) - (a + val * (d - a))) > 1e-6 for c, a, d in zip(z, w, e)):
                    ok = False
        R.ob(ok, "plots of scalar functions", f"{lab}, scale {scale} values", "the ends of the curves are not at the lattice points, raised in proportion to the function's values")
        if scale in ratio:
            R.ob(abs(ratio[scale] - k) < 1e-9, "plots do not depend on earlier plots", f"{lab}, scalar", "the same plot is drawn differently after another plot")
        elif ratio:
            R.ob(abs(k - scale * ratio[1]) < 1e-9, "plots do not depend on earlier plots", f"{lab}, scalar, value scale {scale}", f"with value scale {scale} values are drawn with factor {k} instead of {scale * ratio[1]}")
        ratio.setdefault(scale, k)


def vector_plots(R, s, lab, ref, t, x, v, lat, P_):
    vo = s.vector(v)
    ratio = {}
    for scale in (1, 2, 1):
        E = Elements(s, capture(s, "plot", vo, ref, s.num(Rat.const(scale))))
        R.ob(len(E.arrows) == len(lat), "plots of vector functions", f"{lab}, scale {scale}", f"{len(E.arrows)} arrows for {len(lat)} points")
        if len(E.arrows) != len(lat):
            return
        k, ok = None, True
        for p, (a, b) in zip(lat, E.arrows):
            vec = [subs_pt(c, x, p) for c in v]
            w = [num(c) for c in E.flat(vec)]
            d = [num(c) for c in sub(b, a)]
            if k is None:
                k = d[0] / w[0]
            ok = ok and close(a, E.flat(p)) and all(abs(q - k * r) < 1e-6 for q, r in zip(d, w))
        R.ob(ok and k > 0, "plots of vector functions", f"{lab}, scale {scale} values", "the arrows do not start at the lattice points and point along the function's values in proportion")
        if scale in ratio:
            R.ob(abs(ratio[scale] - k) < 1e-9, "plots do not depend on earlier plots", f"{lab}, vector", "the same plot is drawn differently after another plot")
        elif ratio:
            R.ob(abs(k - scale * ratio[1]) < 1e-9, "plots do not depend on earlier plots", f"{lab}, vector, value scale {scale}", f"with value scale {scale} values are drawn with factor {k} instead of {scale * ratio[1]}")
        ratio.setdefault(scale, k)


CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
PICTURES = [{}, {"scale": 100}, {"width": 300}, {"height": 200, "padding": 10}, {"axes_3d": AXES3}]


def one(R, item):
    s = shared(R, 20_000_000)
    lab = "?"
    try:
        if item[0] == "entities":
            lab = "entity diagram of a " + item[1]
            entity_diagram(R, s, item[1], s.ref(item[1]), lab)
        elif item[0] == "picture":
            kw = dict(item[2])
            lab = f"picture of {('plane', 'line', 'space')[item[1]]} points with {kw}"
            if "axes_3d" in kw:
                kw["axes_3d"] = s.tup(*[s.tup(*[Rat.const(c) for c in a]) for a in AXES3])
            picture(R, s, item[1], kw, lab)
        elif item[0] == "saving":
            lab = "Picture.save"
            saving(R, s)
        elif item[0] == "plots":
            lab = "plots on a " + item[1]
            function_plots(R, s, item[1], lab)
        else:
            lab = "DOF diagram of " + label(item)
            if item[0] == "Bernstein" and item[3] > 2:
                return
            dof_diagram(R, s, item, lab)
    except Dead:
        R.unknown("diagrams", lab, "raises " + where(s))
    except (Unknown, Budget, ZeroDivisionError, NotLinear, KeyError) as e:
        R.unknown("diagrams", lab, repr(e))
    R.absorb(s)


def run(R):
    R.floor = 100
    R.explanation = ("Abstract interpretation of the plotting functions: the elements of the pictures they build (as terms) and the SVG and TikZ text "
                     "of pictures of constant points are compared with the positions, numbers and maps the diagrams stand for.")
    s = session(R)
    items = [("saving",)] + [("entities", c) for c in CELLS] + [("picture", w, tuple(k.items())) for w in range(3) for k in PICTURES if (w == 2 or "axes_3d" not in k) and (w != 1 or "height" not in k)]
    items = [i if i[0] != "picture" else (i[0], i[1], tuple((a, "axes" if a == "axes_3d" else b) for a, b in i[2])) for i in items]
    items += [("plots", c) for c in CELLS[:5]]
    items += sweep_items(s, 4 if R.thorough else 2, 1 if R.thorough else 0, heavy=False)
    run_deadline(R, one, items, 900 if R.thorough else 90)
