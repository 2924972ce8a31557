"""Measures, frames, containment, integration over a cell and lattice points."""
from fractions import Fraction
from itertools import product
from sa.query import *
from checks.geom import *


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), R0)


def measure(axes, n, gdim):
    """n-volume of the parallelepiped spanned by the axes, squared."""
    if n == gdim:
        d = det([[axes[j][i] for j in range(n)] for i in range(gdim)])
        return d * d
    return det([[dot(a, b) for b in axes] for a in axes])


def alts(s, v):
    d = s.data(v)
    if has_top(d):
        raise Unknown("imprecise")
    return list(each_alt(d))


CONST = {"interval": Fraction(1), "triangle": Fraction(1, 2), "tetrahedron": Fraction(1, 6), "quadrilateral": Fraction(1),
         "hexahedron": Fraction(1), "prism": Fraction(1, 2), "pyramid": Fraction(1, 3)}


def cell_check(R, item):
    cell, gdim = item
    s = Session(R.root)
    c = CELLS[cell]
    n = c["tdim"]
    tag = f"{cell} in {gdim}D"
    av, A, b = affine_image(cell, gdim)
    axes = [[A[i][j] for i in range(gdim)] for j in range(n)]
    m2 = measure(axes, n, gdim)
    ref = make(s, cell, av)

    def sizes():
        for r in alts(s, s.meth(ref, "jacobian")):
            r = noabs(r)
            R.ob(rsame(r * r, m2), "jacobian is the measure of the axes", tag, lambda: f"{r!r}"[:300])
        for r in alts(s, s.meth(ref, "volume")):
            r = noabs(r)
            k = CONST[cell]
            R.ob(rsame(r * r, m2 * Rat.const(k * k)), "volume", tag, lambda: f"{r!r}"[:300])
        d = make(s, cell)
        for r in alts(s, s.meth(d, "volume")):
            R.ob(r == Rat.const(CONST[cell]), "volume of the default cell", cell, lambda: f"{r!r}")
    R.guard("sizes", tag, sizes, sess=s)

    def mid():
        w = free_vertices(cell, gdim)
        r2 = make(s, cell, w)
        want = [sum((v[i] for v in w), R0) * Rat.const(Fraction(1, len(w))) for i in range(gdim)]
        for r in alts(s, s.meth(r2, "midpoint")):
            R.ob(data_eq(r, want), "midpoint", tag, lambda: f"{r!r}"[:300])
    R.guard("midpoint", tag, mid, sess=s)

    def frames():
        if n == 1:
            for r in alts(s, s.meth(ref, "tangent")):
                ln = rsqrt(dot(axes[0], axes[0]))
                R.ob(all(noabs(p * ln) == q or p * ln == q for p, q in zip(r, axes[0])) and len(r) == gdim,
                     "tangent is the unit vector along the edge", tag, lambda: f"{r!r}"[:300])
        if n == gdim - 1 and gdim > 1:
            nv = [-axes[0][1], axes[0][0]] if n == 1 else cross(axes[0], axes[1])
            for r in alts(s, s.meth(ref, "normal")):
                ln = rsqrt(dot(nv, nv))
                R.ob(all(p * ln == q for p, q in zip(r, nv)) and len(r) == gdim,
                     "normal is the unit normal", tag, lambda: f"{r!r}"[:300])
        for r in alts(s, s.meth(ref, "scaled_axes")):
            ok = len(r) == n and all(p * rsqrt(dot(a, a)) == q for a, u in zip(axes, r) for p, q in zip(u, a))
            R.ob(ok, "scaled axes are unit vectors along the axes", tag, lambda: f"{r!r}"[:300])
    R.guard("frames", tag, frames, sess=s)

    R.guard("integration", tag, lambda: integration(R, s, cell, n, gdim, tag, axes, b, m2, ref), sess=s)
    if gdim == n:
        R.guard("contains", tag, lambda: containment(R, s, cell, n), sess=s)
    R.guard("lattice", tag, lambda: lattice(R, s, cell, n, gdim, tag), sess=s, dead=None)
    R.guard("incidence", tag, lambda: incidence(R, s, cell, n, gdim, tag), sess=s)
    R.absorb(s)


def frames_of(gdim, n):
    """Axes of cells in special position: aligned, reflected, rotated by exact angles."""
    from itertools import permutations
    unit = [[1 if i == j else 0 for i in range(gdim)] for j in range(gdim)]
    cols = unit + [[-2 * q for q in u] for u in unit]
    if gdim == 2:
        cols += [[3, 4], [-4, 3]]
    if gdim == 3:
        cols += [[1, 2, 2], [2, -2, 1], [0, -3, 4]]
    picks = [p for p in permutations(cols, n) if measure([[Rat.const(q) for q in c] for c in p], n, gdim) != R0]
    step = max(1, len(picks) // 24)
    return picks[::step]


def placed(R, item):
    """Sizes, frames, integrals and incidence on cells with given vertices (signs included)."""
    cell, gdim, part = item
    s = Session(R.root)
    c = CELLS[cell]
    n = c["tdim"]
    tag = f"{cell} in {gdim}D"
    xs = X(gdim)
    ts = [sym(f"t{i}") for i in range(n)]
    picks = frames_of(gdim, n)
    for k, axes in enumerate(picks):
        if k % PARTS != part:
            continue
        o = [2, -1, 3][:gdim] if k % 2 else [0] * gdim
        A = [[Rat.const(q) for q in a] for a in axes]
        b = [Rat.const(q) for q in o]
        vs = [[b[i] + sum((A[j][i] * Rat.const(v[j]) for j in range(n)), R0) for i in range(gdim)] for v in c["verts"]]
        ref = make(s, cell, vs)
        con = f"{tag}, vertex 0 at {o}, axes {[list(a) for a in axes]}"
        j = rsqrt(measure(A, n, gdim))

        def value(rule, thunk, want):
            def go():
                for r in alts(s, thunk()):
                    R.ob(data_eq(r, want), rule, con, lambda: f"is {r!r}, expected {want!r}"[:400])
            R.guard(rule, con, go, sess=s)
        value("jacobian is the measure of the axes", lambda: s.meth(ref, "jacobian"), j)
        value("volume", lambda: s.meth(ref, "volume"), j * Rat.const(CONST[cell]))
        unit = lambda v: [q / rsqrt(dot(v, v)) for q in v]
        value("scaled axes are unit vectors along the axes", lambda: s.meth(ref, "scaled_axes"), [unit(a) for a in A])
        if n == 1:
            value("tangent is the unit vector along the edge", lambda: s.meth(ref, "tangent"), unit(A[0]))
        if n == gdim - 1:
            value("normal is the unit normal", lambda: s.meth(ref, "normal"), unit([-A[0][1], A[0][0]] if n == 1 else cross(A[0], A[1])))
        pt = [b[i] + sum((A[q][i] * ts[q] for q in range(n)), R0) for i in range(gdim)]
        f = R1 + sum((Rat.const(i + 1) * z for i, z in enumerate(xs)), R0) + xs[0] * xs[-1]
        value("integral over a cell is the pulled-back integral", lambda: s.meth(s.scalar(f), "integral", ref),
              rint(subs_pt(f, xs, pt), limits(cell, ts)) * j)
        if k % 5 == 0 and gdim > 1:
            s.it.structural = True
            for od in ([1, 0, 2], [2, 1, 0], [1, 2, 0]):
                if max(od[:gdim]) >= gdim:
                    continue
                vs_ = [xs[q] for q in od[:gdim]]
                value("integral in renamed variables", lambda: s.meth(s.scalar(f), "integral", ref, s.tup(*vs_)),
                      rint(rsubs(f, {sid(z): q for z, q in zip(vs_, pt)}), limits(cell, ts)) * j)
            us = [sym(f"u{i}") for i in range(3)]
            g = rsubs(f, {sid(z): q for z, q in zip(xs, us)})
            ds = [sym(f"s{i}") for i in range(3)]
            value("integral in renamed variables", lambda: s.meth(s.scalar(g), "integral", ref, s.tup(*us), s.tup(*ds)),
                  rint(subs_pt(f, xs, pt), limits(cell, ts)) * j)
        if k in (1, 9):
            R.guard("incidence of a placed cell", con, lambda: touching(R, Session(R.root), cell, n, gdim, con, A, b, vs), sess=s)
    R.absorb(s)


PARTS = 4


def touching(R, s, cell, n, gdim, con, A, b, vs):
    """at_vertex, on_edge and on_face of a placed cell, at images of grid points and at points off the cell's plane."""
    from checks.c02 import faces_of
    ref = make(s, cell, vs)
    V, F = CELLS[cell]["verts"], faces_of(cell)
    vals = [Fraction(-1, 2), Fraction(0), Fraction(1, 2), Fraction(1)] if n < 3 else [Fraction(0), Fraction(1, 2), Fraction(1)]
    pts = []
    for p in product(vals, repeat=n):
        y = [b[i] + sum((A[j][i] * Rat.const(p[j]) for j in range(n)), R0) for i in range(gdim)]
        pts.append((p, 0, y))
    if gdim > n:
        nv = cross(A[0], A[1]) if n == 2 else [-A[0][1], A[0][0]] + [R0] * (gdim - 2)
        if n == 1 and gdim == 3 and all(q == R0 for q in nv):
            nv = [R1, R0, R0]
        pts += [(p, h, [q + Rat.const(h) * w for q, w in zip(y, nv)]) for p, _, y in pts for h in (Fraction(1, 2), -1)]
    for meth, dim in (("at_vertex", 0), ("on_edge", 1), ("on_face", 2)):
        if dim > n:
            continue
        faces = F[dim] if dim in F else []

        def go():
            bad = None
            for p, h, y in pts:
                try:
                    t = s.it.truth(s.meth(ref, meth, s.tup(*y)))
                except Dead:
                    return R.ok(f"{meth}() refuses or answers", con)
                if not isinstance(t, bool):
                    raise Unknown(f"{meth}: {t!r}")
                want = h == 0 and inside(cell, p) and any(all(sum(a * c for a, c in zip(nrm, p)) == off for nrm, off in span_planes([V[i] for i in sorted(f)], n)) for f in faces)
                if t != want:
                    bad = bad or (tuple(map(str, p)), str(h), t)
            R.ob(bad is None, f"{meth}() agrees with the geometry", con, lambda: f"image of {bad[0]} moved off by {bad[1]}: {meth}() is {bad[2]}")
        R.guard(meth, con, go, sess=s)


def integration(R, s, cell, n, gdim, tag, axes, b, m2, ref):
    ts = [sym(f"t{i}") for i in range(n)]
    # the limits: integrate a general cubic over the default cell
    d = make(s, cell)
    xs = X(n)
    coef = []
    poly = R0
    for e in product(range(4), repeat=n):
        if sum(e) <= 3:
            k = sym("c" + "".join(map(str, e)))
            coef.append(k)
            term = k
            for z, q in zip(xs, e):
                term = term * z.ipow(q)
            poly = poly + term
    want = rint(rsubs(poly, {sid(z): t for z, t in zip(xs, ts)}), limits(cell, ts))
    for r in alts(s, s.meth(s.scalar(poly), "integral", d)):
        R.ob(rsame(r, want), "integral of a general cubic over the default cell", cell, lambda: f"{r!r}"[:300])
    # pulled-back integrand for a general cell
    lim = s.data(s.call(s.attr(ref, "integration_limits"), s.tup(*[sym(f"t{i}") for i in range(3)])))
    lims = [(sid(l[0]), l[1], l[2]) for l in lim]
    vol = rint(R1, lims)
    R.ob(vol == Rat.const(CONST[cell]), "integration limits enclose the default cell", tag, lambda: f"{lim!r}")
    f = s.fn_atom("f", gdim)
    pt = [b[i] + sum((axes[j][i] * ts[j] for j in range(n)), R0) for i in range(gdim)]
    jacs = alts(s, s.meth(ref, "jacobian"))
    out = alts(s, s.meth(s.scalar(f), "integral", ref))
    want = [rint(subs_pt(f, X(gdim), pt) * j, lims) for j in jacs]
    ok = all(any(noabs(o) == noabs(w_) for w_ in want) for o in out)
    R.ob(ok, "integral over a cell is the pulled-back integral", tag, lambda: f"{out[0]!r}"[:400])


def containment(R, s, cell, n):
    d = make(s, cell)
    ps = [sym(f"p{i}") for i in range(n)]
    t = s.it.truth(s.meth(d, "contains", s.tup(*ps)))
    vals = [Fraction(-1, 8), Fraction(0), Fraction(1, 8), Fraction(3, 8), Fraction(1, 2), Fraction(5, 8), Fraction(1), Fraction(9, 8)]

    def compare(t, tomap, con, rule):
        bad, unk, cnt = None, 0, 0
        for p in product(vals, repeat=n):
            env = {sid(q): v for q, v in zip(ps, tomap(p))}
            r = eval_bool(t, env)
            cnt += 1
            if r is None:
                unk += 1
            elif r != inside(cell, p):
                bad = bad or (p, r)
        if bad:
            R.bad(rule, con, f"reference point {tuple(map(str, bad[0]))}: contains() is {bad[1]}")
        elif unk:
            R.unknown(rule, con, "undecided points")
        else:
            R.ok(rule, con)
    compare(t, lambda p: [Rat.const(v) for v in p], f"{cell} default", "contains() on the default cell")
    # affine images: contains() must be the image region, or refuse
    mats = {1: [[[2]], [[-3]]], 2: [[[2, 1], [0, 3]], [[-1, 0], [1, 2]], [[0, 1], [1, 0]]],
            3: [[[2, 1, 0], [0, 3, 0], [1, 0, 1]], [[-1, 0, 0], [0, 2, 1], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 2]]]}
    for A in mats[n]:
        bb = [Rat.const(k + 1) for k in range(n)]
        AA = [[Rat.const(z) for z in row] for row in A]
        verts, _, _ = affine_image(cell, n, A=AA, b=bb)
        ref = make(s, cell, verts)
        con = f"{cell} image under {A}"
        try:
            t = s.it.truth(s.meth(ref, "contains", s.tup(*ps)))
        except Dead:
            R.ok("contains() refuses or answers for the image cell", con)
            continue

        def tomap(p):
            return [bb[i] + sum((AA[i][j] * Rat.const(p[j]) for j in range(n)), R0) for i in range(n)]
        compare(t, tomap, con, "contains() on an affine image")


def lattice(R, s, cell, n, gdim, tag):
    """Lattice points: distinct interior points, and affinely attached to the cell."""
    av, A, b = affine_image(cell, gdim)
    count = {"interval": lambda k: k, "triangle": lambda k: k * (k + 1) // 2}
    for k in (1, 2, 3, 4):
        con = f"make_lattice({k}): {tag}"
        d = make(s, cell)
        try:
            pts = s.data(s.meth(d, "make_lattice", k))
        except Dead:
            R.ok("make_lattice refuses or answers", con)
            continue
        vals = [tuple(q.const_value() for q in p) for p in pts]
        R.ob(len(set(vals)) == len(vals) and all(len(v) == n and inside(cell, v) for v in vals),
             "lattice points are distinct points of the cell", con, lambda: f"{vals}")
        if gdim >= n:
            ref = make(s, cell, av)
            for i in range(gdim):
                s.it.assume(("cmp", "!=", b[i]))
            for i in range(n):
                s.it.assume(("cmp", "!=", A[i][i] - R1))
            try:
                ap = s.data(s.meth(ref, "make_lattice", k))
            except Dead:
                R.ok("make_lattice refuses or answers on a mapped cell", con)
                continue
            want = [[b[i] + sum((A[i][j] * Rat.const(v[j]) for j in range(n)), R0) for i in range(gdim)] for v in vals]
            R.ob(data_eq(ap, want), "lattice points move with the cell", con, lambda: f"{ap!r}"[:300])
    for k in (2, 3, 4):
        con = f"make_lattice_with_lines({k}): {tag}"
        d = make(s, cell)
        try:
            pts, pairs = s.data(s.meth(d, "make_lattice_with_lines", k))
        except Dead:
            R.ok("make_lattice_with_lines refuses or answers", con)
            continue
        vals = [tuple(q.const_value() for q in p) for p in pts]
        pp = [tuple(int(q.const_value()) for q in p) for p in pairs]
        R.ob(len(set(vals)) == len(vals) and all(len(v) == n and inside(cell, v) for v in vals),
             "lattice points are distinct points of the cell", con, lambda: f"{vals}")
        R.ob(all(0 <= i < len(vals) and 0 <= j < len(vals) and i != j for i, j in pp), "lines join lattice points", con,
             lambda: f"{pp}")
        R.ob(len({frozenset(p) for p in pp}) == len(pp), "no line is drawn twice", con, lambda: f"{sorted(pp)}")
        step = Fraction(1, k - 1)
        R.ob(all(max(abs(a - b_) for a, b_ in zip(vals[i], vals[j])) == step for i, j in pp if i < len(vals) and j < len(vals)),
             "lines join neighbouring lattice points", con)


def incidence(R, s, cell, n, gdim, tag):
    """at_vertex / on_edge / on_face on concrete points of the default cell (gdim == tdim only)."""
    if gdim != n:
        return
    d = make(s, cell)
    V = CELLS[cell]["verts"]
    from checks.c02 import faces_of
    F = faces_of(cell)
    vals = [Fraction(-1, 2), Fraction(0), Fraction(1, 2), Fraction(1)] if n == 3 else \
        [Fraction(-1, 2), Fraction(0), Fraction(1, 2), Fraction(1), Fraction(3, 2)]

    def on(p, face):
        # p in the convex hull of the face's vertices: inside the cell (or its extension) and in the span
        vs = [V[i] for i in sorted(face)]
        if not inside(cell, p):
            return False
        return all(sum(a * b for a, b in zip(nrm, p)) == off for nrm, off in span_planes(vs, n))
    for meth, dim in (("at_vertex", 0), ("on_edge", 1), ("on_face", 2)):
        if dim > n or (dim == 1 and n == 1) or (dim == 2 and n < 3):
            continue
        bad = None
        for p in product(vals, repeat=n):
            t = s.it.truth(s.meth(d, meth, s.tup(*[Rat.const(v) for v in p])))
            if not isinstance(t, bool):
                raise Unknown(f"{meth}: {t!r}")
            if t != any(on(p, f) for f in F[dim]):
                bad = bad or (tuple(map(str, p)), t)
        R.ob(bad is None, f"{meth}() agrees with the geometry", cell, lambda: f"{meth}({bad[0]}) is {bad[1]}")


def span_planes(vs, n):
    """Equations normal.x = off of the affine span of the points."""
    import itertools
    p0 = vs[0]
    dirs = [tuple(Fraction(a - b) for a, b in zip(v, p0)) for v in vs[1:]]
    # null space of dirs by Gaussian elimination
    rows = [list(d) for d in dirs]
    piv = []
    r = 0
    for cidx in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][cidx] != 0), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        rows[r] = [q / rows[r][cidx] for q in rows[r]]
        for i in range(len(rows)):
            if i != r:
                f = rows[i][cidx]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(cidx)
        r += 1
    out = []
    for free in range(n):
        if free in piv:
            continue
        v = [Fraction(0)] * n
        v[free] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -rows[i][free]
        out.append((v, sum(a * b for a, b in zip(v, p0))))
    return out


def one(R, item):
    (cell_check if len(item) == 2 else placed)(R, item)


def run(R):
    R.floor = 150
    R.explanation = ("Value numbering over rational and square-root terms with symbolic vertices: volume, jacobian, midpoint, "
                     "frames and integrals are compared with their definitions for every affine image of every cell; the "
                     "boolean term of contains() and the incidence tests is compared with the cell on a grid of points "
                     "including the boundary.")
    from sa.report import parallel
    items = [(c, g) for c in CELLS for g in range(CELLS[c]["tdim"], 4)]
    items.sort(key=lambda i: -len(CELLS[i[0]]["verts"]) * i[1])
    parallel(R, one, items + [(c, g, k) for c, g in items for k in range(PARTS)])
