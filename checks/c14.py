"""Polynomial spaces: the span of an element's polynomials and the degrees it declares."""
from checks.sweep import *
from checks import spaces as sp

AXES = [sym(a) for a in ("x", "y", "z")]


def func_space(s, e):
    """(functions of the element, whether they are its polynomials)."""
    if flag(s, "is_ciarlet", e):
        return [func(s, p) for p in seq(s, s.call(P(s, "polys"), e))]
    return [func(s, p) for p in seq(s, s.call(P(s, "direct_basis"), e))]


def rat(p):
    if isinstance(p, Rat):
        return p
    return Rat(Poly({tuple((sp.AX[i], k) for i, k in sorted(((i, k) for i, k in enumerate(m) if k), key=lambda q: sp.AX[q[0]])): c for m, c in p.items()}))


def power(r, n):
    q = R1
    for _ in range(n):
        q = q * r
    return q


def pyramid(k):
    """The rational Lagrange space of the pyramid."""
    z1 = R1 - AXES[2]
    return [power(AXES[0], i) * power(AXES[1], j) * power(AXES[2], c) / power(z1, min(i, j)) for c in range(k + 1) for i in range(k + 1 - c) for j in range(k + 1 - c)]


def lagr(cell, k, t):
    if k < 0:
        return []
    return pyramid(k) if cell == "pyramid" else sp.lagrange_set(cell, k, t)


def valued(ps, vt, rd, rs):
    """Functions of an element's value type whose components are in a scalar set."""
    if rd == 1:
        return [(p,) for p in ps]
    if "symmetric" in vt:
        n = rs[0]
        return sp.symm(ps, n)
    return [tuple(p if i == j else {} for j in range(rd)) for p in ps for i in range(rd)]


def as_funcs(vs):
    return [("all", [rat(p) if p else R0 for p in v]) for v in vs]


class Compare:
    """Span containment between an element's functions and independently listed ones."""

    def __init__(self, fs):
        self.fs = fs
        self.cells = None
        for f in fs:
            if f[0] == "pw":
                self.cells = [tuple(map(tuple, k)) for k, _ in f[1]]
        self.rows = [coeffs(f, self.cells) for f in fs]
        self.poly = all(r is not None for r in self.rows)
        self.span = Span(self.rows) if self.poly else None

    def sides(self, vs):
        """(rows of the element, rows of the given functions) in one coordinate system."""
        if self.poly and all(isinstance(p, dict) for v in vs for p in v):
            return self.rows, [sp.row(v, self.cells) for v in vs]
        gs = as_funcs(vs)
        n = 2 * max(len(self.fs), len(gs)) + 7
        return [values_at(f, n, self.cells) for f in self.fs], [values_at(g, n, self.cells) for g in gs]

    def contains(self, vs):
        a, b = self.sides(vs)
        sp_ = Span(a)
        return all(v in sp_ for v in b)

    def inside(self, vs):
        a, b = self.sides(vs)
        sp_ = Span(b)
        return all(v in sp_ for v in a)

    def difference(self, vs):
        a, b = self.sides(vs)
        A, B = Span(a), Span(b)
        miss = sum(1 for v in b if v not in A)
        extra = sum(1 for v in a if v not in B)
        return len(A), len(B), miss, extra


def one(R, item):
    cls, name, cell, order, kw = item
    s = shared(R, 60_000_000 if R.thorough else 20_000_000)
    lab = label(item)
    t = TDIM.get(cell)
    if t is None:
        return
    try:
        e = create(s, item)
        vt = s.attr(e, "value_type")
        if not isinstance(vt, str):
            raise Unknown("value type")
        if cls == "DirectSerendipity":
            direct(R, s, e, order, lab)
            R.absorb(s)
            return
        if "non-polynomial" in vt or "dual" in vt:
            return
        rd = plain(s, s.attr(e, "range_dim"))
        rs = s.attr(e, "range_shape")
        rs = None if rs is None else tuple(plain(s, rs))
        cmp = Compare(func_space(s, e))
        deg = {}
        for kind in ("lagrange", "polynomial"):
            for side in ("sub", "super"):
                try:
                    v = s.call(P(s, "degree"), e, kind, side)
                except Dead:
                    if s.it.uncaught and s.it.uncaught[-1][0] != "NotImplementedError":
                        R.bad(f"{kind} degree", lab, "reading the degree raises " + where(s))
                    continue
                deg[kind, side] = None if v is None else plain(s, v)
    except Dead:
        R.note(f"{lab}: not created")
        R.absorb(s)
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as ex_:
        R.unknown("degree", lab, repr(ex_))
        R.absorb(s)
        return

    fam = sp.family(cls, cell, order, t)
    if fam is not None:
        def same():
            vs = [v if isinstance(v, tuple) else (v,) for v in fam]
            na, nb, miss, extra = cmp.difference(vs)
            R.ob(not miss and not extra, "space", lab,
                 f"spans dimension {na} instead of {nb}: {miss} functions of the space are missing and {extra} do not belong to it")
        R.guard("space", lab, same, sess=s)

    def sets(kind, k):
        return valued(lagr(cell, k, t) if kind == "lagrange" else sp.total(t, k), vt, rd, rs)

    def degrees(kind):
        sub = deg.get((kind, "sub"))
        if sub is not None and sub >= 0:
            R.ob(cmp.contains(sets(kind, sub)), f"{kind} subdegree", lab, f"{kind}_subdegree is {sub}, but not every function of degree {sub} is in the space")
        if sub is not None:
            R.ob(not cmp.contains(sets(kind, sub + 1)), f"{kind} subdegree", lab, f"{kind}_subdegree is {sub}, but the functions of degree {sub + 1} are in the space")
        if cmp.cells is not None or (kind, "super") not in deg:
            return
        sup = deg[kind, "super"]
        if sup is None:
            if len(cmp.fs) < 120:
                R.ob(not cmp.inside(sets(kind, order + t + 2)), f"{kind} superdegree", lab, f"{kind}_superdegree is None, but the space is contained in degree {order + t + 2}")
            return
        R.ob(cmp.inside(sets(kind, sup)), f"{kind} superdegree", lab, f"{kind}_superdegree is {sup}, but the space contains functions outside that degree")
        if sup > 0:
            R.ob(not cmp.inside(sets(kind, sup - 1)), f"{kind} superdegree", lab, f"{kind}_superdegree is {sup}, but the space is contained in degree {sup - 1}")
    for kind in ("lagrange", "polynomial"):
        R.guard(f"{kind} degree", lab, lambda: degrees(kind), sess=s)
    R.absorb(s)


def direct(R, s, e, k, lab):
    """Direct serendipity spaces on the square: the polynomials of degree k and two more functions."""
    cmp = Compare(func_space(s, e))
    a, b = cmp.sides([(p,) for p in sp.total(2, k)])
    A = Span(a)
    n = len(sp.total(2, k)) + (2 if k > 1 else 1)
    R.ob(len(A) == n and all(v in A for v in b), "space", lab,
         f"the space has dimension {len(A)} instead of {n}" if len(A) != n else "some polynomials of the order of the element are missing")


def run(R):
    R.floor = 100
    R.explanation = ("The polynomials every element constructor builds for a constant (cell, order), as coefficient vectors obtained by "
                     "abstract interpretation, are compared with independent lists of the space and with the complete spaces of the declared degrees.")
    s = session(R)
    items = sweep_items(s, 6 if R.thorough else 4, 0, heavy=R.thorough)
    run_deadline(R, one, items, 2400 if R.thorough else 100)
