"""Functionals: each evaluates to the linear functional its name and parameters define, and reports its own data."""
from fractions import Fraction as Fr
from sa.query import *
from sa.query import det as rdet
from checks.common import *
from checks.geom import CELLS, affine_image, make, noabs
from checks.c04 import spec as mapping_spec, solve

F = "symfem.functionals."

PROBE = '''
from symfem.functions import parse_function_input
class Dof:
    """Stand-in for a sub-element's functional."""
    def __init__(self, point, direction):
        self.point = point
        self.direction = direction
    def dof_point(self): return self.point
    def dof_direction(self): return self.direction
def attr(o, n): return getattr(o, n)
def tex(o):
    desc, defs = o.get_tex()
    for i in defs:
        assert isinstance(i, str)
    assert isinstance(desc, str)
    return 1
'''

def cst(name):
    """An arbitrary constant."""
    return Rat.atom("fn", name, (), ())


def dot(u, v):
    return sum((a * b for a, b in zip(u, v)), R0)


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def entity(s, ref, dim, num):
    """(cell name, vertices as Rat lists) of a sub-entity; cell tables and sub-entities are decided by C02."""
    e = s.meth(ref, "sub_entity", dim, num)
    name = s.attr(e, "name")
    return e, name, s.data(s.attr(e, "vertices"))


def code_limits(s, name):
    """Integration limits of the default cell (their region is decided by C03)."""
    key = "limits " + name
    if not hasattr(s, "cache"):
        s.cache = {}
    if key not in s.cache:
        lim = s.data(s.call(s.attr(make(s, name), "integration_limits"), s.tup(*[sym(f"t{i}") for i in range(3)])))
        s.cache[key] = [(sid(l[0]), l[1], l[2]) for l in lim]
    return s.cache[key]


class Dom:
    """Independent geometry of an affine entity."""

    def __init__(self, name, verts, s=None):
        self.lim = code_limits(s, name) if s else None
        self.name, self.v = name, verts
        n = CELLS[name]["tdim"]
        self.n = n
        dv = CELLS[name]["verts"]
        o = verts[0]
        self.axes = []
        for i in range(n):
            e = tuple(1 if j == i else 0 for j in range(n))
            k = dv.index(e)
            self.axes.append([a - b for a, b in zip(verts[k], o)])
        self.ts = [sym(f"t{i}") for i in range(n)]
        self.pt = [o[i] + sum((self.axes[j][i] * self.ts[j] for j in range(n)), R0) for i in range(len(o))]
        self.gdim = len(o)
        g = [[dot(a, b) for b in self.axes] for a in self.axes]
        self.jac = rabs(rdet([list(a) for a in self.axes])) if n == self.gdim else rsqrt(rdet(g))
        self.refvol = {"interval": Fr(1), "triangle": Fr(1, 2), "quadrilateral": Fr(1), "tetrahedron": Fr(1, 6),
                       "hexahedron": Fr(1), "prism": Fr(1, 2), "pyramid": Fr(1, 3)}[name]

    def at(self, r):
        """Compose a term in x with the parametrisation of the entity."""
        return subs_pt(r, X(self.gdim), self.pt)

    def integral(self, integrand, jac=None):
        return rint(integrand * (self.jac if jac is None else jac), self.lim)

    def tangent(self):
        ln = rsqrt(dot(self.axes[0], self.axes[0]))
        return [a / ln for a in self.axes[0]]

    def normal(self):
        a = self.axes
        nv = [-a[0][1], a[0][0]] if self.n == 1 else cross(a[0], a[1])
        ln = rsqrt(dot(nv, nv))
        return [c / ln for c in nv]

    def midpoint(self):
        return [sum((v[i] for v in self.v), R0) * Rat.const(Fr(1, len(self.v))) for i in range(self.gdim)]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a == b or noabs(a) == noabs(b)
    return data_eq(a, b)


def value(R, s, rule, con, thunk, want):
    def go():
        got = s.data(thunk())
        if has_top(got):
            raise Unknown(f"imprecise {got!r}"[:200])
        bad = [a for a in each_alt(got) if not same(a, want)]
        R.ob(not bad, rule, con, lambda: f"computes {bad[0]!r}, expected {want!r}"[:700])
    R.guard(rule, con, go, sess=s)


def cells_of(s, cell, images):
    """(tag, reference, map data or None) for the default cell and affine images of it."""
    n = CELLS[cell]["tdim"]
    yield f"{cell}", make(s, cell), None
    for k, A in enumerate(images.get(cell, ())):
        A = [[Rat.const(q) if not isinstance(q, Rat) else q for q in r] for r in A]
        b = [Rat.const(q) for q in (2, -1, 3)[:n]]
        verts, _, _ = affine_image(cell, n, A=A, b=b)
        yield f"{cell} image {k}", make(s, cell, verts), (A, b)


IMAGES = {"interval": [[[3]], [[-2]]],
          "triangle": [[[2, 1], [0, 3]], [[0, 1], [2, 0]]],
          "quadrilateral": [[[2, 1], [0, 3]], [[0, 1], [2, 0]]],
          "tetrahedron": [[[2, 1, 0], [0, 3, 0], [1, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 2]]],
          "hexahedron": [[[2, 0, 0], [0, 3, 0], [1, 0, 1]]]}


def common(R, s, P, con, o, ref, ent, dom, mapping):
    eq(R, s, "functional reports its entity", con + ".entity_dim", lambda: s.meth(o, "entity_dim"), ent[0])
    eq(R, s, "functional reports its entity", con + ".entity_number", lambda: s.meth(o, "entity_number"), ent[1])
    eq(R, s, "functional reports its mapping", con + ".mapping", lambda: s.attr(o, "mapping"), mapping)


def described(R, s, P, con, o):
    def go():
        r = s.data(s.call(P("tex"), o))
        R.ok("functional describes itself", con + ".get_tex")
    try:
        go()
    except Dead:
        R.bad("functional describes itself", con + ".get_tex", f"every path raises: {s.it.uncaught[-1:]!r}"[:400])
    except (Unknown, Budget) as e:
        R.unknown("functional describes itself", con + ".get_tex", repr(e))


def adjusted(R, s, con, o, ref, ent, point, moved):
    """Drawing position: the DOF point, pulled towards the entity midpoint for integral functionals."""
    if ent[0] == 0 or not moved:
        want = point
    else:
        e, nm, v = entity(s, ref, *ent)
        mid = [sum((p[i] for p in v), R0) * Rat.const(Fr(1, len(v))) for i in range(len(v[0]))]
        want = [m + Rat.const(Fr(7, 10)) * (p - m) for m, p in zip(mid, point)]
    value(R, s, "DOF points", con + ".adjusted_dof_point", lambda: s.meth(o, "adjusted_dof_point"), want)


def points(R, cell):
    """Functionals evaluated at a point."""
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    P = lambda n: s.attr(m, n)
    n = CELLS[cell]["tdim"]
    xs = X(3)
    ref = make(s, cell)
    f = s.fn_atom("f", n)
    vf = fvec(s, "f", n, n)
    mf = fmat(s, "f", n, n, n)
    pts = {"constant point": [Rat.const(q) for q in (Fr(1, 5), Fr(2, 7), Fr(1, 11))[:n]],
           "symbolic point": [cst(q) for q in ("p", "q", "r")[:n]]}
    S, V, M = s.scalar(f), s.vector(vf), s.matrix(mf)
    ents = [(n, 0), (n - 1, 1)] if n > 1 else [(1, 0), (0, 1)]
    for pn, p in pts.items():
        at = lambda r: subs_pt(r, X(n), p)
        pt = s.tup(*p)
        for ent in ents:
            def check(cls, args, fun, want, mapping="identity", kw=None, direction=None, moved=False, named=True):
                con = f"{F}{cls} on {cell} {ent}, {pn}"
                o = []

                def go():
                    k = dict(kw or {})
                    k.setdefault("entity", s.tup(*ent))
                    o.append(s.call(s.get(F + cls), ref, *args, **k))
                R.guard("construction", con, go, sess=s)
                if not o:
                    return
                o = o[0]
                if pn.startswith("const"):
                    value(R, s, "value", con + ".eval_symbolic", lambda: s.meth(o, "eval_symbolic", fun), want)
                    value(R, s, "value", con + ".eval", lambda: s.meth(o, "eval", fun), want)
                else:
                    value(R, s, "value", con + ".eval_symbolic", lambda: s.meth(o, "eval_symbolic", fun), want)
                value(R, s, "DOF points", con + ".dof_point", lambda: s.meth(o, "dof_point"), p)
                adjusted(R, s, con, o, ref, ent, p, moved)
                if direction != "skip":
                    value(R, s, "DOF directions", con + ".dof_direction", lambda: s.meth(o, "dof_direction"), direction)
                common(R, s, P, con, o, ref, ent, None, mapping)
                described(R, s, P, con, o)
                return o

            check("PointEvaluation", [pt], S, at(f))
            k = cst("w")
            check("WeightedPointEvaluation", [pt, s.num(k)], S, at(f) * k)
            check("PointEvaluation", [pt], S, at(f), mapping="l2", kw={"mapping": "l2"})
            from itertools import product
            for d in list(product(range(3), repeat=n)) + [tuple(e if q == i else 0 for q in range(n)) for i in range(n) for e in (3, 4)]:
                w = f
                for q, e in zip(X(n), d):
                    for _ in range(e):
                        w = rdiff(w, sid(q))
                check("DerivativePointEvaluation", [pt, s.tup(*d)], S, at(w), mapping=None)
            dv = [cst(f"d{i}") for i in range(n)]
            check("PointDirectionalDerivativeEvaluation", [pt, s.tup(*dv)], S,
                  dot([at(rdiff(f, sid(q))) for q in X(n)], dv), direction=dv)
            for i in range(n):
                for j in range(n):
                    check("PointComponentSecondDerivativeEvaluation", [pt, s.tup(i, j)], S,
                          at(rdiff(rdiff(f, sid(X(n)[i])), sid(X(n)[j]))))
            l, r = [cst(f"l{i}") for i in range(n)], [cst(f"m{i}") for i in range(n)]
            check("PointInnerProduct", [pt, s.tup(*l), s.tup(*r)], M, dot(l, matvec([[at(q) for q in row] for row in mf], r)),
                  direction="skip")
            check("PointInnerProduct", [pt, s.tup(*l), s.tup(*l)], M, dot(l, matvec([[at(q) for q in row] for row in mf], l)),
                  direction=l, mapping="double_covariant", kw={"mapping": "double_covariant"})
            check("DotPointEvaluation", [pt, s.tup(*dv)], V, dot([at(q) for q in vf], dv), direction=dv)
            gx = fvec(s, "g", n, n)
            check("DotPointEvaluation", [pt, s.tup(*gx)], V, dot([at(q) for q in vf], [at(q) for q in gx]), direction="skip",
                  mapping="covariant", kw={"mapping": "covariant"})
            check("DotPointEvaluation", [pt, s.num(k)], S, at(f) * k)
            check("PointDivergenceEvaluation", [pt], V, sum((at(rdiff(q, sid(z))) for q, z in zip(vf, X(n))), R0))
        if n == 2:
            for i in range({"triangle": 3, "quadrilateral": 4}[cell]):
                e, nm, v = entity(s, ref, 1, i)
                nv = Dom(nm, v).normal()
                con = f"{F}PointNormalDerivativeEvaluation on {cell} edge {i}, {pn}"
                o = s.call(s.get(F + "PointNormalDerivativeEvaluation"), ref, pt, e, entity=s.tup(1, i))
                value(R, s, "value", con, lambda: s.meth(o, "eval_symbolic", S),
                      dot([at(rdiff(f, sid(q))) for q in X(n)], nv))
                value(R, s, "DOF directions", con + ".dof_direction", lambda: s.meth(o, "dof_direction"), nv)
                value(R, s, "DOF points", con + ".dof_point", lambda: s.meth(o, "dof_point"), p)
                common(R, s, P, con, o, ref, (1, i), None, "identity")
    R.absorb(s)


def integrals(R, cell, which):
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    P = lambda n: s.attr(m, n)
    n = CELLS[cell]["tdim"]
    f = s.fn_atom("f", n)
    vf = fvec(s, "f", n, n)
    mf = fmat(s, "f", n, n, n)
    S, V, M = s.scalar(f), s.vector(vf), s.matrix(mf)
    from sa.query import jac as rjac
    for k, (tag, ref, img) in enumerate(cells_of(s, cell, IMAGES)):
        if k != which:
            continue
        default = make(s, cell)
        J = img[0] if img else [[Rat.const(int(i == j)) for j in range(n)] for i in range(n)]
        K = solve_inv(J)
        refjac = Dom(cell, s.data(s.attr(ref, "vertices"))).jac
        ents = [(d, i) for d in range(1, n + 1) for i in range(int(s.data(s.meth(ref, "sub_entity_count", d)).const_value()))]
        for ent in ents:
            e, nm, v = entity(s, ref, *ent)
            D = Dom(nm, v, s)
            _, _, v0 = entity(s, default, *ent)
            D0 = Dom(nm, v0)
            q = D.n
            ratio = D0.jac / D.jac
            tmap = lambda r: subs_pt(r, X(q), D.ts)
            g = s.fn_atom("g", q)
            gt = tmap(g)
            gv, gm = fvec(s, "g", q, q), fmat(s, "g", q, q, q)
            gvt, gmt = [tmap(z) for z in gv], [[tmap(z) for z in r] for r in gm]
            dp = [Rat.const(z) for z in (Fr(1, 5), Fr(2, 7), Fr(1, 11))[:q]]
            dd = [cst(f"d{i}") for i in range(q)]
            at = D.at
            pt_in_e = [D.v[0][i] + sum((D.axes[j][i] * dp[j] for j in range(q)), R0) for i in range(D.gdim)]

            def check(cls, args, fun, want, mapping="identity", dof=None, kw=None, direction="skip", what="", point=None):
                con = f"{F}{cls}{what} on {tag} {ent}"
                box = []

                def go():
                    a = list(args)
                    k = dict(kw or {})
                    k["entity"] = s.tup(*ent)
                    if mapping != "default":
                        k["mapping"] = mapping
                    if dof is not None:
                        k["dof"] = dof
                    box.append(s.call(s.get(F + cls), ref, *a, **k))
                R.guard("construction", con, go, sess=s)
                if not box:
                    return
                o = box[0]
                for (fu, w) in zip(fun, want):
                    value(R, s, "value", con, lambda: s.meth(o, "eval_symbolic", fu), w)
                value(R, s, "DOF points", con + ".dof_point", lambda: s.meth(o, "dof_point"), point)
                adjusted(R, s, con, o, ref, ent, point, True)
                if direction != "skip":
                    value(R, s, "DOF directions", con + ".dof_direction", lambda: s.meth(o, "dof_direction"), direction)
                if not img:
                    described(R, s, P, con, o)
                if mapping != "default":
                    common(R, s, P, con, o, ref, ent, None, mapping)
                return o

            F_at, VF_at = at(f), [at(z) for z in vf]
            MF_at = [[at(z) for z in r] for r in mf]
            mid = D.midpoint()
            # plain integrals
            check("IntegralAgainst", [s.num(g)], [S], [D.integral(F_at * gt / refjac)], point=mid, what=" (scalar)")
            check("IntegralAgainst", [s.num(g)], [S], [D.integral(F_at * gt / refjac)], point=mid, what=" (scalar, l2)", mapping="l2")
            if q == n:
                Jd = rdet([list(r) for r in J]) if q == n else None
                pg = [c / Jd for c in matvec(J, gvt)]
                check("IntegralAgainst", [s.tup(*gv)], [V], [D.integral(dot(VF_at, pg) / refjac)], point=mid, what=" (vector)",
                      mapping="contravariant")
                pm = [[c / (Jd * Jd) for c in r] for r in matmul(matmul(J, gmt), transpose(J))]
                check("IntegralAgainst", [s.lst(*gm)], [M], [D.integral(sum((dot(a, b) for a, b in zip(MF_at, pm)), R0) / refjac)],
                      point=mid, what=" (matrix)")
            if n > 1:
                dv = sum((at(rdiff(c, sid(z))) for c, z in zip(vf, X(n))), R0)
                check("IntegralOfDivergenceAgainst", [s.num(g)], [V], [D.integral(dv * gt)], point=mid)
            dirs = [[cst(f"u{i}") for i in range(n)], [cst(f"v{i}") for i in range(n)]]
            for orders in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (1, 2), (3, 0)):
                w = f
                for d_, o_ in zip(dirs, orders):
                    for _ in range(o_):
                        w = sum((rdiff(w, sid(z)) * c for z, c in zip(X(n), d_)), R0)
                check("IntegralOfDirectionalMultiderivative", [s.tup(*[s.tup(*d_) for d_ in dirs]), s.tup(*orders)], [S],
                      [D.integral(at(w) * cst("k"))], kw={"scale": s.num(cst("k"))}, point=mid, what=f" {orders}")
            # moments
            dof = s.call(P("Dof"), s.tup(*dp), None)
            dofd = s.call(P("Dof"), s.tup(*dp), s.tup(*dd))
            mapped_dir = [sum((D.axes[j][i] * dd[j] for j in range(q)), R0) for i in range(D.gdim)]
            absdet = rabs(rdet([list(r) for r in J]))
            check("IntegralMoment", [s.num(g)], [S], [D.integral(F_at * gt * ratio)], dof=dof, point=pt_in_e, direction=None, what=" (scalar)")
            check("IntegralMoment", [s.num(g)], [S], [D.integral(F_at * gt * ratio)], dof=dofd, point=pt_in_e, direction=mapped_dir, what=" (scalar, directed dof)")
            check("IntegralMoment", [s.num(g)], [S], [D.integral(F_at * gt * absdet * ratio)], dof=dof, point=pt_in_e, mapping="l2", what=" (l2)")
            # vector moments: tangential components for sub-entities, all components given
            full = fvec(s, "h", n, n)
            fullt = [subs_pt(z, X(n)[:q], D.ts) for z in full] if q == n else [s.fn_atom(f"h{i}", q) for i in range(n)]
            if q != n:
                full = fullt
                fullt = [tmap(z) for z in full]
            Kt = transpose(K)
            Kd = rdet([list(r) for r in K])
            for mp, w in (("covariant", matvec(J, fullt)), ("contravariant", [c / Kd for c in matvec(Kt, fullt)]), ("identity", fullt)):
                check("IntegralMoment", [s.tup(*full)], [V], [D.integral(dot(VF_at, w) * ratio)], dof=dofd, point=pt_in_e,
                      mapping=mp, direction=mapped_dir, what=f" (vector, {mp})")
            if q == 2 and n == 3:
                # a tangential field of the face is lifted to space by the contravariant map of the default face
                a = D0.axes
                vol = D0.jac
                lift = [sum((a[j][i] * gvt[j] for j in range(2)), R0) / vol for i in range(3)]
                for mp, w in (("covariant", matvec(J, lift)), ("contravariant", [c / Kd for c in matvec(Kt, lift)])):
                    check("IntegralMoment", [s.tup(*gv)], [V], [D.integral(dot(VF_at, w) * ratio)], dof=dofd, point=pt_in_e,
                          mapping=mp, what=f" (tangential vector, {mp})")
            if not img and q == n:
                check("IntegralMoment", [s.lst(*gm)], [M], [D.integral(sum((dot(a, b) for a, b in zip(MF_at, gmt)), R0))], dof=dof,
                      point=pt_in_e, what=" (matrix)")
            if n > 1:
                check("DivergenceIntegralMoment", [s.num(g)], [V], [D.integral(dv * gt * ratio)], dof=dof, point=pt_in_e)
                dw = [cst(f"w{i}") for i in range(n)]
                gr = [at(rdiff(f, sid(z))) for z in X(n)]
                check("DerivativeIntegralMoment", [s.num(g), s.tup(*dw)], [S], [D.integral(dot(gr, dw) * gt * ratio)], dof=dof,
                      point=pt_in_e, direction=dw)
                l, r = [cst(f"l{i}") for i in range(n)], [cst(f"m{i}") for i in range(n)]
                check("InnerProductIntegralMoment", [s.num(g), s.tup(*l), s.tup(*r)], [M],
                      [D.integral(dot(l, matvec(MF_at, r)) * gt * ratio * D.jac)], dof=dof, point=pt_in_e)
                check("InnerProductIntegralMoment", [s.num(g), s.tup(*l), s.tup(*l)], [M],
                      [D.integral(dot(l, matvec(MF_at, l)) * gt * ratio * D.jac)], dof=dof, point=pt_in_e, direction=l)
            if q == 1 and n > 1:
                tg = D.tangent()
                check("TangentIntegralMoment", [s.num(g)], [V], [D.integral(dot(VF_at, tg) * gt)], dof=dof, point=pt_in_e,
                      mapping="covariant", direction=tg)
                check("TangentIntegralMoment", [s.num(g)], [V], [D.integral(dot(VF_at, tg) * gt)], dof=dof, point=pt_in_e,
                      mapping="contravariant", direction=tg)
            if q == n - 1 and n > 1:
                nv = D.normal()
                check("NormalIntegralMoment", [s.num(g)], [V], [D.integral(dot(VF_at, nv) * gt)], dof=dof, point=pt_in_e,
                      mapping="contravariant", direction=nv)
                check("NormalDerivativeIntegralMoment", [s.num(g)], [S], [D.integral(dot(gr, nv) * gt * ratio)], dof=dof,
                      point=pt_in_e, direction=nv)
                if not img:
                    check("NormalInnerProductIntegralMoment", [s.num(g)], [M], [D.integral(dot(nv, matvec(MF_at, nv)) * gt * D.jac)],
                          dof=dof, point=pt_in_e, mapping="double_contravariant", direction=nv)
    R.absorb(s)


SPLITS = {"interval": ((Fr(1, 3),), [(0, -1), (-1, 1)]),
          "triangle": ((Fr(1, 3), Fr(1, 2)), [(0, 1, -1), (-1, 1, 2), (2, -1, 0)]),
          "tetrahedron": ((Fr(1, 5), Fr(1, 5), Fr(1, 2)), [(0, 1, 2, -1), (1, 0, -1, 3), (-1, 0, 2, 3), (3, 1, 2, -1)])}


def piecewise(R, cell, which):
    """Integral functionals of functions with a piece per sub-cell: the sum over the pieces of the integrals of the products."""
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE + PW)
    P = lambda n: s.attr(m, n)
    n = CELLS[cell]["tdim"]
    for k, (tag, ref, img) in enumerate(cells_of(s, cell, IMAGES)):
        if k != which:
            continue
        vs = s.data(s.attr(ref, "vertices"))
        J = img[0] if img else [[Rat.const(int(i == j)) for j in range(n)] for i in range(n)]
        b = img[1] if img else [R0] * n
        K = solve_inv(J)
        whole = Dom(cell, vs)
        ratio = R1 / whole.jac
        c0, parts = SPLITS[cell]
        mid = [b[i] + sum((J[i][j] * Rat.const(c0[j]) for j in range(n)), R0) for i in range(n)]
        cells = [[mid if i < 0 else vs[i] for i in q] for q in parts]
        coef = iter([Rat.const(q) for q in (3, -2, 5, 7, -1, 4, 11, 2, -6, 13, 1, 8, -3, 9, 10, -5, 6, 17, -7, 12) * 40])

        def quadratic():
            x = X(n)
            return sum((next(coef) * x[i] * x[j] for i in range(n) for j in range(i, n)), next(coef)) + sum((next(coef) * z for z in x), R0)
        fs = [quadratic() for _ in cells]
        vf = [[quadratic() for _ in range(n)] for _ in cells]
        g = sum((Rat.const(3 * i + 2) * z for i, z in enumerate(X(n))), Rat.const(-1))
        pull = [sum((K[i][j] * (X(n)[j] - b[j]) for j in range(n)), R0) for i in range(n)]
        G = subs_pt(g, X(n), pull)
        keys = s.lst(*[s.tup(*[s.tup(*v) for v in c]) for c in cells])
        S = lambda: s.call(P("make_pw"), keys, s.lst(*[s.num(f) for f in fs]), n)
        V = lambda: s.call(P("make_pw"), keys, s.lst(*[s.tup(*v) for v in vf]), n)

        def total(terms):
            out = R0
            for c, r in zip(cells, terms):
                D = Dom(cell, c, s)
                out = out + D.integral(D.at(r))
            return out

        def check(cls, args, fun, want, **kw):
            con = f"{F}{cls} of a piecewise function on {tag}"

            def go():
                o = s.call(s.get(F + cls), ref, *args, **{"entity": s.tup(n, 0), "mapping": "identity", **kw})
                return s.meth(o, "eval_symbolic", fun())
            value(R, s, "value on piecewise functions", con, go, want)
        # functionals of a point in each piece use that piece
        w = [Rat.const(q) for q in (2, -3, 5)[:n]]
        for i, c in enumerate(cells):
            wt = [Rat.const(Fr(q, 7 if n < 3 else 11)) for q in ((2, 4, 1) if n < 3 else (2, 4, 1, 4))[:n + 1]]
            pt = [sum((t * v[j] for t, v in zip(wt, c)), R0) / sum(wt, R0) for j in range(n)]
            at = lambda r: subs_pt(r, X(n), pt)
            D = lambda f, v: sum((rdiff(f, sid(z)) * q for z, q in zip(X(n), v)), R0)
            point = s.tup(*pt)
            check("PointEvaluation", [point], S, at(fs[i]))
            check("WeightedPointEvaluation", [point, 3], S, at(fs[i]) * Rat.const(3))
            check("DerivativePointEvaluation", [point, s.tup(*[int(j == n - 1) for j in range(n)])], S, at(rdiff(fs[i], sid(X(n)[n - 1]))), mapping=None)
            check("PointDirectionalDerivativeEvaluation", [point, s.tup(*w)], S, at(D(fs[i], w)))
            check("DotPointEvaluation", [point, s.tup(*w)], V, at(sum((p * q for p, q in zip(vf[i], w)), R0)))
            if n > 1:
                check("PointDivergenceEvaluation", [point], V, at(sum((rdiff(q, sid(z)) for q, z in zip(vf[i], X(n))), R0)))
        dof = s.call(P("Dof"), s.tup(*[Rat.const(Fr(1, 5))] * n), None)
        gn = s.num(g)
        check("IntegralAgainst", [gn], S, total([f * G * ratio for f in fs]))
        check("IntegralMoment", [gn], S, total([f * G * ratio for f in fs]), dof=dof)
        if n > 1:
            dv = [sum((rdiff(c, sid(z)) for c, z in zip(v, X(n))), R0) for v in vf]
            check("IntegralOfDivergenceAgainst", [gn], V, total([q * G for q in dv]))
            check("DivergenceIntegralMoment", [gn], V, total([q * G * ratio for q in dv]), dof=dof)
            w = [Rat.const(q) for q in (2, -3, 5)[:n]]
            gr = [sum((rdiff(f, sid(z)) * c for z, c in zip(X(n), w)), R0) for f in fs]
            check("DerivativeIntegralMoment", [gn, s.tup(*w)], S, total([q * G * ratio for q in gr]), dof=dof)
            h = [rdiff(f, sid(X(n)[0])) for f in gr]
            check("IntegralOfDirectionalMultiderivative", [s.tup(s.tup(*w), s.tup(*[int(i == 0) for i in range(n)])), s.tup(1, 1)], S, total(h))
    R.absorb(s)


PW = '''
from symfem.piecewise_functions import PiecewiseFunction
def make_pw(cells, fs, tdim): return PiecewiseFunction({c: f for c, f in zip(cells, fs)}, tdim)
'''


def solve_inv(A):
    n = len(A)
    cols = [solve(A, [Rat.const(int(i == j)) for i in range(n)]) for j in range(n)]
    return transpose(cols)


def one(R, item):
    if item[0] == "points":
        points(R, item[1])
    elif item[0] == "piecewise":
        piecewise(R, item[1], item[2])
    else:
        integrals(R, item[1], item[2])


def run(R):
    R.floor = 500
    R.explanation = ("Abstract interpretation of every functional class on opaque functions: the value must be the term that "
                     "defines the functional on the entity (default cells and affine images).")
    from sa.report import parallel
    items = [("points", c) for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")]
    for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        for k in range(1 + len(IMAGES.get(c, ()))):
            items.append(("integrals", c, k))
    for c in SPLITS:
        for k in range(1 + (len(IMAGES[c]) if c != "interval" else 0)):   # Reference.intersection declines other intervals
            items.append(("piecewise", c, k))
    parallel(R, one, items)
