"""The DOFs of every element are those of its definition: per sub-entity, the functionals (as linear forms on the element's space)
are compared with an independent table of point evaluations, derivatives and integral moments."""
import itertools
import random
from checks.sweep import *
from checks.c13 import Values, topology, axes_of, cross, inverse, frac, modpt, AX
from checks import spaces as sp

SHAPES = {2: "interval", 3: "triangle", 4: "quadrilateral"}


class Vals(Values):
    """Values with derivatives of every order."""

    def at(self, pt, piece=None, der=None):
        if der is None or isinstance(der, int):
            return super().at(pt, piece, der)
        if not self.x.space.polynomial:
            raise Unknown("derivative of a rational function")
        env = {a: c % P_ for a, c in zip(AX, pt)}
        out = [dict() for _ in range(self.nc)]
        mv = {}
        for i, row in enumerate(self.x.space.rows):
            for (pc, c, m), q in row.items():
                if pc != piece:
                    continue
                if m not in mv:
                    e = dict(m)
                    v = 1
                    for a, d in zip(AX, der):
                        n = e.get(a, 0)
                        for j in range(d):
                            v = v * (n - j) % P_
                        v = v * pow(env.get(a, 0), n - d, P_) % P_ if n >= d else 0
                    mv[m] = v
                out[c][i] = (out[c].get(i, 0) + q * mv[m]) % P_
        return out


def add(*terms):
    """Combination [(coefficient, row)] of sparse rows."""
    out = {}
    for c, r in terms:
        if c % P_:
            for i, v in r.items():
                out[i] = (out.get(i, 0) + c * v) % P_
    return {i: v for i, v in out.items() if v}


_W = {}


def gauss1(n):
    """Points j / n and weights, exact up to degree n, mod p."""
    n = max(n, 1)
    if n not in _W:
        pts = [frac(Fr(j, n)) for j in range(n + 1)]
        inv = inverse([{j: pow(pts[j], k, P_) for j in range(n + 1)} for k in range(n + 1)], n + 1)
        _W[n] = [(pts[j], sum(inv[j][k] * frac(Fr(1, k + 1)) for k in range(n + 1)) % P_) for j in range(n + 1)]
    return _W[n]


def rule(shape, n):
    """Points and weights on the reference shape, exact for polynomials of degree n."""
    g = gauss1(n)
    if shape == "interval":
        return [((a,), w) for a, w in g]
    if shape == "quadrilateral":
        return [((a, b), w * v % P_) for b, v in g for a, w in g]
    if shape == "hexahedron":
        return [((a, b, c), w * v * u % P_) for c, u in g for b, v in g for a, w in g]
    g = gauss1(n + 1) if shape == "triangle" else gauss1(n + 2)
    if shape == "triangle":
        return [((a, b * (1 - a) % P_), w * v * (1 - a) % P_) for a, w in g for b, v in g]
    if shape == "prism":
        return [((a, b * (1 - a) % P_, c), w * v * u * (1 - a) % P_) for c, u in gauss1(n) for a, w in g for b, v in g]
    if shape == "tetrahedron":
        return [((a, b * (1 - a) % P_, c * (1 - a) * (1 - b) % P_), w * v * u * (1 - a) ** 2 * (1 - b) % P_) for a, w in g for b, v in g for c, u in g]
    raise Unknown("rule on a " + shape)


def pval(p, pt):
    """Value of {exponents: Fraction} at a point, mod p."""
    t = 0
    for m, c in p.items():
        v = frac(c) if not isinstance(c, int) else c
        for e, a in zip(m, pt):
            v = v * pow(a, e, P_) % P_
        t += v
    return t % P_


class Entity:
    """A sub-entity of the reference cell with the functionals living on it."""

    def __init__(self, V, cell, vs, top, d, i, deg):
        self.V, self.dim, self.num, self.deg = V, d, i, deg
        t = len(top) - 1
        self.tdim = t
        self.vertices = [vs[j] for j in top[d][i]]
        self.o = tuple(self.vertices[0])
        if d == t:
            self.shape, self.axes, self.o = cell, [tuple(int(a == b) for b in range(t)) for a in range(t)], (0,) * t
        elif d == 0:
            self.shape, self.axes = "point", []
        else:
            self.shape = SHAPES[len(self.vertices)]
            self.axes = axes_of(self.vertices)[1]
        self.normal = cross(self.axes) if d == t - 1 else None
        self.mid = tuple(sum(Fr(v[c]) for v in self.vertices) / len(self.vertices) for c in range(t))
        self.cache = {}

    def point(self, q):
        return tuple((frac(a) + sum(frac(w) * b[c] for w, b in zip(q, self.axes))) % P_ for c, a in enumerate(self.o))

    def piece_of(self, pt):
        if self.V.pieces is None:
            return None
        for pc in self.V.pieces:
            if inside(pc, pt):
                return pc
        raise Unknown("point outside the macro cell")

    def at(self, pt, der=None):
        """Rows of the components (or their derivatives) at a point given by Fractions."""
        key = (pt, der)
        if key not in self.cache:
            self.cache[key] = self.V.at(modpt(pt), self.piece_of(pt), der)
        return self.cache[key]

    def value(self, pt, comp=None):
        v = self.at(pt)
        if comp is None:
            return add((1, v[0]))
        return add(*[(frac(c), r) for c, r in zip(comp, v)])

    def derivative(self, pt, der, c=0):
        return add((1, self.at(pt, tuple(der))[c]))

    def directional(self, pt, direction):
        t = self.tdim
        return add(*[(frac(w), self.at(pt, tuple(int(a == b) for b in range(t)))[0]) for a, w in enumerate(direction)])

    def integrals(self, weights, ders=None):
        """One row per weight: the integral over the reference shape of sum over (derivative, component) of weight * value.

        A weight is a list of (derivative or None, component, polynomial in the shape's coordinates)."""
        if not weights:
            return []
        shape = self.shape
        out = [[] for _ in weights]
        domains = [(None, None)]
        if self.V.pieces is not None:
            if self.dim == self.tdim:
                domains = [(pc, pc) for pc in self.V.pieces]
            else:
                on = [pc for pc in self.V.pieces if all(inside(pc, v) for v in self.vertices)]
                if not on:
                    raise Unknown("facet is cut")
                domains = [(on[0], None)]
        for piece, simplex in domains:
            wd = max([sum(m) for w in weights for _, _, p in w for m in p] + [0])
            n = self.deg + wd
            if shape in ("hexahedron", "quadrilateral", "prism"):
                n = self.deg + max([max(m) if m else 0 for w in weights for _, _, p in w for m in p] + [0])
                if shape == "prism":
                    n = self.deg * 2 + wd
            if self.tdim == self.dim and simplex is not None:
                ax = [tuple(Fr(b) - Fr(a) for a, b in zip(simplex[0], v)) for v in simplex[1:self.tdim + 1]]
                if len(simplex) != self.tdim + 1:
                    raise Unknown("macro cell of another shape")
                det = abs(ax[0][0] * ax[1][1] - ax[0][1] * ax[1][0]) if self.tdim == 2 else abs(sum(a * b for a, b in zip(ax[0], cross(ax[1:]))))
            for q, w in rule("triangle" if simplex is not None and self.tdim == 2 else "tetrahedron" if simplex is not None else shape, n):
                if simplex is not None:
                    q = tuple((frac(a) + sum(x * frac(b[c]) for x, b in zip(q, ax))) % P_ for c, a in enumerate(simplex[0]))
                    w = w * frac(det) % P_
                pt = tuple((frac(a) + sum(x * b[c] for x, b in zip(q, self.axes))) % P_ for c, a in enumerate(self.o))
                vals = {}
                for k, wt in enumerate(weights):
                    for der, c, p in wt:
                        if der not in vals:
                            vals[der] = self.V.at(pt, piece, der)
                        out[k].append((w * pval(p, q) % P_, vals[der][c]))
        return [add(*o) for o in out]

    # ---- families of functionals
    def moments(self, polys):
        return self.integrals([[(None, 0, p)] for p in polys])

    def vector_moments(self, fields):
        """Against fields in the coordinates of the entity, pushed onto it along its axes."""
        ws = []
        for f in fields:
            w = []
            for c in range(self.tdim):
                p = sp.padd(*[sp.pscale(q, a[c]) for q, a in zip(f, self.axes)])
                if p:
                    w.append((None, c, p))
            ws.append(w)
        return self.integrals(ws)

    def normal_moments(self, polys):
        return self.integrals([[(None, c, sp.pscale(p, n)) for c, n in enumerate(self.normal) if n] for p in polys])

    def tangent_moments(self, polys):
        return self.integrals([[(None, c, sp.pscale(p, n)) for c, n in enumerate(self.axes[0]) if n] for p in polys])

    def double_moments(self, a, b, polys):
        t = self.tdim
        return self.integrals([[(None, t * i + j, sp.pscale(p, a[i] * b[j])) for i in range(t) for j in range(t) if a[i] * b[j]] for p in polys])


def inside(simplex, pt):
    """Whether a rational point lies in a piece of a macro cell."""
    pt = [Fr(c) for c in pt]
    v = [[Fr(c) for c in w] for w in simplex]
    t = len(pt)
    if len(v) == 2 ** t and t > 1:
        return all(min(w[c] for w in v) <= pt[c] <= max(w[c] for w in v) for c in range(t))
    rows = [[w[c] - v[0][c] for w in v[1:]] + [pt[c] - v[0][c]] for c in range(t)]
    n = len(v) - 1
    for c in range(n):
        p = next((r for r in range(c, t) if rows[r][c]), None)
        if p is None:
            return False
        rows[c], rows[p] = rows[p], rows[c]
        rows[c] = [q / rows[c][c] for q in rows[c]]
        for r in range(t):
            if r != c:
                f = rows[r][c]
                rows[r] = [a - f * b for a, b in zip(rows[r], rows[c])]
    lam = [rows[c][n] for c in range(n)]
    return all(x >= 0 for x in lam) and sum(lam) <= 1


# ---- polynomial spaces on the reference shapes
def P(shape, k):
    d = {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(shape, 3)
    return sp.total(d, k)


def Q(shape, k):
    d = {"interval": 1, "quadrilateral": 2, "hexahedron": 3}[shape]
    return sp.tensor(*[k] * d) if k >= 0 else []


def one_forms(shape, k, kind):
    """Vector spaces by name on a shape: vP, RT, N1, QRT, QN."""
    d = {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(shape, 3)
    if kind == "vP":
        return sp.vec(sp.total(d, k), d) if k >= 0 else []
    if k < 1:
        return []
    if kind == "RT":
        return sp.vec(sp.total(d, k - 1), d) + sp.radial(d, k)
    if kind == "N1":
        return sp.vec(sp.total(d, k - 1), d) + sp.kernel_dot(d, k)
    if kind == "QRT":
        return [tuple(p if i == c else {} for i in range(d)) for c in range(d) for p in sp.tensor(*[k if i == c else k - 1 for i in range(d)])]
    return [tuple(p if i == c else {} for i in range(d)) for c in range(d) for p in sp.tensor(*[k - 1 if i == c else k for i in range(d)])]


def lattice(shape, pts):
    """Interior lattice points of a shape, x fastest; pts are the points of a rule on the interval."""
    k = len(pts) - 1
    d = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2}.get(shape, 3)
    out = []
    for i in itertools.product(range(1, k), repeat=d):
        x = i[::-1]
        if shape in ("triangle", "tetrahedron") and sum(x) >= k:
            continue
        if shape == "prism":
            x = i
            if i[0] + i[1] >= k:
                continue
        if shape == "pyramid":
            x = i
            if max(i[0], i[1]) + i[2] >= k:
                continue
        out.append(tuple(pts[j] for j in x))
    return out


def unit(t):
    return [tuple(int(a == b) for b in range(t)) for a in range(t)]


def symmetric(t):
    return [[(i, j)] for i in range(t) for j in range(i, t)]


def nodal(E, k, pts, cell):
    """Point evaluations of a Lagrange element on one sub-entity."""
    if k == 0:
        if E.dim != E.tdim:
            return []
        return [tuple([Fr(1, 2) if cell in ("quadrilateral", "hexahedron") else Fr(1, E.tdim + 1)] * E.tdim)]
    if E.dim == 0:
        return [()]
    return lattice(E.shape, pts)


def on(E, q):
    return tuple(Fr(a) + sum(Fr(w) * b[c] for w, b in zip(q, E.axes)) for c, a in enumerate(E.o))


EXACT, LINES, SPAN = "exact", "lines", "span"


def spec(cls, cell, k, kw, E, tools):
    """(mode, rows) of the functionals the definition puts on sub-entity E; None where the table does not say."""
    t, d = E.tdim, E.dim
    v = kw.get("variant")
    top = d == t
    hyper = cell in ("quadrilateral", "hexahedron")
    facet = d == t - 1
    D1 = unit(t)

    if cls in ("Lagrange", "Q", "VectorLagrange", "VectorQ", "MatrixLagrange", "SymmetricMatrixLagrange") and v not in ("legendre", "lobatto"):
        pts = [tools.point(p) for p in tools.points(v or "equispaced", k + 1)] if k else []
        out = []
        for q in nodal(E, k, pts, cell):
            out += comps(E, q, cls, t)
        return EXACT, out
    if cls in ("Lagrange", "Q") and v == "legendre":
        if not top:
            return EXACT, []
        return None
    if cls in ("DPC", "VectorDPC") and v in (None, "equispaced"):
        if not top:
            return EXACT, []
        if t == 1:
            pts = [(Fr(1, 2),)] if k == 0 else [(Fr(0),), (Fr(1),)] + [(Fr(j, k),) for j in range(1, k)]
        else:
            pts = [tuple([Fr(1, 2)] * t)] if k == 0 else [tuple(Fr(j, k) for j in i[::-1]) for i in itertools.product(range(k + 1), repeat=t) if sum(i) <= k]
        return EXACT, [r for q in pts for r in comps(E, q, cls, t)]
    if cls == "Bernstein":
        if k == 0:
            return (EXACT, [E.value(E.mid)]) if top else (EXACT, [])
        if d == 0:
            return EXACT, [E.value(E.vertices[0])]
        return "set", bernstein(E, k)
    if cls == "Bubble" and v in (None, "equispaced"):
        return EXACT, [E.value(on(E, q)) for q in lattice(cell, [Fr(j, k) for j in range(k + 1)])] if top else []
    if cls in ("BubbleEnrichedLagrange", "BubbleEnrichedVectorLagrange") and v in (None, "equispaced"):
        vec = cls != "BubbleEnrichedLagrange"
        pts = nodal(E, k, [Fr(j, k) for j in range(k + 1)], cell)
        if top:
            pts = pts + lattice(cell, [Fr(j, k + 2) for j in range(k + 3)])
        return EXACT, [r for q in pts for r in comps(E, q, "VectorLagrange" if vec else "Lagrange", t)]
    if cls == "ConformingCrouzeixRaviart":
        if d == 0:
            return EXACT, [E.value(E.vertices[0])]
        if k == 1:
            return EXACT, []
        if d == 1:
            return EXACT, [E.value(on(E, (Fr(j, k),))) for j in range(1, k)]
        return EXACT, [E.value((Fr(3 * i - 1, 3 * k), Fr(3 * j - 1, 3 * k))) for i in range(1, k) for j in range(1, k + 1 - i)]
    if cls == "CrouzeixRaviart" and k == 1 and v in (None, "equispaced") or cls == "RannacherTurek":
        return EXACT, [E.value(E.mid)] if facet else []
    if cls == "FortinSoulie":
        third = Fr(1, 3)
        if d == 0:
            return EXACT, []
        if d == 1:
            return SPAN if E.num < 2 else EXACT, [[E.value((2 * third, third)), E.value((third, 2 * third))], [E.value((0, third)), E.value((0, 2 * third))],
                                                  [E.value((Fr(1, 2), 0))]][E.num]
        return EXACT, [E.value((third, third))]
    if cls in ("P1IsoP2Interval", "P1IsoP2Tri", "P1IsoP2Quad"):
        return EXACT, [E.value(E.mid)] if d < 2 or cell == "quadrilateral" else []
    if cls == "P1Macro":
        return (EXACT, [E.value(E.mid)] if d == 0 else []) if not top else (LINES, E.moments([sp.const(2)]))
    if cls in ("Hermite", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "Argyris", "Bell", "BognerFoxSchmit", "WuXu") and d == 0:
        p = E.vertices[0]
        out = [E.value(p)] + [E.derivative(p, e) for e in D1]
        if cls in ("Argyris", "Bell"):
            out += [E.derivative(p, tuple(a + b for a, b in zip(D1[i], D1[j]))) for i in range(t) for j in range(i + 1)]
        if cls == "BognerFoxSchmit" and t == 2:
            out.append(E.derivative(p, (1, 1)))
        return SPAN, out
    if cls in ("Argyris", "HsiehCloughTocher", "Morley") and d == 1:
        return LINES, [E.directional(E.mid, E.normal)]
    if cls in ("Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "Bell", "BognerFoxSchmit", "Morley"):
        return EXACT, [E.value(E.vertices[0])] if d == 0 else []
    if cls == "Hermite":
        return EXACT, [E.value(E.mid)] if d == 2 else []
    if cls in ("MorleyWangXu", "WuXu") and t > 1 or cls == "MorleyWangXu":
        return averages(cls, k, E, t, d)
    if cls == "WuXu":
        return EXACT, []
    if cls == "Taylor":
        if not top:
            return EXACT, []
        return LINES, E.moments([sp.const(t)]) + [E.derivative(E.mid, e) for e in itertools.product(range(k + 1), repeat=t) if 1 <= sum(e) <= k]
    if cls == "KongMulderVeldhuizen":
        return None
    # ---- moments; the variant only changes the basis of the test space
    if cls == "Serendipity":
        return (EXACT, [E.value(E.vertices[0])]) if d == 0 else (SPAN, E.moments(P(E.shape, k - 2 * d)))
    if cls == "SerendipityCurl":
        if d == 1:
            return SPAN, E.tangent_moments(P("interval", k))
        return SPAN, E.vector_moments(one_forms(E.shape, k - 2 * (d - 1), "vP")) if d else []
    if cls in ("SerendipityDiv", "BDDF"):
        return (SPAN, E.normal_moments(P(E.shape, k))) if facet else (SPAN, E.vector_moments(one_forms(E.shape, k - 2, "vP")) if top else [])
    if cls == "TrimmedSerendipityHcurl":
        if d == 1:
            return SPAN, E.tangent_moments(P("interval", k - 1))
        if d == 0:
            return SPAN, []
        fs = one_forms(E.shape, k - 2 * d + 1, "vP")
        if d == 2 and k >= 2:
            fs = fs + [sp.rot2(p) for p in sp.homog(2, k - 1)]
        return SPAN, E.vector_moments(fs)
    if cls == "TrimmedSerendipityHdiv":
        if facet:
            return SPAN, E.normal_moments(P(E.shape, k - 1))
        fs = (one_forms(E.shape, k - 3, "vP") + ([sp.grad(p, t) for p in sp.homog(t, k - 1)] if k >= 2 else [])) if top else []
        return SPAN, E.vector_moments(fs)
    if cls == "RaviartThomas":
        return (SPAN, E.normal_moments(Q(E.shape, k - 1) if hyper else P(E.shape, k - 1))) if facet else (
            SPAN, E.vector_moments(one_forms(E.shape, k - 1, "QN") if hyper else one_forms(E.shape, k - 2, "vP")) if top else [])
    if cls == "NedelecFirstKind":
        return (SPAN, E.tangent_moments(P("interval", k - 1))) if d == 1 else (SPAN, E.vector_moments(one_forms(E.shape, k - d, "vP")) if d else [])
    if cls == "NedelecSecondKind":
        return (SPAN, E.tangent_moments(P("interval", k))) if d == 1 else (SPAN, E.vector_moments(one_forms(E.shape, k - d + 1, "RT")) if d else [])
    if cls == "Nedelec" and hyper:
        return (SPAN, E.tangent_moments(P("interval", k - 1))) if d == 1 else (SPAN, E.vector_moments(one_forms(E.shape, k - 1, "QRT")) if d else [])
    if cls == "Nedelec":
        if d < 2:
            return SPAN, E.tangent_moments(P("interval", k - 1)) if d else []
        if d == 2:
            return SPAN, E.vector_moments(one_forms("triangle", k - 2, "vP") if E.shape == "triangle" else one_forms(E.shape, k - 1, "QRT"))
        if k == 1:
            return SPAN, []
        return SPAN, E.vector_moments([tuple({m + (j,): c for m, c in p.items()} for p in f) + ({},) for f in one_forms("triangle", k - 2, "vP") for j in range(k - 1)])
    if cls == "BDM":
        return (SPAN, E.normal_moments(P(E.shape, k))) if facet else (SPAN, E.vector_moments(one_forms(E.shape, k - 1, "N1")) if top else [])
    if cls == "BDFM":
        return (SPAN, E.normal_moments(P(E.shape, k - 1))) if facet else (
            SPAN, E.vector_moments(one_forms(E.shape, k - 2, "vP") if hyper else one_forms(E.shape, k - 1, "N1")) if top else [])
    if cls == "ArnoldBoffiFalk":
        if d < 2:
            return SPAN, E.normal_moments(P("interval", k)) if d else []
        rows = E.vector_moments(one_forms("quadrilateral", k, "QN"))
        rows += E.integrals([[((1, 0), 0, p), ((0, 1), 1, p)] for p in [sp.mono(k + 1, i) for i in range(k + 1)] + [sp.mono(i, k + 1) for i in range(k + 1)]])
        return SPAN, rows
    if cls == "AC":
        if d < 2:
            return SPAN, E.normal_moments(P("interval", k)) if d else []
        fs = [sp.grad(p, 2) for p in sp.total(2, k) if p != sp.const(2)]
        b = {(1, 1): Fr(1), (2, 1): Fr(-1), (1, 2): Fr(-1), (2, 2): Fr(1)}
        fs += [sp.rot2(sp.pmul(b, p)) for p in sp.total(2, k - 3)] if k >= 3 else []
        return SPAN, E.vector_moments(fs)
    if cls == "MardalTaiWinther":
        if not facet:
            return SPAN, []
        if t == 2:
            return SPAN, E.normal_moments(P("interval", 1)) + E.tangent_moments(P("interval", 0))
        return SPAN, E.normal_moments(P("triangle", 1)) + E.vector_moments(one_forms("triangle", 1, "N1"))
    if cls == "HuangZhang":
        if d == 1:
            return SPAN, E.normal_moments(P("interval", k - 1)) + E.tangent_moments(P("interval", k - 2))
        if d == 0:
            return SPAN, []
        return SPAN, E.vector_moments([(sp.mono(i, j), {}) for i in range(k - 1) for j in range(k - 2)] + [({}, sp.mono(j, i)) for i in range(k - 1) for j in range(k - 2)])
    if cls == "HellanHerrmannJohnson":
        return (SPAN, E.double_moments(E.normal, E.normal, P(E.shape, k))) if facet else (None if top else (SPAN, []))
    if cls in ("Regge", "ReggeTP") and v == "integral":
        return (SPAN, E.double_moments(E.axes[0], E.axes[0], P("interval", k))) if d == 1 else (None if d else (SPAN, []))
    if cls == "Regge":
        if d == 0:
            return SPAN, []
        out = []
        edges = [(a, b) for a, b in itertools.combinations(E.vertices, 2)]
        for q in lattice(E.shape, [Fr(j, k + 2) for j in range(k + 3)]):
            p = on(E, q)
            for a, b in edges:
                w = [y - x for x, y in zip(a, b)]
                out.append(E.value(p, [w[i] * w[j] for i in range(t) for j in range(t)]))
        return "set", out
    if cls == "ArnoldWinther":
        if d == 0:
            return SPAN, [E.value(E.vertices[0], c) for c in ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1))]
        if d == 1:
            return SPAN, E.double_moments(E.normal, E.normal, P("interval", k - 2)) + E.double_moments(E.axes[0], E.normal, P("interval", k - 2))
        return None
    if cls == "NonConformingArnoldWinther":
        if d == 0:
            return SPAN, []
        if d == 1:
            return SPAN, E.double_moments(E.normal, E.normal, P("interval", 1)) + E.double_moments(E.axes[0], E.normal, P("interval", 1))
        return SPAN, E.integrals([[(None, c, sp.const(2))] for c in (0, 1, 3)])
    if cls in ("BernardiRaugel", "GuzmanNeilan") and (k == 1 or t == 2):
        if facet:
            return SPAN, [E.value(p, E.normal) for p in E.vertices] + E.normal_moments([sp.const(t - 1)])
        if top and cls == "GuzmanNeilan":
            return SPAN, [E.value(tuple([Fr(1, t + 1)] * t), e) for e in D1]
        return SPAN, []
    if cls == "AlfeldSorokina":
        if d == 0:
            p = E.vertices[0]
            return SPAN, [E.value(p, e) for e in D1] + [add((1, E.derivative(p, (1, 0), 0)), (1, E.derivative(p, (0, 1), 1)))]
        return SPAN, [E.value(E.mid, e) for e in D1] if d == 1 else []
    if cls == "TNT":
        if d == 0:
            return EXACT, [E.value(E.vertices[0])]
        if d == 1:
            return SPAN, E.moments(P("interval", k - 1))
        if d == 2:
            return SPAN, E.moments([sp.padd(sp.pdiff(sp.pdiff(b, 0), 0), sp.pdiff(sp.pdiff(b, 1), 1)) for b in qbubbles(2, k)])
        return SPAN, E.integrals([[(e, 0, sp.pdiff(b, i)) for i, e in enumerate(D1)] for b in qbubbles(3, k)])
    if cls == "TNTcurl" and d < 2:
        return SPAN, E.tangent_moments(P("interval", k)) if d else []
    if cls == "TNTdiv" and not top:
        return SPAN, E.normal_moments(Q(E.shape, k)) if facet else []
    return None


def qbubbles(t, k):
    """x^i (x - 1) y^j (y - 1) ... for 1 <= i, j, ... < k."""
    out = []
    for e in itertools.product(range(1, k), repeat=t):
        b = sp.const(t)
        for i, n in enumerate(e):
            x = sp.var(t, i)
            for _ in range(n):
                b = sp.pmul(b, x)
            b = sp.pmul(b, sp.padd(x, sp.const(t, -1)))
        out.append(b)
    return out


def comps(E, q, cls, t):
    """The value of every component at the point with entity coordinates q."""
    p = on(E, q) if all(isinstance(w, (int, Fr)) for w in q) else None
    if p is None:
        v = E.V.at(tuple((frac(a) + sum(modc(w) * b[c] for w, b in zip(q, E.axes))) % P_ for c, a in enumerate(E.o)))
    else:
        v = E.at(p)
    if not cls.startswith("Symmetric") or t == 1:
        return [add((1, r)) for r in v]
    return [add((1, v[t * i + j])) for i in range(t) for j in range(i, t)]


def modc(w):
    return w.v if isinstance(w, ModP) else frac(w)


class ModP:
    """An algebraic number known mod p only."""

    def __init__(self, v):
        self.v = v


def bernstein(E, k):
    """The interior Bernstein coefficients of the trace on an entity."""
    d = E.dim
    idx = [e for j in range(k + 1) for e in sp.expos(d, j)]

    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)

    def bern(e, q):
        rest = k - sum(e)
        v = Fr(fact(k), fact(rest))
        for i, x in zip(e, q):
            v = v * x ** i / fact(i)
        return v * (1 - sum(q)) ** rest
    pts = [tuple(Fr(i, k) for i in e) for e in idx]
    inv = inverse([{j: frac(bern(e, q)) for j, e in enumerate(idx)} for q in pts], len(idx))
    vals = [E.value(on(E, q)) for q in pts]
    return [add(*[(inv[j][i], vals[i]) for i in range(len(pts))]) for j, e in enumerate(idx) if all(e) and sum(e) < k]


def averages(cls, k, E, t, d):
    """Averages of normal derivatives (Morley-Wang-Xu, Wu-Xu)."""
    one = sp.const(d) if d else None

    def normals():
        if d == t - 1:
            return [E.normal]
        a = E.axes[0]
        j = next(i for i in range(3) if a[i])
        e = [c for i, c in enumerate(unit(3)) if i != j]
        n1 = cross([a, e[0]])
        return [n1, cross([a, n1])]

    def der(ns):
        """Integral of the derivative in the directions ns."""
        w = {}
        for pick in itertools.product(range(t), repeat=len(ns)):
            c = 1
            for n, i in zip(ns, pick):
                c *= n[i]
            m = tuple(sum(int(i == a) for i in pick) for a in range(t))
            w[m] = w.get(m, 0) + c
        return E.integrals([[(m, 0, sp.const(d, c)) for m, c in w.items() if c]])
    if cls == "WuXu":
        if d == t:
            return EXACT, []
        ns = normals()
        m = t - d
        return SPAN, [r for c in itertools.combinations_with_replacement(ns, m) for r in der(c)]
    if k == 1:
        if t == 1:
            return EXACT, [E.value(E.mid)] if d == 0 else []
        return LINES, E.moments([one]) if d == t - 1 else []
    if k == 2 and (t > 2 or d):
        return LINES, E.moments([one]) if d == t - 2 else der(normals()) if d == t - 1 else []
    if d == 0:
        return EXACT, [E.value(E.mid)]
    if d == t:
        return EXACT, []
    if d == t - 1:
        return LINES, der(normals() * 2) if k == 3 else der(normals())
    return SPAN, [r for n in normals() for r in der([n])]


class Tools:
    def __init__(self, s):
        self.s = s

    def points(self, rule_name, n):
        return seq2(self.s, self.s.call(self.s.get("symfem.quadrature.get_quadrature"), rule_name, n))

    @staticmethod
    def point(r):
        if r.is_const():
            c = r.const_value()
            return Fr(c)
        return ModP(polymod(r.num, {}) * pow(polymod(r.den, {}), -1, P_) % P_)


def seq2(s, v):
    q = seq(s, v)
    d = s.data(q[0])
    return [p if isinstance(p, Rat) else Rat.const(p) for p in d]


def scaled(a, b):
    """Whether two sparse rows are multiples of one another."""
    if set(a) != set(b) or not a:
        return not a and not b
    k = next(iter(a))
    c = a[k] * pow(b[k], -1, P_) % P_
    return all(v == c * b[i] % P_ for i, v in a.items())


def one(R, item):
    s = shared(R, 60_000_000 if R.thorough else 20_000_000)
    lab = label(item)
    try:
        definition(R, s, item, lab)
    except Dead:
        if not refused(s, "variant" in item[4], item):
            R.unknown("definition", lab, "creation raises " + where(s))
    except (Unknown, Budget, ZeroDivisionError, ValueError, NotLinear) as e:
        R.unknown("definition", lab, repr(e))
    R.absorb(s)


def definition(R, s, item, lab):
    cls, name, cell, order, kw = item
    e = create(s, item)
    if not flag(s, "is_ciarlet", e) or cell.startswith("dual"):
        return
    x = Extract(s, item, False, e)
    if not x.fs:
        return
    ref = s.attr(e, "reference")
    vs, top = topology(cell, s, ref)
    if len(top) - 1 != len(vs[0]):
        return
    ents = [tuple(plain(s, q)) for q in seq(s, s.call(P_probe(s, "dof_entities"), e))]
    V = Vals(x)
    dual = [x.space.on_basis(x.space.apply(d)) for d in x.dofs]
    deg = 0
    if x.space.polynomial:
        pick = max if cell in ("quadrilateral", "hexahedron") else sum
        deg = max([pick([e for _, e in m] or [0]) for r in x.space.rows for (_, _, m) in r] + [0])
        if cell == "prism":
            deg = max([max([e for a, e in m if a == AX[2]] + [sum(e for a, e in m if a != AX[2])]) for r in x.space.rows for (_, _, m) in r] + [0])
    if cls == "KongMulderVeldhuizen":
        lumping(R, s, e, cell, order, lab)
    tools = Tools(s)
    for d in range(len(top)):
        for i in range(len(top[d])):
            E = Entity(V, cell, vs, top, d, i, deg)
            try:
                w = spec(cls, cell, order, kw, E, tools)
            except (Unknown, ValueError, ZeroDivisionError) as ex:
                R.unknown("DOFs of the definition", lab, f"sub-entity {i} of dimension {d}: {ex!r}")
                continue
            if w is None:
                continue
            mode, want = w
            got = [dual[j] for j in range(len(dual)) if ents[j] == (d, i)]
            if mode == EXACT:
                bad = [j for j, (a, b) in enumerate(zip(got, want)) if a != b]
                R.ob(len(got) == len(want) and not bad, "DOFs of the definition", lab,
                     f"sub-entity {i} of dimension {d}: {len(got)} DOFs for {len(want)} in the definition" if len(got) != len(want) else
                     f"sub-entity {i} of dimension {d}: DOF {bad[:1]} on it is another functional than in the definition")
            elif mode in ("set", LINES):
                left = list(want)
                ok = len(got) == len(want)
                for a in got:
                    j = next((j for j, b in enumerate(left) if (scaled(a, b) if mode == LINES else a == b)), None)
                    if j is None:
                        ok = False
                    else:
                        left.pop(j)
                R.ob(ok, "DOFs of the definition", lab, f"sub-entity {i} of dimension {d}: the {len(got)} DOFs are not the {len(want)} functionals of the definition")
            else:
                a, b = Span(got), Span(want)
                R.ob(len(a) == len(b) and all(r in a for r in want), "DOFs of the definition", lab,
                     f"sub-entity {i} of dimension {d}: the {len(got)} DOFs span {len(a)} functionals, those of the definition {len(b)}"
                     + ("" if len(a) != len(b) else ", other ones"))


def P_probe(s, n):
    return s.attr(s.elem_probe, n)


def lumping(R, s, e, cell, order, lab):
    """Mass lumping elements: the DOFs add up to the integral over the cell, exactly up to degree order + superdegree - 2."""
    t = {"triangle": 2, "tetrahedron": 3}[cell]
    sup = plain(s, s.attr(e, "polynomial_superdegree"))
    if not isinstance(sup, int):
        return
    n = order + sup - 2
    bad = []
    for m in [q for j in range(max(n, order) + 1) for q in sp.expos(t, j)]:
        tot = Rat.const(0)
        f = Rat.const(1)
        for a, k in zip("xyz", m):
            for _ in range(k):
                f = f * sym(a)
        f = s.scalar(f)
        for d in seq(s, s.attr(e, "dofs")):
            tot = tot + s.data(s.call(P_probe(s, "apply"), d, f))
        want = Fr(1)
        for k in m:
            want *= fact(k)
        want /= fact(sum(m) + t)
        if not tot == Rat.const(want):
            bad.append(m)
    R.ob(not bad, "mass lumping weights", lab, f"the sum of the DOFs is not the integral over the cell on the monomials {bad[:4]} of degree at most {n}")


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


MOMENTS = '''
import symfem
from symfem.moments import make_integral_moment_dofs as m
from symfem.functionals import IntegralMoment as M
from symfem.elements.lagrange import Lagrange as L
from symfem.elements.q import Q
def go(cell, slot, orders, mixed, extra):
    ref = symfem.create_reference(cell)
    if mixed:
        data = {"interval": (M, L, orders[0]) + extra, "triangle": (M, L, orders[1]) + extra, "quadrilateral": (M, Q, orders[2]) + extra}
    else:
        data = (M, Q if slot[1] else L, orders[3]) + extra
    return ref, m(ref, **{slot[0]: data})
def entity(d): return (d.entity_dim(), d.entity_number())
def mapping(d): return d.mapping
def apply(d, f): return d.eval_symbolic(f).as_sympy()
'''


def factory_items():
    out = []
    for cell, t in [("triangle", 2), ("quadrilateral", 2), ("tetrahedron", 3), ("hexahedron", 3), ("prism", 3), ("pyramid", 3)]:
        slots = [("edges", 1), ("faces", 2), ("ridges", t - 2), ("facets", t - 1), ("peaks", t - 3)] + ([("cells", t)] if cell not in ("prism", "pyramid") else [])
        for slot, d in slots:
            if d < 1:
                continue
            mixed = cell in ("prism", "pyramid") and d == 2
            for k in (0, 1, 2):
                if k < 2 or slot in ("edges", "faces", "ridges"):
                    out.append(("moments", cell, slot, d, k, mixed, (k == 1)))
    return out


def factory(R, item):
    """One DOF per sub-entity and sub-element DOF, in that order, weighted by the sub-element's basis function with the same number."""
    _, cell, slot, d, k, mixed, mapped = item
    s = shared(R, 20_000_000)
    lab = f"make_integral_moment_dofs({slot} of a {cell}, Lagrange order {k}{', by shape' if mixed else ''})"
    try:
        pr = s.probe(MOMENTS, "moments_probe_")
        hyper = cell in ("quadrilateral", "hexahedron") and d > 1
        orders = {"interval": k, "triangle": k, "quadrilateral": k + 1 if mixed else k, "all": k}
        od = s.tup(*[s.num(v, "int") for v in orders.values()])
        extra = s.tup("contravariant") if mapped else s.tup()
        ref, dofs = seq(s, s.call(s.attr(pr, "go"), cell, s.tup(slot, hyper), od, mixed, extra))
        dofs = seq(s, dofs)
        vs, top = topology(cell, s, ref)
        t = len(top) - 1
        ents = [tuple(plain(s, s.call(s.attr(pr, "entity"), q))) for q in dofs]
        count = {}
        for i, sub in enumerate(top[d]):
            shape = cell if d == t else SHAPES[len(sub)]
            order = k if not mixed else orders[shape]
            pts = corner_lattice(s, shape, order)
            count[i] = (shape, order, pts)
        want = [(d, i) for i in range(len(top[d])) for _ in count[i][2]]
        R.ob(ents == want, "moments on every sub-entity", lab, f"{len(ents)} DOFs on the sub-entities {ents[:4]}..., expected {len(want)}")
        if ents != want:
            R.absorb(s)
            return
        maps = {plain(s, s.call(s.attr(pr, "mapping"), q)) for q in dofs}
        R.ob(not mapped or maps == {"contravariant"}, "mapping of moments", lab, f"mapping {maps} instead of the one asked for")
        rnd = random.Random(11)
        poly = {m: rnd.randrange(1, 30) for m in itertools.product(range(2), repeat=t)}
        for _ in range(6):
            poly[tuple(rnd.randrange(3) for _ in range(t))] = rnd.randrange(1, 30)
        f = Rat.const(0)
        for m, c in poly.items():
            q = Rat.const(c)
            for a, n in zip("xyz", m):
                for _ in range(n):
                    q = q * sym(a)
            f = f + q
        f = s.scalar(f)
        n = 0
        for i in range(len(top[d])):
            shape, order, pts = count[i]
            E = Entity(None, cell, vs, top, d, i, 0)
            dim = d
            basis = [e for e in (itertools.product(range(order + 1), repeat=dim) if shape == "quadrilateral" or shape == "hexahedron" else [e for j in range(order + 1) for e in sp.expos(dim, j)])]
            inv = inverse([{j: pval({b: Fr(1)}, modpt(q)) for j, b in enumerate(basis)} for q in pts], len(basis))
            polys = [{b: inv[j][q] for j, b in enumerate(basis)} for q in range(len(pts))]
            qr = rule(shape, order * (d if shape != "quadrilateral" and shape != "hexahedron" else 1) + 2 * t)
            got, exp = {}, {}
            for q in range(len(pts)):
                v = s.data(s.call(s.attr(pr, "apply"), dofs[n], f))
                v = Rat.const(v) if not isinstance(v, Rat) else v
                got[q] = polymod(v.num, {}) * pow(polymod(v.den, {}), -1, P_) % P_
                tot = 0
                for r, w in qr:
                    pt = tuple((frac(a) + sum(x * b[c] for x, b in zip(r, E.axes))) % P_ for c, a in enumerate(E.o))
                    tot += w * pval(polys[q], r) * pval(poly, pt)
                exp[q] = tot % P_
                n += 1
            got = {a: b for a, b in got.items() if b}
            exp = {a: b for a, b in exp.items() if b}
            R.ob(scaled(got, exp), "moments against the basis of the sub-element", lab, f"the moments on sub-entity {i} are not those against the sub-element's basis functions in order")
    except Dead:
        R.unknown("moments", lab, "raises " + where(s))
        discard()
    except (Unknown, Budget, ZeroDivisionError, ValueError) as e:
        R.unknown("moments", lab, repr(e))
        discard()
    R.absorb(s)


def corner_lattice(s, shape, k):
    """The points of a Lagrange element in DOF order: vertices, edges, interior."""
    if k == 0:
        return [tuple([Fr(1, 2) if shape in ("quadrilateral", "hexahedron") else Fr(1, {"interval": 2, "triangle": 3, "tetrahedron": 4}[shape])] * {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(shape, 3))]
    vs, top = topology(shape, s, s.ref(shape))
    out = []
    for d in range(len(top)):
        for i in range(len(top[d])):
            E = Entity(None, shape, vs, top, d, i, 0)
            for q in ([()] if d == 0 else lattice(E.shape, [Fr(j, k) for j in range(k + 1)])):
                out.append(on(E, q))
    return out


def job(R, item):
    if item[0] == "moments":
        factory(R, item)
    else:
        one(R, item)


def run(R):
    R.floor = 200
    R.explanation = ("Abstract interpretation of every element constructor; its functionals, as linear forms on the element's space modulo a prime, "
                     "are compared sub-entity by sub-entity with the point evaluations, derivatives and moments of an independent table of definitions.")
    s = session(R)
    items = sweep_items(s, 5 if R.thorough else 3, 3 if R.thorough else 1, heavy=R.thorough)
    run_deadline(R, job, factory_items() + items, 1800 if R.thorough else 100)
