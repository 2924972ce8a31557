"""Conformity: the trace an element's continuity speaks of is determined, facet by facet, by the DOFs on the closure of the
facet; on macro cells it agrees across the interior facets; and the basis functions' traces match between facets."""
import itertools
import random
from checks.sweep import *

C1 = {"HsiehCloughTocher", "ReducedHsiehCloughTocher", "Argyris", "Bell", "BognerFoxSchmit"}
AX = [sid(sym(a)) for a in ("x", "y", "z")]


def topology(cell, s, ref):
    """Vertices (integers) and, per dimension, the vertex tuples of the cell's own sub-entities."""
    v = [tuple(p) for p in plain(s, s.attr(ref, "vertices"))]
    t = len(v[0])
    out = [[(i,) for i in range(len(v))]]
    out.append([tuple(e) for e in plain(s, s.attr(ref, "edges"))])
    out.append([tuple(e) for e in plain(s, s.attr(ref, "faces"))])
    out.append([tuple(e) for e in plain(s, s.attr(ref, "volumes"))])
    return v, out[:t + 1]


def facets(top):
    """[(vertex tuple, [(dim, number)] of its closure, facet first vertices order)] for each facet."""
    t = len(top) - 1
    out = []
    for f in top[t - 1]:
        fs = set(f)
        clo = [(d, i) for d in range(t) for i, e in enumerate(top[d]) if set(e) <= fs]
        out.append((f, clo))
    return out


def axes_of(vs):
    """Origin and axes of a facet given by its vertices in low-to-high order."""
    o = vs[0]
    return o, [tuple(b - a for a, b in zip(o, v)) for v in vs[1:min(len(vs), 3)]][:max(1, len(o) - 1)]


def cross(a):
    """Normal of the facet spanned by axes (unnormalised; 1D: 1)."""
    if len(a) == 0:
        return (1,)
    if len(a) == 1:
        return (a[0][1], -a[0][0])
    p, q = a
    return (p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0])


class Values:
    """Values mod p of the functions spanning a space, and of their first derivatives, at points."""

    def __init__(self, x):
        self.x = x
        self.n = len(x.fs)
        sh = x.space.generic if x.space.pieces is None else x.space.generic[0]
        self.nc = len(flatten(sh))
        self.shape = () if not isinstance(sh, list) else (len(sh),) if not isinstance(sh[0], list) else (len(sh), len(sh[0]))
        self.pieces = None if x.space.pieces is None else [tuple(map(tuple, k)) for k in x.space.pieces]
        self.diffs = {}

    def at(self, pt, piece=None, der=None):
        """[component -> {basis index: value}]"""
        env = {a: c % P_ for a, c in zip(AX, pt)}
        out = [dict() for _ in range(self.nc)]
        if self.x.space.polynomial:
            mv = {}
            for i, row in enumerate(self.x.space.rows):
                for (pc, c, m), q in row.items():
                    if pc != piece:
                        continue
                    if m not in mv:
                        mv[m] = self.mono(m, env, der)
                    out[c][i] = (out[c].get(i, 0) + q * mv[m]) % P_
        else:
            if der is not None:
                raise Unknown("derivative of a rational function")
            for i, f in enumerate(self.x.fs):
                for c, r in enumerate(flatten(f[1])):
                    out[c][i] = polymod(r.num, env) * pow(polymod(r.den, env), -1, P_) % P_
        return out

    @staticmethod
    def mono(m, env, der):
        v = 1
        seen = False
        for a, e in m:
            if der is not None and a == AX[der]:
                seen = True
                v = v * e * pow(env[a], e - 1, P_) % P_ if e else 0
            else:
                v = v * pow(env[a], e, P_) % P_
        return 0 if der is not None and not seen else v


def lin(vals, coefs):
    out = {}
    for v, c in zip(vals, coefs):
        if c % P_:
            for i, q in v.items():
                out[i] = (out.get(i, 0) + c * q) % P_
    return {i: q for i, q in out.items() if q}


def trace(V, kind, pt, axes, piece=None):
    """Trace components at a point as vectors over the spanning functions."""
    v = V.at(pt, piece)
    if kind in ("C0", "C1"):
        out = [lin([w], [1]) for w in v]
        if kind == "C1":
            for d in range(len(pt)):
                out += [lin([w], [1]) for w in V.at(pt, piece, d)]
        return out
    n = cross(axes)
    if kind == "H(div)":
        return [lin(v, n)]
    if kind == "H(curl)":
        return [lin(v, a) for a in axes]
    sh = V.shape[0]
    if kind.endswith("inner H(div)"):
        return [lin(v, [n[i] * n[j] for i in range(sh) for j in range(sh)])]
    if kind == "inner H(curl)":
        return [lin(v, [a[i] * b[j] for i in range(sh) for j in range(sh)]) for a, b in itertools.combinations_with_replacement(axes, 2)]
    raise Unknown("continuity " + kind)


def pieces_on(V, vs, o, axes):
    """Sub-cells of a macro element with a facet on the given facet of the cell."""
    if V.pieces is None:
        return [(None, None)]
    n = cross(axes)
    out = []
    for pc in V.pieces:
        on = [v for v in pc if sum(a * (b - c) for a, b, c in zip(n, v, o)) == 0]
        if len(on) >= len(o):
            out.append((pc, on))
    return out


def frac(c):
    return c % P_ if isinstance(c, int) else c.numerator * pow(c.denominator, -1, P_) % P_


def modpt(p):
    return tuple(frac(c) for c in p)


def facet_points(o, axes, nv, rnd, k, on=None):
    """Points in the affine hull of the facet (on the sub-facet spanned by `on`), with their parameters."""
    out = []
    for _ in range(k):
        ps = [rnd.randrange(1, P_) for _ in axes]
        out.append((ps, tuple((a + sum(q * b[i] for q, b in zip(ps, axes))) % P_ for i, a in enumerate(o))))
    return out


def inverse(rows, n):
    """Columns of the inverse of a matrix given as sparse rows, mod p."""
    a = [[r.get(j, 0) for j in range(n)] + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(rows)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c]), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        i = pow(a[c][c], -1, P_)
        a[c] = [v * i % P_ for v in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [(v - f * w) % P_ for v, w in zip(a[r], a[c])]
    return [row[n:] for row in a]


def kinds_of(cls, cont, order):
    cont = cont.replace("{order}", str(order))
    if cls in C1:
        return ["C1"]
    if cont == "C0" or cont.startswith("C") and cont[1:].isdigit() and int(cont[1:]) == 0:
        return ["C0"]
    if cont.startswith("C") and cont[1:].isdigit():
        return ["C1"]
    return [cont]


def one(R, item):
    s = shared(R, 60_000_000 if R.thorough else 20_000_000)
    lab = label(item)
    try:
        conform(R, s, item, lab)
    except Dead:
        if not refused(s, "variant" in item[4], item):
            R.unknown("facet conformity", lab, "creation raises " + where(s))
    except (Unknown, Budget, ZeroDivisionError, NotLinear) as e:
        R.unknown("facet conformity", lab, repr(e))
    R.absorb(s)


def conform(R, s, item, lab):
    cls, name, cell, order, kw = item
    e = create(s, item)
    if not flag(s, "is_ciarlet", e):
        return
    cont = s.attr(e, "continuity")
    if not isinstance(cont, str) or cont == "L2":
        return
    x = Extract(s, item, False, e)
    if len(x.fs) == 0 or (order == 0 and cont == "C0"):
        return
    ref = s.attr(e, "reference")
    vs, top = topology(cell, s, ref)
    ents = [tuple(plain(s, q)) for q in seq(s, s.call(P(s, "dof_entities"), e))]
    if "variant" in kw and not any(q[0] < plain(s, s.attr(ref, "tdim")) for q in ents):
        return      # a variant with interior DOFs only
    V = Values(x)
    dual = [x.space.on_basis(x.space.apply(d)) for d in x.dofs]
    t = len(top) - 1
    if t != len(vs[0]):
        raise Unknown("embedded cell")
    rnd = random.Random(5)
    for kind in kinds_of(cls, cont, order):
        integral = kind.startswith("integral ")
        base = kind.replace("integral ", "")
        for fi, (f, clo) in enumerate(facets(top)):
            o, axes = axes_of([vs[i] for i in f])
            sp = Span(dual[j] for j in range(len(dual)) if ents[j] in clo)
            bad = False
            for pc, on in pieces_on(V, vs, o, axes):
                if integral:
                    tr = integral_trace(V, base, o, axes, pc, on, len(f))
                else:
                    tr = [q for _, p in facet_points(o, axes, len(f), rnd, 3) for q in trace(V, base, p, axes, pc)]
                if any(q not in sp for q in tr):
                    bad = True
            R.ob(not bad, "trace is determined by the DOFs on the facet's closure", lab,
                 f"{kind} trace on facet {fi} {[vs[i] for i in f]} is not a combination of the {len(sp)} DOFs on its closure")
        if V.pieces is not None:
            interior(R, V, base, lab, rnd)
        if base != "C1" and not integral and cls not in NOMATCH:
            matching(R, s, x, V, dual, base, lab, vs, top, ents, rnd)


NOMATCH = C1 | {"Transition", "Hermite", "WuXu", "MorleyWangXu"}


def integral_trace(V, kind, o, axes, pc, on, nv):
    """Integral of the trace over the facet of a triangle: Gauss-free, by exact interpolation of a polynomial in one variable."""
    if len(axes) != 1:
        raise Unknown("integral continuity on faces")
    N = 12
    # Newton-Cotes on N+1 points, exact to degree N, with weights solved mod p
    pts = [frac(Fr(i, N)) for i in range(N + 1)]
    rows = [{j: pow(pts[j], k, P_) for j in range(N + 1)} for k in range(N + 1)]
    inv = inverse(rows, N + 1)
    w = [sum(inv[j][k] * frac(Fr(1, k + 1)) for k in range(N + 1)) % P_ for j in range(N + 1)]
    out = {}
    for q, wt in zip(pts, w):
        p = tuple((a + q * b) % P_ for a, b in zip(o, axes[0]))
        for i, c in trace(V, kind, p, axes, pc)[0].items():
            out[i] = (out.get(i, 0) + wt * c) % P_
    return [{i: c for i, c in out.items() if c}]


def interior(R, V, kind, lab, rnd):
    """Traces of the functions of a macro element agree across interior facets."""
    for a, b in itertools.combinations(V.pieces, 2):
        com = [v for v in a if v in b]
        if len(com) < len(a[0]):
            continue
        o = modpt(com[0])
        axes = [tuple((y - z) % P_ for y, z in zip(modpt(v), o)) for v in com[1:len(a[0])]]
        bad = False
        for _, p in facet_points(o, axes, len(com), rnd, 2):
            for u, w in zip(trace(V, kind, p, axes, a), trace(V, kind, p, axes, b)):
                bad = bad or u != w
        R.ob(not bad, "traces agree across the interior facets of a macro cell", lab, f"{kind} trace jumps between the pieces {a} and {b}")


def matching(R, s, x, V, dual, kind, lab, vs, top, ents, rnd):
    """The traces of the basis functions are the same, in facet coordinates, on every facet of one shape."""
    n = V.n
    inv = inverse(dual, n)
    if inv is None:
        return
    # basis function k = sum_i inv[i][k] f_i, as dual rows are L_j(f_i)
    first = {}
    for fi, (f, clo) in enumerate(facets(top)):
        o, axes = axes_of([vs[i] for i in f])
        fs = set(f)
        order = []
        for d in range(len(top) - 1):
            es = [(tuple(sorted(f.index(v) for v in top[d][i])), i) for dd, i in clo if dd == d]
            for key, i in sorted(es):
                order.append((d, key, [j for j in range(n) if ents[j] == (d, i)]))
        shape = tuple((d, k, len(js)) for d, k, js in order)
        js = [j for _, _, q in order for j in q]
        r2 = random.Random(11)
        prof = []
        pcs = pieces_on(V, vs, o, axes)
        if len(pcs) > 1:
            return
        for _, p in facet_points(o, axes, len(f), r2, 2):
            for tr in trace(V, kind, p, axes, pcs[0][0]):
                prof.append([sum(c * inv[i][j] for i, c in tr.items()) % P_ for j in js])
        key = len(f)
        if key not in first:
            first[key] = (fi, shape, prof)
        else:
            f0, sh0, pr0 = first[key]
            if sh0 != shape:
                R.bad("facets of one shape carry the same DOFs", lab, f"facets {f0} and {fi}: {sh0} and {shape}"[:300])
                continue
            R.ob(pr0 == prof, "basis functions have the same traces on all facets of one shape", lab,
                 f"{kind} traces of the basis functions on facets {f0} and {fi} differ in facet coordinates")


def run(R):
    R.floor = 40
    R.explanation = ("Abstract interpretation of every element constructor; on each facet the trace of a generic function of the space "
                     "is expressed as linear forms, which must be combinations of the linear forms of the DOFs on the facet's closure.")
    s = session(R)
    items = sweep_items(s, 5 if R.thorough else 3, 3 if R.thorough else 1, heavy=R.thorough)
    run_deadline(R, one, items, 2400 if R.thorough else 120)
