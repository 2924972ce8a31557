"""Independent definitions of polynomial spaces as coefficient vectors, in the coordinates used by elements.coeffs."""
import itertools
from fractions import Fraction as Fr
from checks.elements import P_, sid, sym, Span

AX = [sid(sym(a)) for a in ("x", "y", "z")]


def key(e):
    return tuple(sorted((AX[i], k) for i, k in enumerate(e) if k))


# ---- polynomials as {exponents: Fraction}
def mono(*e):
    return {tuple(e): Fr(1)}


def padd(*ps):
    o = {}
    for p in ps:
        for m, c in p.items():
            o[m] = o.get(m, 0) + c
    return {m: c for m, c in o.items() if c}


def pmul(p, q):
    o = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(a + b for a, b in zip(m, n))
            o[k] = o.get(k, 0) + c * d
    return {m: c for m, c in o.items() if c}


def pscale(p, c):
    return {m: v * c for m, v in p.items() if v * c}


def pdiff(p, i):
    o = {}
    for m, c in p.items():
        if m[i]:
            k = tuple(e - (j == i) for j, e in enumerate(m))
            o[k] = o.get(k, 0) + c * m[i]
    return o


def var(t, i):
    return mono(*[int(j == i) for j in range(t)])


def const(t, c=1):
    return {tuple([0] * t): Fr(c)}


def expos(t, k):
    """Exponents of total degree k."""
    if t == 1:
        return [(k,)]
    return [(i,) + r for i in range(k + 1) for r in expos(t - 1, k - i)]


def homog(t, k):
    return [mono(*e) for e in expos(t, k)] if k >= 0 else []


def total(t, k):
    return [m for j in range(k + 1) for m in homog(t, j)]


def tensor(*ks):
    return [mono(*e) for e in itertools.product(*[range(k + 1) for k in ks])]


def prismset(k):
    return [mono(*(e + (j,))) for d in range(k + 1) for e in expos(2, d) for j in range(k + 1)]


def vec(ps, n):
    return [tuple(p if i == j else {} for j in range(n)) for p in ps for i in range(n)]


def symm(ps, n):
    out = []
    for p in ps:
        for i in range(n):
            for j in range(i, n):
                out.append(tuple(p if (a, b) in ((i, j), (j, i)) else {} for a in range(n) for b in range(n)))
    return out


def mod(c):
    c = Fr(c)
    return c.numerator * pow(c.denominator, -1, P_) % P_


def row(f, pieces=None):
    """Coefficient vector of a function given as one polynomial or a tuple of components."""
    if isinstance(f, dict):
        f = (f,)
    out = {}
    for pc in (pieces or [None]):
        for c, p in enumerate(f):
            for m, v in p.items():
                k = (pc, c, key(m))
                out[k] = (out.get(k, 0) + mod(v)) % P_
    return {k: v for k, v in out.items() if v}


def lagrange_set(cell, k, t):
    if cell in ("quadrilateral", "hexahedron"):
        return tensor(*[k] * t)
    if cell == "prism":
        return prismset(k)
    return total(t, k)


def superlinear(e):
    return sum(i for i in e if i > 1)


def serendipity(t, k):
    """Monomials of superlinear degree at most k (Arnold and Awanou)."""
    return [mono(*e) for e in itertools.product(range(k + 1), repeat=t) if superlinear(e) <= k]


def kernel_dot(t, k):
    """Homogeneous vector fields of degree k with x.v = 0: the Koszul images of 2-forms of degree k - 1."""
    out = []
    for p in homog(t, k - 1):
        for i in range(t):
            for j in range(i + 1, t):
                out.append(tuple(pmul(p, var(t, j)) if c == i else pscale(pmul(p, var(t, i)), -1) if c == j else {} for c in range(t)))
    return out


def radial(t, k):
    return [tuple(pmul(p, var(t, i)) for i in range(t)) for p in homog(t, k - 1)]


def rot2(p):
    return (pdiff(p, 1), pscale(pdiff(p, 0), -1))


def grad(p, t):
    return tuple(pdiff(p, i) for i in range(t))


def curl3(v):
    return (padd(pdiff(v[2], 1), pscale(pdiff(v[1], 2), -1)), padd(pdiff(v[0], 2), pscale(pdiff(v[2], 0), -1)),
            padd(pdiff(v[1], 0), pscale(pdiff(v[0], 1), -1)))


def cross_x(v):
    """v x (x, y, z)."""
    x = [var(3, i) for i in range(3)]
    def s(a, b):
        return padd(a, pscale(b, -1))
    return (s(pmul(v[1], x[2]), pmul(v[2], x[1])), s(pmul(v[2], x[0]), pmul(v[0], x[2])), s(pmul(v[0], x[1]), pmul(v[1], x[0])))


def family(cls, cell, k, t):
    """Functions spanning the space the literature gives for an element; None where it is not tabulated."""
    s = cell in ("interval", "triangle", "tetrahedron")
    if cls in ("Lagrange", "Taylor", "Bernstein", "CrouzeixRaviart", "Morley", "FortinSoulie", "Hermite", "Argyris", "DPC",
               "MorleyWangXu") and cell not in ("prism", "pyramid"):
        if cls == "MorleyWangXu":
            return total(t, k)
        return total(t, k)
    if cls == "Lagrange" and cell == "prism":
        return prismset(k)
    if cls == "Q":
        return tensor(*[k] * t)
    if cls == "BognerFoxSchmit":
        return tensor(3, 3)
    if cls in ("VectorLagrange", "BDM", "NedelecSecondKind", "VectorDPC"):
        return vec(total(t, k), t) if t > 1 else total(t, k)
    if cls == "VectorQ":
        return vec(tensor(*[k] * t), t)
    if cls == "MatrixLagrange":
        return vec(total(t, k), t * t)
    if cls in ("SymmetricMatrixLagrange", "Regge", "HellanHerrmannJohnson"):
        return symm(total(t, k), t)
    if cls == "RaviartThomas" and s:
        return vec(total(t, k - 1), t) + radial(t, k)
    if cls == "NedelecFirstKind":
        return vec(total(t, k - 1), t) + kernel_dot(t, k)
    if cls == "RaviartThomas":
        return [tuple(p if i == d else {} for i in range(t)) for d in range(t) for p in tensor(*[k if i == d else k - 1 for i in range(t)])]
    if cls == "Nedelec" and cell in ("quadrilateral", "hexahedron"):
        return [tuple(p if i == d else {} for i in range(t)) for d in range(t) for p in tensor(*[k - 1 if i == d else k for i in range(t)])]
    if cls == "Nedelec" and cell == "prism":
        flat = [tuple(list(v) + [{}]) for v in
                [tuple({m + (j,): c for m, c in q.items()} for q in w) for w in vec(total(2, k - 1), 2) + kernel_dot(2, k) for j in range(k + 1)]]
        return flat + [({}, {}, {m + (j,): c for m, c in p.items()}) for p in total(2, k) for j in range(k)]
    if cls == "ArnoldBoffiFalk":
        return [(p, {}) for p in tensor(k + 2, k)] + [({}, p) for p in tensor(k, k + 2)]
    if cls == "HuangZhang":
        return [(p, {}) for p in tensor(k, k - 1)] + [({}, p) for p in tensor(k - 1, k)]
    if cls == "Serendipity":
        return serendipity(t, k)
    if cls == "SerendipityDiv" and t == 2:
        return vec(total(2, k), 2) + [rot2(mono(k + 1, 1)), rot2(mono(1, k + 1))]
    if cls == "SerendipityCurl" and t == 2:
        return vec(total(2, k), 2) + [grad(mono(k + 1, 1), 2), grad(mono(1, k + 1), 2)]
    if cls == "AC":
        if k == 0:
            return vec(total(2, 0), 2) + [(mono(1, 0), {}), ({}, mono(0, 1))]
        return vec(total(2, k), 2) + radial(2, k + 1) + [rot2(mono(k + 1, 1)), rot2(mono(1, k + 1))]
    if cls in ("SerendipityCurl", "SerendipityDiv") and t == 3:
        J1 = []          # J_k Lambda^1 on the cube as the Koszul image of l-linear 2-forms
        if cls == "SerendipityDiv":
            for f in kernel3(k):
                J1.append(curl3(f))
            return vec(total(3, k), 3) + J1
        return vec(total(3, k), 3) + kernel3(k - 1) + [grad(p, 3) for p in serendipity(3, k + 1)]
    if cls == "RannacherTurek":
        x2 = [mono(*[2 * int(i == j) for j in range(t)]) for i in range(t)]
        return total(t, 1) + [padd(x2[i], pscale(x2[i + 1], -1)) for i in range(t - 1)]
    if cls == "Bubble":
        lam = barycentric(t) if s else [q for i in range(t) for q in (var(t, i), padd(const(t), pscale(var(t, i), -1)))]
        b = const(t)
        for q in lam:
            b = pmul(b, q)
        return [pmul(b, p) for p in (total(t, k - t - 1) if s else tensor(*[k - 2] * t))]
    if cls == "BubbleEnrichedLagrange":
        return total(2, k) + family("Bubble", "triangle", k + 2, 2)
    if cls == "BubbleEnrichedVectorLagrange":
        return vec(family("BubbleEnrichedLagrange", "triangle", k, 2), 2)
    if cls == "ConformingCrouzeixRaviart":
        s2 = padd(var(2, 0), var(2, 1))
        return total(2, k) + [pmul(mono(i, k - i), s2) for i in range(1, k)]
    if cls == "WuXu":
        b = const(t)
        for q in barycentric(t):
            b = pmul(b, q)
        return total(t, k) + [pmul(b, p) for p in total(t, 1)]
    if cls == "Bell":
        return constrained(total(2, 5), [lambda f, e=e, n=n: edge_tail(padd(*[pscale(pdiff(f, i), n[i]) for i in range(2)]), e, 3) for e, n in EDGES2])
    if cls == "BDFM" and cell == "triangle":
        return constrained(vec(total(2, k), 2), [lambda f, e=e, n=n: edge_tail(dotc(f, n), e, k - 1) for e, n in EDGES2])
    if cls == "BDFM" and cell == "tetrahedron":
        return constrained(vec(total(3, k), 3), [lambda f, fc=fc, n=n: face_tail(dotc(f, n), fc, k - 1) for fc, n in FACES3])
    if cls == "BDFM":
        def without(d):
            return [p for p in total(t, k) if not (sum(next(iter(p))) == k and next(iter(p))[d] == 0)]
        return [tuple(p if i == d else {} for i in range(t)) for d in range(t) for p in without(d)]
    if cls == "BDDF":
        cs = [({}, {}, mono(k + 1, 1, 0)), ({}, mono(1, 0, k + 1), {}), (mono(0, k + 1, 1), {}, {})]
        for i in range(1, k + 1):
            cs += [({}, {}, mono(1, i + 1, k - i)), ({}, mono(i + 1, k - i, 1), {}), (mono(k - i, 1, i + 1), {}, {})]
        return vec(total(3, k), 3) + [curl3(c) for c in cs]
    if cls == "MardalTaiWinther" and t == 2:
        return constrained(vec(total(2, 3), 2), [lambda f: tail(padd(pdiff(f[0], 0), pdiff(f[1], 1)), 0)] +
                           [(lambda f, e=e, n=n: edge_tail(dotc(f, n), e, 1)) for e, n in EDGES2])
    if cls == "ArnoldWinther":
        def div(f):
            return {**{(0,) + m: c for m, c in tail(padd(pdiff(f[0], 0), pdiff(f[1], 1)), k - 2).items()},
                    **{(1,) + m: c for m, c in tail(padd(pdiff(f[2], 0), pdiff(f[3], 1)), k - 2).items()}}
        return constrained(symm(total(2, k), 2), [div])
    if cls == "NonConformingArnoldWinther":
        return constrained(symm(total(2, 2), 2), [lambda f, e=e, n=n: edge_tail(
            padd(*[pscale(f[2 * i + j], n[i] * n[j]) for i in range(2) for j in range(2)]), e, 1) for e, n in EDGES2])
    if cls == "BernardiRaugel":
        lam = barycentric(t)
        if t == 2:
            return vec(total(2, 1), 2) + [tuple(pscale(pmul(lam[e[0]], lam[e[1]]), c) for c in n) for e, n in EDGES2]
        out = vec(total(3, k), 3) + [tuple(pscale(pmul(lam[e[0]], pmul(lam[e[1]], lam[e[2]])), c) for c in n) for e, n in FACES3]
        if k == 2:
            out += vec([pmul(pmul(lam[0], lam[1]), pmul(lam[2], lam[3]))], 3)
        return out
    if cls == "TrimmedSerendipityHdiv":
        base = vec(total(t, k - 1), t) + radial(t, k)
        return base + ([rot2(mono(k, 1)), rot2(mono(1, k))] if t == 2 else [curl3(f) for f in kernel3(k - 1)])
    if cls == "TrimmedSerendipityHcurl":
        base = vec(total(t, k - 1), t) + kernel_dot(t, k)
        return base + ([grad(mono(k, 1), 2), grad(mono(1, k), 2)] if t == 2 else kernel3(k - 1) + [grad(p, 3) for p in serendipity(3, k)])
    if cls == "ReggeTP":
        return None
    return None


EDGES2 = [((1, 2), (1, 1)), ((0, 2), (1, 0)), ((0, 1), (0, 1))]
FACES3 = [((1, 2, 3), (1, 1, 1)), ((0, 2, 3), (1, 0, 0)), ((0, 1, 3), (0, 1, 0)), ((0, 1, 2), (0, 0, 1))]


def dotc(f, n):
    return padd(*[pscale(p, c) for p, c in zip(f, n)])


def tail(p, k):
    """The terms of degree above k."""
    return {m: c for m, c in p.items() if sum(m) > k}


def compose(p, maps, n):
    """p with every variable replaced by a polynomial in n variables."""
    out = {}
    for m, c in p.items():
        q = const(n, c)
        for i, e in enumerate(m):
            for _ in range(e):
                q = pmul(q, maps[i])
        out = padd(out, q)
    return out


VERT = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]


def edge_tail(p, e, k):
    a, b = VERT[e[0]], VERT[e[1]]
    return tail(compose(p, [padd(const(1, a[i]), mono_c(1, 0, b[i] - a[i])) for i in range(2)], 1), k)


def face_tail(p, f, k):
    a, b, c = (VERT[i] for i in f)
    return tail(compose(p, [padd(const(2, a[i]), mono_c(2, 0, b[i] - a[i]), mono_c(2, 1, c[i] - a[i])) for i in range(3)], 2), k)


def mono_c(n, i, c):
    return pscale(var(n, i), c)


def constrained(fs, conditions):
    """Basis of the functions in the span of fs for which every condition (a linear map to a vector) vanishes."""
    conditions = list(conditions)
    rows = []
    for f in fs:
        r = {}
        for j, c in enumerate(conditions):
            for m, v in c(f).items():
                r[j, m] = v
        rows.append(r)
    piv, out = [], []
    for f, r in zip(fs, rows):
        comb = f if isinstance(f, tuple) else (f,)
        r = dict(r)
        for k, pr, pc in piv:
            c = r.get(k, 0)
            if c:
                c = Fr(c) / pr[k]
                for m, v in pr.items():
                    r[m] = r.get(m, 0) - c * v
                comb = tuple(padd(p, pscale(q, -c)) for p, q in zip(comb, pc))
        r = {m: v for m, v in r.items() if v}
        if r:
            piv.append((min(r, key=str), r, comb))
        else:
            out.append(comb)
    return out


def barycentric(t):
    return [padd(const(t), *[pscale(var(t, i), -1) for i in range(t)])] + [var(t, i) for i in range(t)]


def kernel3(k):
    """Koszul images of the form (yz(p - q)...) used by the cubic serendipity families: for p in H_k independent of one variable,
    the fields x y z-symmetric combinations (Arnold and Awanou, 2014, section 2)."""
    if k < 0:
        return []
    out = []
    x, y, z = (var(3, i) for i in range(3))
    for i in range(k + 1):
        p = mono(0, i, k - i)
        out.append(({}, pmul(pmul(x, z), p), pscale(pmul(pmul(x, y), p), -1)))
        p = mono(i, 0, k - i)
        out.append((pmul(pmul(y, z), p), {}, pscale(pmul(pmul(x, y), p), -1)))
        p = mono(i, k - i, 0)
        out.append((pmul(pmul(y, z), p), pscale(pmul(pmul(x, z), p), -1), {}))
    return out
