"""Polynomial sets, orthogonal, orthonormal, Lobatto and dual bases, and quadrature rules are what their names say."""
from checks.sweep import *
from checks.common import eq, refuses
from sa.poly import rsubs, rdiff, rint
from decimal import Decimal, getcontext
from itertools import product
from math import comb

PROBE20 = '''
import symfem.polynomials as P
from symfem import quadrature as Qd
from symfem.functions import parse_function_input
def fs(l): return [parse_function_input(f) for f in l]
def pset(name, *a): return fs(getattr(P, name)(*a))
def pset_vars(name, v, *a): return fs(getattr(P, name)(*a, variables=v))
def ortho(cell, order, derivs): return [fs(r) for r in P.orthogonal_basis(cell, order, derivs)]
def ortho_vars(cell, order, derivs, v): return [fs(r) for r in P.orthogonal_basis(cell, order, derivs, v)]
def normal(cell, order, derivs): return [fs(r) for r in P.orthonormal_basis(cell, order, derivs)]
def normal_vars(cell, order, derivs, v): return [fs(r) for r in P.orthonormal_basis(cell, order, derivs, v)]
def lob(cell, order, ends): return fs(P.lobatto_basis(cell, order, ends))
def lob_default(cell, order): return fs(P.lobatto_basis(cell, order))
def lobdual(cell, order, ends): return fs(P.lobatto_dual_basis(cell, order, ends))
def lobdual_default(cell, order): return fs(P.lobatto_dual_basis(cell, order))
def dual(cell, l): return fs(P.l2_dual(cell, l))
def rule(name, n): return [list(i) for i in Qd.get_quadrature(name, n)]
def direct_rule(name, n): return [list(i) for i in getattr(Qd, name)(n)]
'''
x, y, z = X(3)
AXES = [x, y, z]
DIM = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3, "prism": 3, "pyramid": 3}
ONE = R1
getcontext().prec = 90


def prog(R):
    s = session(R, 200_000_000)
    s.p20 = s.probe(PROBE20, "poly_probe_")
    return s


def F(s, n):
    return s.attr(s.p20, n)


def dec(r):
    """90 digit value of a constant term with square roots."""
    def poly(p):
        t = Decimal(0)
        for m, c in p.t.items():
            f = Fraction(c)
            q = Decimal(f.numerator) / Decimal(f.denominator)
            for a, e in m:
                at = atom_of(a)
                if at.kind != "sqrt":
                    raise Unknown(f"constant {at.kind}")
                v = dec(at.args[0])
                if v < 0:
                    raise Unknown("negative square root")
                q *= v.sqrt() ** e
            t += q
        return t
    n, d = poly(r.num), poly(r.den)
    if d == 0:
        raise Unknown("division by zero")
    return n / d


def small(r):
    return abs(dec(r)) < Decimal(10) ** -60


def cint(r, cell):
    """Integral over the reference cell."""
    X_, Y_, Z_ = (sid(v) for v in AXES)
    u = lambda v: (v, R0, R1)
    if cell == "pyramid":
        w = ONE - z
        r = rsubs(r, {X_: x * w, Y_: y * w}) * w * w
        lims = (u(X_), u(Y_), u(Z_))
    elif cell == "interval":
        lims = (u(X_),)
    elif cell == "triangle":
        lims = ((X_, R0, ONE - y), u(Y_))
    elif cell == "quadrilateral":
        lims = (u(X_), u(Y_))
    elif cell == "tetrahedron":
        lims = ((X_, R0, ONE - y - z), (Y_, R0, ONE - z), u(Z_))
    elif cell == "prism":
        lims = ((X_, R0, ONE - y), u(Y_), u(Z_))
    else:
        lims = (u(X_), u(Y_), u(Z_))
    v = rint(r, lims)
    if any(atom_of(a).kind not in ("sqrt",) for a in v.deep_atoms()):
        raise Unknown("integral not evaluated")
    return v


def same_const(a, b):
    return rsame(a, b) or small(a - b)


def mono(*e):
    r = R1
    for v, k in zip(AXES, e):
        for _ in range(k):
            r = r * v
    return r


def exps(cell, n):
    """Exponents of the complete polynomial space of a cell."""
    d = DIM[cell]
    for e in product(range(n + 1), repeat=d):
        if cell in ("interval", "quadrilateral", "hexahedron") or cell in ("triangle", "tetrahedron") and sum(e) <= n or cell == "prism" and e[0] + e[1] <= n:
            yield e


def vec(fs):
    """Coefficient rows of function terms over a common denominator."""
    rows = [coeffs(("all", f)) for f in fs]
    if any(r is None for r in rows):
        w = ONE - z
        k = 12
        W = R1
        for _ in range(k):
            W = W * w
        rows = [coeffs(("all", [c * W for c in flatten(f)])) for f in fs]
        if any(r is None for r in rows):
            raise Unknown("not polynomial")
    return rows


def rank(rows):
    piv = {}
    for r in rows:
        r = dict(r)
        while r:
            k = min(r)
            if k not in piv:
                inv = pow(r[k], -1, P_)
                piv[k] = {m: c * inv % P_ for m, c in r.items()}
                break
            c = r[k]
            for m, v in piv[k].items():
                r[m] = (r.get(m, 0) - c * v) % P_
                if not r[m]:
                    del r[m]
    return len(piv)


def spans(R, con, got, want, what="spans the space", basis=True):
    """got and want span the same space (and got is a basis)."""
    a, b = vec([flatten(g) for g in got]), vec([flatten(w) for w in want])
    a = [{(k[1], k[2]): v for k, v in r.items()} for r in a]
    b = [{(k[1], k[2]): v for k, v in r.items()} for r in b]
    rb, ra, rab = rank(b), rank(a), rank(a + b)
    R.ob(rab == rb, what, con, "a function is not in the space")
    R.ob(ra == rb or rab != rb, what, con, f"spans {ra} of {rb} dimensions")
    if basis:
        R.ob(len(got) == ra, "linearly independent", con, f"{len(got)} functions of rank {ra}")


def lists(s, v):
    d = s.data(v)
    ex(d)
    return d


def orders(R, a, b):
    return range(a, b + (1 if R.thorough else 0))


def serendipity_sup(n, d, l):
    """Monomials with superlinear degree at most n and degree more than n."""
    for e in product(range(n + d + 1), repeat=d):
        if sum(k for k in e if k > 1) <= n and sum(e) > n:
            yield e


def sets(R):
    s = prog(R)

    def get(name, *a):
        return lists(s, s.call(F(s, "pset"), name, *a))

    def unit(f, d):
        return [[f if i == j else R0 for j in range(d)] for i in range(d)]

    def go(name, args, want, con=None, basis=True):
        con = con or f"{name}{args}"
        R.guard("spans the space", con, lambda: spans(R, con, get(name, *args), want, basis=basis), sess=s)
        others = [sym("u"), sym("v"), sym("w")]

        def renamed():
            a = get(name, *args)
            b = lists(s, s.call(F(s, "pset_vars"), name, s.tup(*others), *args))
            mp = {sid(p): q for p, q in zip(AXES, others)}
            r = lambda d: [r(q) for q in d] if isinstance(d, list) else rsubs(d, mp)
            R.ob(data_eq(b, [r(q) for q in a]), "in other variables", con, "the functions in other variables are not the renamed ones")
        R.guard("in other variables", con, renamed, sess=s)

    for n in orders(R, 0, 5):
        for d in (1, 2, 3):
            tri = {1: "interval", 2: "triangle", 3: "tetrahedron"}[d]
            qd = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}[d]
            go("polynomial_set_1d", (d, n), [mono(*e) for e in exps(tri, n)])
            if n < 4:
                go("quolynomial_set_1d", (d, n), [mono(*e) for e in exps(qd, n)])
                for r in (1, 2, 3):
                    if r in (d, 2):
                        go("polynomial_set_vector", (d, r, n), [f for e in exps(tri, n) for f in unit(mono(*e), r)])
                        if n < 3:
                            go("quolynomial_set_vector", (d, r, n), [f for e in exps(qd, n) for f in unit(mono(*e), r)])
        if n < 4:
            go("prism_polynomial_set_1d", (3, n), [mono(*e) for e in exps("prism", n)])
        if n < 3:
            go("prism_polynomial_set_vector", (3, 3, n), [f for e in exps("prism", n) for f in unit(mono(*e), 3)])
        if n < 4:
            go("pyramid_polynomial_set_1d", (3, n), pyramid(n))
        if n < 2:
            go("pyramid_polynomial_set_vector", (3, 3, n), [f for p in pyramid(n) for f in unit(p, 3)])
        for cell in DIM:
            if n < 4:
                go("polynomial_set", (cell, n), pyramid(n) if cell == "pyramid" else [mono(*e) for e in exps(cell, n)])
    for n in orders(R, 1, 5):
        for d in (2, 3):
            hom = [e for e in product(range(n), repeat=d) if sum(e) == n - 1]
            go("Hdiv_polynomials", (d, d, n), [[v * mono(*e) for v in AXES[:d]] for e in hom])
            go("Hcurl_polynomials", (d, d, n), koszul(d, n))
            if n < 4:
                go("Hdiv_quolynomials", (d, d, n), [[mono(*(e[:i] + (n,) + e[i:])) if i == j else R0 for j in range(d)]
                                                    for i in range(d) for e in product(range(n), repeat=d - 1)])
                go("Hcurl_quolynomials", (d, d, n), [[mono(*e) if i == j else R0 for j in range(d)] for i in range(d)
                                                     for e in product(*[range(n) if i == k else range(n + 1) for k in range(d)]) if n in e])
    for n in orders(R, 1, 5):
        for d in (1, 2, 3):
            if d > 1:
                go("serendipity_set_1d", (d, n), [mono(*e) for e in serendipity_sup(n, d, 0)])
        if n < 4:
            go("serendipity_set_vector", (2, 2, n), [f for e in serendipity_sup(n, 2, 0) for f in unit(mono(*e), 2)])
            go("serendipity_set_vector", (3, 3, n), [f for e in serendipity_sup(n, 3, 0) for f in unit(mono(*e), 3)])
            go("Hcurl_serendipity", (2, 2, n), [grad(mono(*e), 2) for e in ((n + 1, 1), (1, n + 1))])
            go("Hcurl_serendipity", (3, 3, n), edge_extra(n - 1) + [grad(mono(*e), 3) for e in serendipity_sup(n + 1, 3, 0)])
    for n in orders(R, 0, 3):
        if n:
            go("Hdiv_serendipity", (2, 2, n), [[g, -f] for f, g in (grad(mono(*e), 2) for e in ((n + 1, 1), (1, n + 1)))])
        go("Hdiv_serendipity", (3, 3, n), [rot(f) for f in edge_extra(n)])
    refusals(R, s)
    R.absorb(s)


def grad(f, d):
    return [rdiff(f, sid(z)) for z in AXES[:d]]


def rot(f):
    d = lambda i, j: rdiff(f[i], sid(AXES[j]))
    return [d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)]


def edge_extra(n):
    """The fields (yz(v - w), zx(w - u), xy(u - v)) of Arnold and Awanou, where u, v, w are homogeneous of degree n in (y, z), (x, z) and (x, y)."""
    x, y, z = AXES
    out = []
    for i in range(n + 1):
        u, v, w = mono(0, i, n - i), mono(i, 0, n - i), mono(i, n - i, 0)
        out += [[R0, -z * x * u, x * y * u], [y * z * v, R0, -x * y * v], [-y * z * w, z * x * w, R0]]
    return out


def refusals(R, s):
    for name, args in (("polynomial_set_1d", (4, 1)), ("polynomial_set", ("octahedron", 1)), ("Hdiv_polynomials", (4, 4, 1)), ("Hcurl_polynomials", (1, 1, 1))):
        refuses(R, s, "unsupported set", f"{name}{args}", lambda: s.call(F(s, "pset"), name, *args))
    refuses(R, s, "unsupported set", "orthogonal basis of an unknown cell", lambda: s.call(F(s, "ortho"), "octahedron", 1, 0))
    for c in ("triangle", "tetrahedron", "prism", "pyramid"):
        refuses(R, s, "unsupported set", f"Lobatto basis of a {c}", lambda: s.call(F(s, "lob"), c, 2, True))
        refuses(R, s, "unsupported set", f"dual Lobatto basis of a {c}", lambda: s.call(F(s, "lobdual"), c, 2, True))


def pyramid(n):
    """x^i y^j z^k / (1-z)^min(i, j) with max(i, j) + k at most n."""
    out = []
    for k in range(n + 1):
        for i in range(n + 1 - k):
            for j in range(n + 1 - k):
                w = R1
                for _ in range(min(i, j)):
                    w = w * (ONE - z)
                out.append(mono(i, j, k) / w)
    return out


def koszul(d, n):
    """Homogeneous vector polynomials of degree n orthogonal to the position: cross products of the position with homogeneous ones."""
    hom = [mono(*e) for e in product(range(n + 1), repeat=d) if sum(e) == n - 1]
    if d == 2:
        return [[y * p, -x * p] for p in hom]
    out = []
    for p in hom:
        out += [[R0, z * p, -y * p], [-z * p, R0, x * p], [y * p, -x * p, R0]]
    return out


def dindex(d, e):
    if d == 1:
        return e[0]
    if d == 2:
        p, q = e
        return (p + q + 1) * (p + q) // 2 + q
    p, q, r = e
    return (p + q + r) * (p + q + r + 1) * (p + q + r + 2) // 6 + (q + r) * (q + r + 1) // 2 + r


ORTHO = {"interval": 6, "triangle": 4, "quadrilateral": 3, "tetrahedron": 3, "hexahedron": 2, "prism": 2, "pyramid": 2}


def ortho(R, job):
    cell, order, derivs = job
    s = prog(R)
    d = DIM[cell]
    con = f"{cell}, order {order}, {derivs} derivatives"
    tables = {}

    def go(kind):
        t = lists(s, s.call(F(s, kind), cell, order, derivs))
        tables[kind] = t
        want = [e for e in product(range(derivs + 1), repeat=d) if sum(e) <= derivs]
        R.ob(len(t) == len(want), "table of derivatives", f"{kind}: {con}", f"{len(t)} rows for {len(want)} derivatives")
        fs = t[0]
        for e in want:
            row = t[dindex(d, e)]
            for i, f in enumerate(fs):
                g = f
                for a, k in zip(AXES, e):
                    for _ in range(k):
                        g = rdiff(g, sid(a))
                R.ob(rsame(g, row[i]), "table of derivatives", f"{kind}: {con}", lambda: f"row {dindex(d, e)} is not the derivative {e} of function {i}")
        return fs
    try:
        fs = go("ortho")
        spans(R, f"orthogonal basis: {con}", fs, pyramid(order) if cell == "pyramid" else [mono(*e) for e in exps(cell, order)])
        if derivs == 0:
            for i, f in enumerate(fs):
                for j in range(i):
                    R.ob(same_const(cint(f * fs[j], cell), R0), "orthogonal", con, lambda: f"functions {j} and {i} are not orthogonal")
    except (Dead, Unknown, Budget, ZeroDivisionError) as e:
        if isinstance(e, Dead):
            R.bad("orthogonal", con, f"raises {where(s)}")
        else:
            R.unknown("orthogonal", con, repr(e))
        R.absorb(s)
        return
    try:
        ns = go("normal")
        R.ob(len(ns) == len(fs), "orthonormal", con, "another number of functions")
        if derivs == 0:
            for i, f in enumerate(ns):
                R.ob(same_const(cint(f * f, cell), R1), "orthonormal", con, lambda: f"function {i} does not have norm 1")
                for j in range(i):
                    R.ob(same_const(cint(f * ns[j], cell), R0), "orthonormal", con, lambda: f"functions {j} and {i} are not orthogonal")
        vs = [sym("u"), sym("v"), sym("w")][:d]
        mp = {sid(p): q for p, q in zip(AXES, vs)}
        if order <= 2:
            for kind in ("ortho", "normal"):
                other = lists(s, s.call(F(s, kind + "_vars"), cell, order, derivs, s.lst(*vs)))
                R.ob(all(len(a) == len(b) and all(rsame(rsubs(p, mp), q) for p, q in zip(a, b)) for a, b in zip(tables[kind], other)),
                     "in other variables", f"{kind}: {con}", "the functions in other variables are not the renamed ones")
    except Dead:
        R.bad("orthonormal", con, f"raises {where(s)}")
    except (Unknown, Budget, ZeroDivisionError) as e:
        R.unknown("orthonormal", con, repr(e))
    R.absorb(s)


def lobatto(R):
    s = prog(R)

    def dot(f, g, cell):
        return cint(f * g, cell)
    for n in orders(R, 1, 5):
        con = f"interval, order {n}"

        def go():
            b = lists(s, s.call(F(s, "lob"), "interval", n, True))
            spans(R, "Lobatto basis: " + con, b, [mono(i) for i in range(n + 1)])
            R.ob(data_eq(lists(s, s.call(F(s, "lob_default"), "interval", n)), b), "Lobatto basis", con, "endpoints are not included by default")
            inner = lists(s, s.call(F(s, "lob"), "interval", n, False))
            R.ob(data_eq(inner, b[2:]), "Lobatto basis", con, "the interior functions are not those after the first two")
            for f in inner:
                for p in (R0, R1):
                    R.ob(same_const(rsubs(f, {sid(x): p}), R0), "Lobatto basis", con, "an interior function does not vanish at an end point")
            # derivatives are orthonormal
            ds = [rdiff(f, sid(x)) for f in b]
            for i in range(1, len(b)):
                for j in range(1, i + 1):
                    R.ob(same_const(dot(ds[i], ds[j], "interval"), R1 if i == j else R0), "Lobatto basis", con, "the derivatives are not orthonormal")
            q = lists(s, s.call(F(s, "lobdual"), "interval", n, True))
            R.ob(data_eq(lists(s, s.call(F(s, "lobdual_default"), "interval", n)), q), "Lobatto dual basis", con, "endpoints are not included by default")
            for i, f in enumerate(b):
                for j, g in enumerate(q):
                    R.ob(same_const(dot(f, g, "interval"), R1 if i == j else R0), "Lobatto dual basis", con, f"functions {i} and {j}")
            qi = lists(s, s.call(F(s, "lobdual"), "interval", n, False))
            R.ob(data_eq(qi, q[2:]), "Lobatto dual basis", con, "the interior functions are not those after the first two")
            for cell, m in (("quadrilateral", 2), ("hexahedron", 3)):
                if m == 3 and n > 3:
                    continue
                for ends in (True, False):
                    for fn, one in (("lob", b if ends else inner), ("lobdual", q if ends else qi)):
                        got = lists(s, s.call(F(s, fn), cell, n, ends))
                        to = lambda f, v: rsubs(f, {sid(x): v})
                        want = []
                        for k in product(range(len(one)), repeat=m):
                            w = R1
                            for i, v in zip(k, AXES):
                                w = w * to(one[i], v)
                            want.append(w)
                        R.ob(len(got) == len(want) and all(rsame(a, c) for a, c in zip(got, want)), "Lobatto basis of a tensor product cell",
                             f"{fn}: {cell}, order {n}, endpoints {ends}", "not the products of the interval functions")
        R.guard("Lobatto basis", con, go, sess=s)
    # dual bases of any set
    cases = [("interval", [R1, x * x]), ("triangle", [R1 + x, y, x * y]), ("quadrilateral", [x, R1 - y, x * y * y]), ("tetrahedron", [R1, x + z, y * z]),
             ("hexahedron", [R1, x * y * z]), ("prism", [x, z, R1 + y])]
    for cell, l in cases:
        def go():
            q = lists(s, s.call(F(s, "dual"), cell, s.lst(*[s.scalar(f) for f in l])))
            R.ob(len(q) == len(l), "dual basis", cell, f"{len(q)} functions for {len(l)}")
            spans(R, f"dual basis on a {cell}", q, l)
            for i, f in enumerate(l):
                for j, g in enumerate(q):
                    R.ob(same_const(dot(f, g, cell), R1 if i == j else R0), "dual basis", cell, f"functions {i} and {j}")
        R.guard("dual basis", cell, go, sess=s)
    R.absorb(s)


# rule: (numbers of points that must be there, exact degree, fixed points)
RULES = {"equispaced": (range(2, 9), lambda n: 1), "lobatto": (range(2, 8), lambda n: 2 * n - 3), "gll": (range(2, 8), lambda n: 2 * n - 3),
         "radau": (range(2, 4), lambda n: 2 * n - 2), "legendre": (range(1, 4), lambda n: 2 * n - 1)}


def quadrature(R):
    s = prog(R)
    for name, (ns, deg) in RULES.items():
        for n in ns:
            con = f"{name} rule with {n} points"

            def go():
                pts, ws = lists(s, s.call(F(s, "rule"), name, n))
                pts = [p if isinstance(p, Rat) else Rat.const(p) for p in pts]
                ws = [w if isinstance(w, Rat) else Rat.const(w) for w in ws]
                R.ob(len(pts) == len(ws) == n, "number of points", con, f"{len(pts)} points, {len(ws)} weights")
                P = [dec(p) for p in pts]
                R.ob(all(-Decimal(10) ** -60 < p < 1 + Decimal(10) ** -60 for p in P), "points in the interval", con, "a point outside the interval")
                R.ob(all(a < b for a, b in zip(P, P[1:])), "points in order", con, "the points are not increasing")
                for k in range(deg(n) + 1):
                    v = sum((w * pw(p, k) for w, p in zip(ws, pts)), R0)
                    R.ob(abs(dec(v) - Decimal(1) / (k + 1)) < Decimal(10) ** -60, "exactness", con, f"x^{k} is not integrated exactly")
                if name in ("equispaced", "lobatto", "gll", "radau"):
                    R.ob(P[0] == 0, "end points", con, "0 is not a point")
                if name in ("equispaced", "lobatto", "gll"):
                    R.ob(P[-1] == 1, "end points", con, "1 is not a point")
                if name == "equispaced":
                    R.ob(all(abs(p - Decimal(i) / (n - 1)) < Decimal(10) ** -60 for i, p in enumerate(P)), "equispaced", con, "the points are not equispaced")
                if name != "gll":
                    other = lists(s, s.call(F(s, "direct_rule"), name, n))
                    R.ob(data_eq(other, lists(s, s.call(F(s, "rule"), name, n))), "rule by name", con, "another rule")
            R.guard("exactness", con, go, sess=s)
    for name, n in (("radau", 12), ("legendre", 14), ("lobatto", 15), ("gll", 15)):
        def go():
            """Either refused or right."""
            try:
                pts, ws = lists(s, s.call(F(s, "rule"), name, n))
            except Dead:
                R.ok("unsupported rule", f"{name} rule with {n} points")
                return
            v = sum((w * pw(p, RULES[name][1](n)) for w, p in zip(ws, pts)), R0)
            R.ob(abs(dec(v) - Decimal(1) / (RULES[name][1](n) + 1)) < Decimal(10) ** -60, "unsupported rule", f"{name} rule with {n} points", "neither refused nor exact")
        R.guard("unsupported rule", name, go, sess=s)
    refuses(R, s, "unsupported rule", "unknown rule", lambda: s.call(F(s, "rule"), "simpson", 3))
    R.absorb(s)


def pw(p, k):
    r = R1
    for _ in range(k):
        r = r * p
    return r


def _part(R, job):
    {"sets": sets, "lobatto": lobatto, "quadrature": quadrature}[job](R) if isinstance(job, str) else ortho(R, job)


def run(R):
    R.floor = 200
    R.explanation = ("Abstract interpretation of the polynomial and quadrature modules for constant orders; the resulting terms are compared with the "
                     "definitions: spans by rank of coefficient rows (modulo a prime), inner products by exact integration of terms, derivatives term by "
                     "term, algebraic numbers to 60 digits.")
    jobs = ["sets", "lobatto", "quadrature"]
    for c, n in ORTHO.items():
        for o in range(n + (2 if R.thorough else 1)):
            jobs.append((c, o, 0))
            if o <= max(1, n - 1):
                jobs.append((c, o, 1))
            if o <= 2:
                jobs.append((c, o, 2))
            if c in ("interval", "triangle", "pyramid", "tetrahedron") and o <= 2:
                jobs.append((c, o, 3))
    jobs = jobs[:3] + sorted(jobs[3:], key=lambda j: -(j[1] + 1) ** DIM[j[0]] * (j[2] + 1))
    run_deadline(R, _part, jobs, 900 if R.thorough else 100)
