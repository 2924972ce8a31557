"""Mapping formulas: every push-forward / pull-back equals its textbook definition."""
from sa.query import *

P = "symfem.mappings."


def spec(name, f, mp, inv, xs, sub, gdim):
    """Reference formula in the term domain. f: components; mp, inv: component lists."""
    if gdim != len(xs):
        J = jac(mp, xs)
        c = [J[1][0] * J[2][1] - J[2][0] * J[1][1], J[2][0] * J[0][1] - J[0][0] * J[2][1],
             J[0][0] * J[1][1] - J[1][0] * J[0][1]]
        vol = rsqrt(sum((q * q for q in c), R0))
        pt = {sid(x): g for x, g in zip(xs, inv)}
        S = (lambda r: rsubs(r, pt)) if sub else (lambda r: r)
        if name == "l2":
            return S(f) / vol
        if name == "contravariant":
            return [q / vol for q in matvec(J, [S(g) for g in f])]
        deep = lambda q: S(q) if isinstance(q, Rat) else [deep(z) for z in q]
        return deep(f)
    pt = {sid(x): g for x, g in zip(xs, inv)}
    S = (lambda r: rsubs(r, pt)) if sub else (lambda r: r)
    J = jac(mp, xs)
    K = jac(inv, xs)
    base = name
    if base in ("identity", "identity_inverse_transpose"):
        deep = lambda c: S(c) if isinstance(c, Rat) else [deep(q) for q in c]
        return deep(f)
    if base == "l2":
        return S(f) / rabs(det(J))
    if base == "l2_inverse_transpose":
        return S(f) * rabs(det(J))
    if base == "covariant":
        return matvec(transpose(K), [S(c) for c in f])
    if base == "contravariant":
        d = det(J)
        return [c / d for c in matvec(J, [S(c) for c in f])]
    if base == "double_covariant":
        F = [[S(c) for c in r] for r in f]
        return matmul(matmul(transpose(K), F), K)
    if base == "double_contravariant":
        F = [[S(c) for c in r] for r in f]
        d = det(J)
        return [[c / (d * d) for c in r] for r in matmul(matmul(J, F), transpose(J))]
    if base == "covariant_inverse_transpose":
        return matvec(J, [S(c) for c in f])
    if base == "contravariant_inverse_transpose":
        d = det(K)
        return [c / d for c in matvec(transpose(K), [S(c) for c in f])]
    raise KeyError(name)


KINDS = {"identity": ("s", "v", "m"), "identity_inverse_transpose": ("s", "v", "m"), "l2": ("s",),
         "l2_inverse_transpose": ("s",), "covariant": ("v",), "contravariant": ("v",), "double_covariant": ("m",),
         "double_contravariant": ("m",), "covariant_inverse_transpose": ("v",),
         "contravariant_inverse_transpose": ("v",)}
INVERSES = ("identity", "l2", "covariant", "contravariant", "double_covariant", "double_contravariant")


def affine(n, gdim):
    """x -> b + A x with free entries, and its (generalised) inverse."""
    A = [[sym(f"a{i}{j}") for j in range(n)] for i in range(gdim)]
    if n == 3:
        c = Rat.const
        A = [[sym("a00"), c(2), c(0)], [c(0), c(1), c(3)], [c(5), c(0), sym("a22")]]
    b = [sym(f"b{i}") for i in range(gdim)]
    xs = X(max(n, gdim))
    fwd = [b[i] + sum((A[i][j] * xs[j] for j in range(n)), R0) for i in range(gdim)]
    d = [xs[i] - b[i] for i in range(gdim)]
    if n == gdim:
        inv = solve(A, d)
    else:
        At = transpose(A)
        inv = solve(matmul(At, A), matvec(At, d))
    return fwd, inv


def solve(A, d):
    n = len(A)
    D = det(A)
    return [det([[d[i] if k == j else A[i][k] for k in range(n)] for i in range(n)]) / D for j in range(n)]


def data_for(s, kind, n, raw):
    if kind == "s":
        f = s.fn_atom("f", n)
        return f, (s.num(f) if raw else s.scalar(f))
    if kind == "v":
        f = [s.fn_atom(f"f{i}", n) for i in range(n)]
        return f, (s.tup(*f) if raw else s.vector(f))
    f = [[s.fn_atom(f"f{i}{j}", n) for j in range(n)] for i in range(n)]
    return f, (s.tup(*[tuple(r) for r in f]) if raw else s.matrix(f))


def one(R, item):
    n, gdim, name = item
    s = Session(R.root, kinds=())
    xs = X(n)
    inverse = name.endswith("_inverse")
    b = name[:-8] if inverse else name
    F = s.get(P + name)
    for kind in KINDS[b]:
        for sub in (True, False):
            for raw in (False, True):
                con = f"{P}{name}({'raw ' if raw else ''}{kind}, dim {n}{'' if n == gdim else ' in ' + str(gdim)}, substitute={sub})"
                kw = {} if sub else {"substitute": False}

                def attempt(fwd, bwd):
                    f, fv = data_for(s, kind, n, raw)
                    got = s.data(s.call(F, fv, s.lst(*fwd), s.lst(*bwd), **kw))
                    if has_top(got):
                        raise Unknown("imprecise")
                    want = spec(b, f, bwd if inverse else fwd, fwd if inverse else bwd, xs, sub, gdim)
                    return [a for a in each_alt(got) if not data_eq(a, want)]

                def go():
                    # first with opaque maps; if the term differs, with a general affine map and its inverse
                    bad = None
                    if n == gdim:
                        bad = attempt([s.fn_atom(f"m{i}", n) for i in range(n)], [s.fn_atom(f"g{i}", n) for i in range(n)])
                    if bad is None or bad:
                        bad = attempt(*affine(n, gdim))
                    R.ob(not bad, "formula", con, lambda: f"computes {bad[0]!r}"[:500])
                R.guard("formula", con, go, sess=s)
    R.absorb(s)


def lookup(R):
    s = Session(R.root)
    gm = s.get(P + "get_mapping")
    for b in INVERSES:
        for inv in (False, True):
            for tr in (False, True):
                want = b + ("_inverse" if inv else "") + ("_transpose" if tr else "")
                con = f"{P}get_mapping({b!r}, inverse={inv}, transpose={tr})"
                try:
                    exp = s.get(P + want)
                except AnchorLost:
                    exp = None
                try:
                    r = s.call(gm, b, inverse=inv, transpose=tr)
                except Dead:
                    r = None
                if exp is None:
                    R.ob(r is None, "lookup-rejects", con, f"returns {r!r} for a mapping that does not exist")
                elif isinstance(r, (Top, Phi)):
                    R.unknown("lookup", con, r)
                else:
                    R.ob(r is not None and s.it.same(r, exp), "lookup", con, f"returns {r!r}, expected {want}")
    try:
        r = s.call(gm, "no such map")
        R.ob(isinstance(r, Top), "lookup-rejects", f"{P}get_mapping('no such map')", f"returns {r!r}")
    except Dead:
        R.ok("lookup-rejects", f"{P}get_mapping('no such map')")
    R.absorb(s)


def run(R):
    R.floor = 90
    R.explanation = ("Global value numbering over a Herbrand/rational-function term domain: each mapping is evaluated "
                     "abstractly for opaque map, inverse map and function components (dimensions 1-3, scalar/vector/"
                     "matrix, function objects and raw tuples, substitute on/off) and the resulting term is compared "
                     "with the textbook formula; mapping lookup by name is resolved statically.")
    from sa.report import parallel
    items = [(n, n, name) for n in (3, 2, 1) for name in list(KINDS) + [i + "_inverse" for i in INVERSES]]
    items += [(2, 3, name) for name in ("identity", "l2", "contravariant")]
    parallel(R, one, items)
    lookup(R)
