"""Basis functions are dual to the DOFs; tables, entity lists and enriched elements follow from them."""
from checks.sweep import *
from fractions import Fraction as Fr
from sa.query import X, subs_pt
from checks.common import eq, true_, refuses, fvec, fmat

STUB = '''
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement
from symfem.functionals import PointEvaluation, DotPointEvaluation, PointInnerProduct
class Stub(CiarletElement):
    names = ["stub element"]
    references = ["triangle", "quadrilateral"]
    min_order = 0
class Uncached(Stub):
    cache = False
class Direct(DirectElement):
    names = ["stub direct"]
    references = ["triangle"]
def points_dofs(ref, pts): return [PointEvaluation(ref, p, entity=(0, i)) for i, p in enumerate(pts)]
def dot_dofs(ref, pts, ds): return [DotPointEvaluation(ref, p, d, entity=(0, i)) for i, (p, d) in enumerate(zip(pts, ds))]
def inner_dofs(ref, pts, l, r): return [PointInnerProduct(ref, p, a, b, entity=(0, i)) for i, (p, a, b) in enumerate(zip(pts, l, r))]
def stub(ref, order, fs, dofs, dd, rd, rs): return Stub(ref, order, fs, dofs, dd, rd, rs)
def uncached(ref, order, fs, dofs, dd, rd, rs): return Uncached(ref, order, fs, dofs, dd, rd, rs)
def direct(ref, order, fs, ents, dd, rd, rs): return Direct(ref, order, fs, ents, dd, rd, rs)
def enriched(es): return EnrichedElement(es)
def basis(e): return [f for f in e.get_basis_functions()]
def same_twice(e):
    a = e.get_basis_functions()
    b = e.get_basis_functions()
    return len(a) == len(b) and all(i == j for i, j in zip(a, b))
def nth(e, n): return e.get_basis_function(n)
def on(d, f): return d.eval_symbolic(f).as_sympy()
def count(e): return e.space_dim
def dual(e, inverse, caching): return e.get_dual_matrix(inverse=inverse, caching=caching)
def dual_default(e): return e.get_dual_matrix()
def entry(m, i, j): return m[i, j]
def tab(e, pts, order): return e.tabulate_basis(pts, order)
def tab_default(e, pts): return e.tabulate_basis(pts)
def tab_float(e, pts): return e.tabulate_basis_float(pts)
def ents(e): return e.dof_entities()
def entity_dofs(e, d, n): return e.entity_dofs(d, n)
'''


def prog(R):
    s = session(R)
    s.stub = s.probe(STUB, "stub_probe_")
    return s


def S(s, n):
    return s.attr(s.stub, n)


PTS = [(0, 0), (1, 0), (0, 1)]


def elements(s, maker="stub"):
    """(label, element, DOFs, function data) of stub elements with opaque functions."""
    ref = s.ref("triangle")
    N = None

    def val(n, make, kind):
        if kind == "scalar":
            fs = [s.fn_atom(f"f{i}", 2) for i in range(n)]
            objs = [s.scalar(f) for f in fs]
            dofs = s.call(S(s, "points_dofs"), ref, s.lst(*[s.tup(*p) for p in PTS[:n]]))
            rd, rs = 1, N
        elif kind == "vector":
            fs = [fvec(s, f"v{i}", 2, 2) for i in range(n)]
            objs = [s.vector(f) for f in fs]
            dofs = s.call(S(s, "dot_dofs"), ref, s.lst(*[s.tup(*p) for p in PTS[:n]]), s.lst(*[s.tup(*p) for p in ((1, 2), (3, -1), (2, 5))[:n]]))
            rd, rs = 2, N
        else:
            fs = [fmat(s, f"k{i}", 2, 2, 2) for i in range(n)]
            objs = [s.matrix(f) for f in fs]
            dofs = s.call(S(s, "inner_dofs"), ref, s.lst(*[s.tup(*p) for p in PTS[:n]]), s.lst(*[s.tup(1, 2), s.tup(3, 1)][:n]), s.lst(*[s.tup(2, 1), s.tup(1, -1)][:n]))
            rd, rs = 4, s.tup(2, 2)
        e = s.call(S(s, make), ref, n - 1, s.lst(*objs), dofs, 2, rd, rs)
        return f"{kind} element with {n} opaque functions", e, seq(s, dofs), fs
    return [val(1, maker, "scalar"), val(2, maker, "scalar"), val(3, maker, "scalar"), val(1, maker, "vector"), val(2, maker, "vector"),
            val(1, maker, "matrix"), val(2, maker, "matrix")]


def delta(R, s, lab, e, dofs, rule="dual basis"):
    try:
        fs = seq(s, s.call(S(s, "basis"), e))
    except Dead:
        if exc_name(s) == "NonInvertibleMatrixError":
            R.note(f"{lab}: no dual basis")      # decided by C11
            return
        raise
    R.ob(len(fs) == len(dofs), "as many basis functions as DOFs", lab, f"{len(fs)} basis functions for {len(dofs)} DOFs")
    for i, f in enumerate(fs):
        for j, d in enumerate(dofs):
            eq(R, s, rule, f"{lab}: DOF {j} of basis function {i}", lambda: s.call(S(s, "on"), d, f), R1 if i == j else R0)


def stub_duality(R):
    s = prog(R)
    for maker in ("stub", "uncached"):
        for lab, e, dofs, fs in elements(s, maker):
            R.guard("dual basis", lab, lambda: delta(R, s, f"{lab} ({maker})", e, dofs), sess=s)
            true_(R, s, "basis is stable", f"{lab} ({maker})", lambda: s.call(S(s, "same_twice"), e))
            eq(R, s, "space dimension", f"{lab} ({maker})", lambda: s.call(S(s, "count"), e), Rat.const(len(dofs)))
    # the dual matrix itself
    for lab, e, dofs, fs in elements(s):
        def matrix():
            n = len(dofs)
            polys = seq(s, s.call(P(s, "polys"), e))
            want = [[s.data(s.call(S(s, "on"), d, p)) for d in dofs] for p in polys]
            for caching in (True, False):
                m = s.call(S(s, "dual"), e, False, caching)
                inv = s.call(S(s, "dual"), e, True, caching)
                for i in range(n):
                    for j in range(n):
                        eq(R, s, "dual matrix", f"{lab}: entry {i}, {j} (caching={caching})", lambda: s.call(S(s, "entry"), m, i, j), want[i][j])
                        got = sum((s.data(s.call(S(s, "entry"), inv, i, k)) * want[k][j] for k in range(n)), R0)
                        R.ob(rsame(got, R1 if i == j else R0), "inverse dual matrix", f"{lab}: entry {i}, {j} (caching={caching})",
                             f"the matrix times the inverse has {got!r}"[:300])
            m = s.call(S(s, "dual_default"), e)
            eq(R, s, "dual matrix", f"{lab}: default", lambda: s.call(S(s, "entry"), m, 0, n - 1), want[0][n - 1])
        R.guard("dual matrix", lab, matrix, sess=s)
    R.absorb(s)


def tables(R):
    s = prog(R)
    pts = [(sym("p0"), sym("q0")), (sym("p1"), sym("q1"))]
    P2 = s.lst(*[s.tup(*p) for p in pts])
    ref = s.ref("triangle")

    def at(n, p):
        return s.fn_atom(n, 2, p)

    for kind in ("scalar", "vector"):
        for make in ("direct",):
            if kind == "scalar":
                fs = [s.scalar(s.fn_atom(f"f{i}", 2)) for i in range(3)]
                vals = [[at(f"f{i}", p) for i in range(3)] for p in pts]
                rd = 1
            else:
                fs = [s.vector(fvec(s, f"v{i}", 2, 2)) for i in range(3)]
                vals = [[[at(f"v{i}{c}", p) for c in range(2)] for i in range(3)] for p in pts]
                rd = 2
            e = s.call(S(s, make), ref, 1, s.lst(*fs), s.lst(*[s.tup(0, i) for i in range(3)]), 2, rd, None)
            con = f"tabulate_basis of a {kind} element"
            if kind == "scalar":
                for o in ("xyzxyz", "xxyyzz", "xyz,xyz", "xx,yy,zz"):
                    eq(R, s, "table", f"{con}, order {o}", lambda: s.call(S(s, "tab"), e, P2, o), vals)
                eq(R, s, "table", f"{con}", lambda: s.call(S(s, "tab_default"), e, P2), vals)
            else:
                want = {"xyz,xyz": vals,
                        "xyzxyz": [[c for f in row for c in f] for row in vals],
                        "xxyyzz": [[f[c] for c in range(2) for f in row] for row in vals],
                        "xx,yy,zz": [[[f[c] for f in row] for c in range(2)] for row in vals]}
                for o, w in want.items():
                    eq(R, s, "table", f"{con}, order {o}", lambda: s.call(S(s, "tab"), e, P2, o), w)
                eq(R, s, "table", f"{con}", lambda: s.call(S(s, "tab_default"), e, P2), want["xyzxyz"])
                refuses(R, s, "unknown table order", con, lambda: s.call(S(s, "tab"), e, P2, "zyx"))
            eq(R, s, "floating point table", f"{con}", lambda: s.call(S(s, "tab_float"), e, P2), vals)
    R.absorb(s)


def concrete_tables(R):
    """Tables of given polynomials in three dimensions at given points, exactly and as floats."""
    s = prog(R)
    x, y, z = X(3)
    k = lambda a, b=1: Rat.const(Fr(a, b))
    fs = [x * k(1, 2) + y * z * k(3, 4) - k(5, 8), k(1, 4), x * x * k(-7, 2) + y * k(9, 4) + z, x * y * z * k(1, 16) + z * z]
    pts = [(k(1, 2), k(1, 4), k(1, 8)), (k(0), k(3, 4), k(1, 4)), (k(1), k(-3, 2), k(5))]
    P3 = s.lst(*[s.tup(*p) for p in pts])
    ref = s.ref("tetrahedron")
    vals = [[subs_pt(f, X(3), p) for f in fs] for p in pts]
    e = s.call(S(s, "direct"), ref, 1, s.lst(*[s.scalar(f) for f in fs]), s.lst(*[s.tup(0, i) for i in range(4)]), 3, 1, None)
    eq(R, s, "table", "tabulate_basis of given polynomials", lambda: s.call(S(s, "tab_default"), e, P3), vals)
    eq(R, s, "floating point table", "given polynomials", lambda: s.call(S(s, "tab_float"), e, P3), vals)
    eq(R, s, "floating point table", "given polynomials, asked twice", lambda: s.call(S(s, "tab_float"), e, P3), vals)
    vs = [[fs[0], fs[1], fs[2]], [fs[3], fs[0] * k(2), fs[1] + x]]
    w = s.call(S(s, "direct"), ref, 1, s.lst(*[s.vector(v) for v in vs]), s.lst(*[s.tup(0, i) for i in range(2)]), 3, 3, None)
    want = [[[subs_pt(c, X(3), p) for c in v] for v in vs] for p in pts]
    eq(R, s, "floating point table", "given vectors of polynomials", lambda: s.call(S(s, "tab_float"), w, P3), want)
    eq(R, s, "table", "given vectors of polynomials", lambda: s.call(S(s, "tab"), w, P3, "xyz,xyz"), want)
    R.absorb(s)


def cached(R):
    """The dual matrix and its inverse come back from the cache as themselves, whichever was asked for first."""
    from checks.c19 import cache_session, KEYS, known as known_
    for order in (("dual_kw", "inv"), ("inv", "dual_kw")):
        con = f"{' and then '.join({'inv': 'the inverse', 'dual_kw': 'the matrix'}[o] for o in order)}, with the cache"
        def go():
            s = cache_session(R, load="symfem")
            s.it.structural = True
            s.stub = s.probe(KEYS, "key_probe_")
            tri = s.ref("triangle")
            fs = [s.scalar(s.fn_atom(f"f{i}", 2)) for i in range(2)]
            dofs = s.call(S(s, "points_dofs"), tri, s.lst(s.tup(0, 0), s.tup(1, 0)))
            e = s.call(S(s, "stub"), tri, 1, s.lst(*fs), dofs, 2, 1, None)
            for o in order + order:
                v = s.call(S(s, o), e)
                w = s.call(S(s, {"inv": "inv_plainly", "dual_kw": "plainly"}[o]), e)
                known_(s)
                eq(R, s, "cached matrix", con, lambda: v, s.data(w))
            R.absorb(s)
        R.guard("cached matrix", con, go)


def composition(R):
    """Direct elements list their functions by entity; enriched elements concatenate their subelements."""
    s = prog(R)
    ref = s.ref("triangle")
    ea = [(0, 0), (0, 1), (1, 2), (2, 0), (0, 1)]
    fa = [s.fn_atom(f"f{i}", 2) for i in range(5)]
    a = s.call(S(s, "direct"), ref, 1, s.lst(*[s.scalar(f) for f in fa]), s.lst(*[s.tup(*x) for x in ea]), 2, 1, None)
    lab, b, dofs, fb = elements(s)[2]
    eb = [(0, 0), (0, 1), (0, 2)]
    c = s.call(S(s, "direct"), ref, 1, s.lst(s.scalar(s.fn_atom("g", 2))), s.lst(s.tup(1, 0)), 2, 1, None)
    phib = [s.data(f) for f in seq(s, s.call(S(s, "basis"), b))]
    g = [s.fn_atom("g", 2)]
    cases = [("direct element", a, fa, ea), ("enriched element (direct, Ciarlet, direct)", s.call(S(s, "enriched"), s.lst(a, b, c)), fa + phib + g, ea + eb + [(1, 0)]),
             ("enriched element (Ciarlet, direct)", s.call(S(s, "enriched"), s.lst(b, a)), phib + fa, eb + ea),
             ("enriched element of an enriched element", s.call(S(s, "enriched"), s.lst(s.call(S(s, "enriched"), s.lst(c, b)), a)), g + phib + fa, [(1, 0)] + eb + ea)]
    for con, e, fs, ents in cases:
        eq(R, s, "basis", con, lambda: s.call(S(s, "basis"), e), fs)
        true_(R, s, "basis is stable", con, lambda: s.call(S(s, "same_twice"), e))
        eq(R, s, "space dimension", con, lambda: s.call(S(s, "count"), e), Rat.const(len(fs)))
        eq(R, s, "entities", con, lambda: s.call(S(s, "ents"), e), [[Rat.const(i) for i in x] for x in ents])
        for d in range(3):
            for n in range((3, 3, 1)[d]):
                want = [Rat.const(i) for i, x in enumerate(ents) if x == (d, n)]
                eq(R, s, "entity DOFs", f"{con}: entity ({d}, {n})", lambda: s.call(S(s, "entity_dofs"), e, d, n), want)
        for n in range(len(fs)):
            eq(R, s, "nth basis function", f"{con}: {n}", lambda: s.meth(s.call(S(s, "nth"), e, n), "get_function"), fs[n])
    # elements that do not fit together
    v = s.call(S(s, "direct"), ref, 1, s.lst(s.vector(fvec(s, "w", 2, 2))), s.lst(s.tup(1, 0)), 2, 2, None)
    q = s.call(S(s, "direct"), s.ref("quadrilateral"), 1, s.lst(s.scalar(s.fn_atom("g", 2))), s.lst(s.tup(1, 0)), 2, 1, None)
    refuses(R, s, "mismatched subelements", "scalar and vector element", lambda: s.call(S(s, "enriched"), s.lst(a, v)))
    refuses(R, s, "mismatched subelements", "elements on different cells", lambda: s.call(S(s, "enriched"), s.lst(a, q)))
    R.absorb(s)


def real(R, item):
    """Duality of the basis that is actually returned by small elements."""
    s = shared(R, 15_000_000)
    if not hasattr(s, "stub"):
        s.stub = s.probe(STUB, "stub_probe_")
    lab = label(item)
    try:
        e = create(s, item)
        if not flag(s, "is_ciarlet", e):
            return
        dofs = seq(s, s.call(P(s, "dofs"), e))
        if len(dofs) > (16 if R.thorough else 9):
            return
    except Dead:
        R.note(f"{lab}: not created")
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as ex_:
        R.unknown("dual basis", lab, repr(ex_))
        R.absorb(s)
        return
    R.guard("dual basis", lab, lambda: delta(R, s, lab, e, dofs), sess=s)
    R.absorb(s)


def run(R):
    R.floor = 150
    R.explanation = ("Abstract interpretation of the element classes with opaque functions: the DOFs applied to the basis functions give the "
                     "identity matrix as terms, tables and entity lists are compared entry by entry; then the same on the small registered elements.")
    for f in (stub_duality, tables, concrete_tables, cached, composition):
        f(R)
    s = session(R)
    items = sweep_items(s, 2 if R.thorough else 1, 0)
    run_deadline(R, real, items, 900 if R.thorough else 90)
