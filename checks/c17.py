"""map_to_cell gives the push-forwards of the basis functions by the mappings of their DOFs."""
from checks.sweep import *
from checks.common import eq, true_, refuses, fvec, fmat
from checks import c04, c16

STUB = '''
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement
from symfem.functionals import PointEvaluation, DotPointEvaluation, PointInnerProduct
from symfem.piecewise_functions import PiecewiseFunction
from symfem.mappings import MappingNotImplemented
class Stub(CiarletElement):
    names = ["stub element"]
    references = ["triangle", "quadrilateral", "interval", "tetrahedron"]
    min_order = 0
    cache = False
class NoMap(PointEvaluation):
    def perform_mapping(self, fs, map, inverse_map): raise MappingNotImplemented()
class Again(CiarletElement):
    names = ["stub element that is made again"]
    references = ["triangle"]
    min_order = 0
    cache = False
    def __init__(self, reference, order, a="left", b=2):
        self.a = a
        self.b = b
        self.at = reference.vertices
        dofs = [PointEvaluation(reference, v, entity=(0, i)) for i, v in enumerate(reference.vertices[:2])]
        dofs.append(NoMap(reference, reference.vertices[2], entity=(0, 2)))
        super().__init__(reference, order, made(reference, order, a, b), dofs, 2, 1)
    def init_kwargs(self): return {"a": self.a, "b": self.b}
def again(ref, order, a, b): return Again(ref, order, a, b)
def again_default(ref, order): return Again(ref, order)
def pdof(ref, p, ent, m): return PointEvaluation(ref, p, entity=ent, mapping=m)
def ddof(ref, p, d, ent, m): return DotPointEvaluation(ref, p, d, entity=ent, mapping=m)
def idof(ref, p, l, r, ent, m): return PointInnerProduct(ref, p, l, r, entity=ent, mapping=m)
def stub(ref, order, fs, dofs, dd, rd, rs): return Stub(ref, order, fs, dofs, dd, rd, rs)
def enriched(es): return EnrichedElement(es)
def mapped(e, vs): return [i for i in e.map_to_cell(vs)]
def mapped_basis(e, vs, b): return [i for i in e.map_to_cell(vs, b)]
def mapped_maps(e, vs, b, f, i): return [i for i in e.map_to_cell(vs, b, f, i)]
def mapped_kw(e, vs, f, i): return [i for i in e.map_to_cell(vs, forward_map=f, inverse_map=i)]
def basis(e): return [f for f in e.get_basis_functions()]
def pw(cells, fs, tdim): return PiecewiseFunction({c: f for c, f in zip(cells, fs)}, tdim)
def declines(d, f, i): return d.perform_mapping([], f, i)
def mappings_of(e): return [d.mapping for d in e.dofs]
def continuity(e): return e.continuity
def on(d, f): return d.eval_symbolic(f).as_sympy()
def made(ref, order, a, b): return [1, 2, 3]
'''


def S(s, n):
    return s.attr(s.stub17, n)


def prog(R):
    s = session(R)
    s.stub17 = s.probe(STUB, "stub17_probe_")
    return s


def tri(prefix="v", gdim=2):
    return [[sym(f"{prefix}{i}{j}") for j in range(gdim)] for i in range(3)]


def affine_maps(V, n):
    """Forward and inverse map of the simplex or parallelepiped with first vertices V (v0, then one per axis)."""
    g = len(V[0])
    A = [[V[j + 1][i] - V[0][i] for j in range(n)] for i in range(g)]
    xs = X(g)
    fwd = [V[0][i] + sum((A[i][j] * xs[j] for j in range(n)), R0) for i in range(g)]
    d = [xs[i] - V[0][i] for i in range(g)]
    return fwd, c04.solve(A, d)


def verts(s, V):
    return s.tup(*[s.tup(*v) for v in V])


NAMES = {"scalar": ("identity", "l2"), "vector": ("identity", "covariant", "contravariant"),
         "matrix": ("identity", "double_covariant", "double_contravariant")}
ENTS = [(2, 0), (0, 1), (1, 2), (0, 1), (1, 0), (2, 0)]
PTS = [(0, 0), (1, 0), (0, 1)]


def stubs(s, ref, n=2):
    """Elements whose DOFs have different mappings and entities in no particular order: (label, element, function data, function objects, mappings)."""
    out = []
    pts = [tuple([0] * n), tuple([1] + [0] * (n - 1))]
    for kind, names in NAMES.items():
        ms = [names[i % len(names)] for i in (1, 0, 2, 1, 2, 0)]
        ents = ENTS if n == 2 else [(1, 0), (0, 1), (0, 0), (1, 0), (0, 1), (0, 0)]
        if kind == "scalar":
            fs = [s.fn_atom(f"f{i}", n) for i in range(6)]
            objs = [s.scalar(f) for f in fs]
            dofs = [s.call(S(s, "pdof"), ref, s.tup(*pts[i % 2]), s.tup(*ents[i]), m) for i, m in enumerate(ms)]
            rd, rs = 1, None
        elif kind == "vector":
            if n == 1:
                continue
            fs = [fvec(s, f"v{i}", n, n) for i in range(6)]
            objs = [s.vector(f) for f in fs]
            dofs = [s.call(S(s, "ddof"), ref, s.tup(*pts[i % 2]), s.tup(*range(1, n + 1)), s.tup(*ents[i]), m) for i, m in enumerate(ms)]
            rd, rs = n, None
        else:
            if n == 1:
                continue
            fs = [fmat(s, f"k{i}", n, n, n) for i in range(6)]
            objs = [s.matrix(f) for f in fs]
            one = s.tup(*range(1, n + 1))
            dofs = [s.call(S(s, "idof"), ref, s.tup(*pts[i % 2]), one, one, s.tup(*ents[i]), m) for i, m in enumerate(ms)]
            rd, rs = n * n, s.tup(n, n)
        e = s.call(S(s, "stub"), ref, 1, s.lst(*objs), s.lst(*dofs), n, rd, rs)
        out.append((f"{kind} element with mappings {', '.join(ms)}", e, fs, objs, ms))
    return out


def pushed(R):
    s = prog(R)
    for cell, n in (("triangle", 2), ("quadrilateral", 2), ("interval", 1)):
        ref = s.ref(cell)
        V = [[sym(f"v{i}{j}") for j in range(n)] for i in range(n + 1)]
        fwd, inv = affine_maps(V, n)
        W = V + [[V[1][j] + V[2][j] - V[0][j] for j in range(n)]] if cell == "quadrilateral" else V
        C = [[Rat.const(c) for c in r] for r in ([[2, 1], [5, 3], [1, 4]] if n == 2 else [[3], [1]])]
        CW = C + [[C[1][j] + C[2][j] - C[0][j] for j in range(n)]] if cell == "quadrilateral" else C
        xs = X(n)
        of, oi = [s.fn_atom(f"m{i}", n) for i in range(n)], [s.fn_atom(f"g{i}", n) for i in range(n)]
        af, ai = affine_maps([[sym(f"w{i}{j}") for j in range(n)] for i in range(n + 1)], n)
        for lab, e, fs, objs, ms in stubs(s, ref, n):
            con = f"map_to_cell on a {cell}, {lab}"
            cases = [("symbolic vertices", lambda: s.call(S(s, "mapped_basis"), e, verts(s, W), s.lst(*objs)), fwd, inv),
                     ("constant vertices", lambda: s.call(S(s, "mapped_basis"), e, verts(s, CW), s.lst(*objs)), *affine_maps(C, n)),
                     ("given maps", lambda: s.call(S(s, "mapped_maps"), e, verts(s, W), s.lst(*objs), s.tup(*af), s.tup(*ai)), af, ai)]
            for what, thunk, f_, i_ in cases:
                def go():
                    got = seq(s, thunk())
                    R.ob(len(got) == len(ms), "as many functions as given", f"{con} ({what})", f"{len(got)} functions")
                    for k, m in enumerate(ms):
                        eq(R, s, "push-forward", f"{con} ({what}): function {k} by {m}", lambda: got[k], c04.spec(m, fs[k], f_, i_, xs, True, n))
                R.guard("push-forward", f"{con} ({what})", go, sess=s)
    R.absorb(s)


def default_basis(R):
    """Without arguments, the element's own basis functions are mapped, and remain as they were."""
    s = prog(R)
    s.stub = s.probe(c16.STUB, "stub_probe_")
    V = tri()
    fwd, inv = affine_maps(V, 2)
    af, ai = affine_maps(tri("w"), 2)
    xs = X(2)
    for lab, e, dofs, fs in c16.elements(s):
        con = f"map_to_cell, {lab}"

        def go():
            before = [s.data(f) for f in seq(s, s.call(S(s, "basis"), e))]
            for what, thunk, f_, i_ in (("default maps", lambda: s.call(S(s, "mapped"), e, verts(s, V)), fwd, inv),
                                        ("given maps", lambda: s.call(S(s, "mapped_kw"), e, verts(s, V), s.tup(*af), s.tup(*ai)), af, ai),
                                        ("default maps again", lambda: s.call(S(s, "mapped"), e, verts(s, V)), fwd, inv)):
                got = seq(s, thunk())
                for k, f in enumerate(before):
                    eq(R, s, "push-forward", f"{con} ({what}): function {k}", lambda: got[k], c04.spec("identity", f, f_, i_, xs, True, 2))
            after = seq(s, s.call(S(s, "basis"), e))
            for k, f in enumerate(before):
                eq(R, s, "basis unchanged", f"{con}: function {k}", lambda: after[k], f)
        R.guard("push-forward", con, go, sess=s)
    R.absorb(s)


def piecewise(R):
    s = prog(R)
    ref = s.ref("triangle")
    cells = [[(0, 0), (1, 0), (Fr(1, 3), Fr(1, 3))], [(1, 0), (0, 1), (Fr(1, 3), Fr(1, 3))], [(0, 1), (0, 0), (Fr(1, 3), Fr(1, 3))]]
    V = tri()
    fwd, inv = affine_maps(V, 2)
    xs = X(2)
    for kind, m in (("scalar", "identity"), ("vector", "contravariant"), ("vector", "covariant")):
        def go():
            con = f"map_to_cell of piecewise {kind} functions by {m}"
            data, objs, dofs = [], [], []
            for k in range(2):
                fs = [s.fn_atom(f"f{k}{j}", 2) if kind == "scalar" else fvec(s, f"v{k}{j}", 2, 2) for j in range(3)]
                objs.append(s.call(S(s, "pw"), s.lst(*[s.tup(*[s.tup(*[Rat.const(c) for c in v]) for v in c_]) for c_ in cells]),
                                   s.lst(*[rebuild(s, None, f) for f in fs]), 2))
                data.append(fs)
                if kind == "scalar":
                    dofs.append(s.call(S(s, "pdof"), ref, s.tup(*PTS[k]), s.tup(0, k), m))
                else:
                    dofs.append(s.call(S(s, "ddof"), ref, s.tup(*PTS[k]), s.tup(1, 2), s.tup(0, k), m))
            e = s.call(S(s, "stub"), ref, 1, s.lst(*objs), s.lst(*dofs), 2, 1 if kind == "scalar" else 2, None)
            got = seq(s, s.call(S(s, "mapped_basis"), e, verts(s, V), s.lst(*objs)))

            def compare(rule, f, k, mp, spec_):
                fo = func(s, f)
                R.ob(fo[0] == "pw" and len(fo[1]) == 3, rule, f"{con}: function {k}", f"not a piecewise function of 3 pieces: {fo!r}"[:300])
                for j, (key, d) in enumerate(fo[1]):
                    want_key = [[rsubs(mp[c], {sid(xs[0]): Rat.const(v[0]), sid(xs[1]): Rat.const(v[1])})
                                 for c in range(2)] for v in cells[j]]
                    ok = [data_eq(p, q) for p, q in zip(key, want_key)]
                    R.ob(all(ok), rule, f"{con}: cell of piece {j} of function {k}", f"piece on {key!r}, expected {want_key!r}"[:400])
                    w = spec_(data[k][j])
                    R.ob(not [a for a in each_alt(d) if not data_eq(a, w)], rule, f"{con}: piece {j} of function {k}", f"{d!r}, expected {w!r}"[:400])
            for k in range(2):
                compare("push-forward", got[k], k, fwd, lambda d: c04.spec(m, d, fwd, inv, xs, True, 2))
                compare("basis unchanged", objs[k], k, list(xs), lambda d: d)
        R.guard("push-forward", f"piecewise {kind} by {m}", go, sess=s)
    R.absorb(s)


def again(R):
    """An element with a DOF that cannot be mapped is made again on the cell with the same arguments."""
    s = prog(R)
    s.stub = s.probe(c16.STUB, "stub_probe_")
    seen = []

    def made(it, args, kw):
        ref, order, a, b = args
        seen.append((s.data(s.attr(ref, "vertices")), s.data(order), s.data(a), s.data(b)))
        return s.lst(*[s.scalar(s.fn_atom(f"f{len(seen)}{i}", 2)) for i in range(3)])
    s.it.overrides["stub17_probe_.made"] = made
    V = [[Rat.const(c) for c in r] for r in CELLV["triangle"]]
    for a, b in (("left", 2), ("right", 7)):
        con = f"element with a DOF that is not mapped, made with {a}, {b}"

        def go():
            del seen[:]
            e = s.call(S(s, "again"), s.ref("triangle"), 3, a, b)
            got = seq(s, s.call(S(s, "mapped"), e, verts(s, V)))
            R.ob(len(seen) == 2, "made again on the cell", con, f"constructed {len(seen)} times in total")
            if len(seen) == 2:
                R.ob(data_eq(seen[1][0], V), "made again on the cell", f"{con}: vertices", f"vertices {seen[1][0]!r}")
                R.ob(unrat(seen[1][1:]) == unrat(seen[0][1:]), "made again with the same arguments", con, f"{seen[1][1:]!r} for {seen[0][1:]!r}")
                fresh = s.call(S(s, "again"), s.call(s.get("symfem.references.Triangle"), vertices=verts(s, V)), 3, a, b)
                dofs = seq(s, s.call(P(s, "dofs"), fresh))
                for i, d in enumerate(dofs):
                    for j, f in enumerate(got):
                        eq(R, s, "dual to the DOFs on the cell", f"{con}: DOF {i} of function {j}", lambda: s.call(S(s, "on"), d, f), R1 if i == j else R0)
        R.guard("made again on the cell", con, go, sess=s)
    R.absorb(s)


def enriched(R):
    s = prog(R)
    ref = s.ref("triangle")
    V = tri()
    fwd, inv = affine_maps(V, 2)
    xs = X(2)
    parts = stubs(s, ref)

    def go():
        for kind in (0, 1):
            l1, e1, f1, o1, m1 = parts[kind]
            e2, f2, m2 = e1, f1, m1
            # a second element of other functions
            if kind == 0:
                fs = [s.fn_atom(f"h{i}", 2) for i in range(2)]
                objs = [s.scalar(f) for f in fs]
                dofs = [s.call(S(s, "pdof"), ref, s.tup(*PTS[i]), s.tup(0, i), m) for i, m in enumerate(("l2", "identity"))]
                b = s.call(S(s, "stub"), ref, 1, s.lst(*objs), s.lst(*dofs), 2, 1, None)
                ms = ["l2", "identity"]
            else:
                fs = [fvec(s, f"h{i}", 2, 2) for i in range(2)]
                objs = [s.vector(f) for f in fs]
                dofs = [s.call(S(s, "ddof"), ref, s.tup(*PTS[i]), s.tup(1, 2), s.tup(0, i), m) for i, m in enumerate(("contravariant", "covariant"))]
                b = s.call(S(s, "stub"), ref, 1, s.lst(*objs), s.lst(*dofs), 2, 2, None)
                ms = ["contravariant", "covariant"]
            con = f"map_to_cell of an enriched {('scalar', 'vector')[kind]} element"
            e = s.call(S(s, "enriched"), s.lst(b, e1, b))
            want = [c04.spec(m, f, fwd, inv, xs, True, 2) for m, f in zip(ms + m1 + ms, fs + f1 + fs)]

            def given():
                got = seq(s, s.call(S(s, "mapped_basis"), e, verts(s, V), s.lst(*(objs + o1 + objs))))
                R.ob(len(got) == len(want), "as many functions as given", con, f"{len(got)} functions")
                for k, w in enumerate(want[:len(got)]):
                    eq(R, s, "push-forward", f"{con} (given basis): function {k}", lambda: got[k], w)
            R.guard("push-forward", con, given, sess=s)
        s.stub = s.probe(c16.STUB, "stub_probe_")
        els = c16.elements(s)
        for a, b in ((2, 1), (0, 2), (4, 3)):
            e = s.call(S(s, "enriched"), s.lst(els[a][1], els[b][1]))
            con = f"map_to_cell of the enriched element of {els[a][0]} and {els[b][0]}"
            fs = [s.data(f) for f in seq(s, s.call(S(s, "basis"), e))]
            got = seq(s, s.call(S(s, "mapped"), e, verts(s, V)))
            R.ob(len(got) == len(fs), "as many functions as given", con, f"{len(got)} functions")
            for k, f in enumerate(fs[:len(got)]):
                eq(R, s, "push-forward", f"{con}: function {k}", lambda: got[k], c04.spec("identity", f, fwd, inv, xs, True, 2))
    R.guard("push-forward", "enriched element", go, sess=s)
    R.absorb(s)


ALLOWED = {"H(div)": ("contravariant",), "H(curl)": ("covariant",), "inner H(div)": ("double_contravariant",),
           "integral inner H(div)": ("double_contravariant",), "inner H(curl)": ("double_covariant",)}
CELLV = {"interval": [[3], [5]], "triangle": [[2, 1], [5, 3], [1, 4]], "quadrilateral": [[2, 1], [5, 3], [1, 4]],
         "tetrahedron": [[1, 0, 2], [4, 1, 2], [0, 3, 1], [2, 1, 6]], "hexahedron": [[1, 0, 2], [4, 1, 2], [0, 3, 1], [2, 1, 6]],
         "prism": [[1, 0, 2], [4, 1, 2], [0, 3, 1], [2, 1, 6]], "pyramid": [[1, 0, 2], [4, 1, 2], [0, 3, 1], [2, 1, 6]]}


def cell_vertices(cell):
    V = [[Rat.const(c) for c in r] for r in CELLV[cell]]
    d = [[a - b for a, b in zip(v, V[0])] for v in V[1:]]
    add = lambda *ds: [sum(c, R0) for c in zip(V[0], *ds)]
    full = {"quadrilateral": lambda: V + [add(d[0], d[1])],
            "hexahedron": lambda: V[:3] + [add(d[0], d[1])] + [V[3], add(d[0], d[2]), add(d[1], d[2]), add(*d)],
            "prism": lambda: V[:4] + [add(d[0], d[2]), add(d[1], d[2])],
            "pyramid": lambda: V[:3] + [add(d[0], d[1])] + V[3:]}.get(cell, lambda: V)()
    return V, full


def real(R, item):
    s = shared(R, 15_000_000)
    if not hasattr(s, "stub17"):
        s.stub17 = s.probe(STUB, "stub17_probe_")
    lab = label(item)
    try:
        e = create(s, item)
        if not flag(s, "is_ciarlet", e):
            return
        ms = s.data(s.call(S(s, "mappings_of"), e))
        cont = s.data(s.call(S(s, "continuity"), e))
    except Dead:
        R.note(f"{lab}: not created")
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as ex_:
        R.unknown("mapping matches continuity", lab, repr(ex_))
        R.absorb(s)
        return
    rule = "mapping matches continuity"
    if has_top(ms) or has_top(cont):
        R.unknown(rule, lab, "imprecise")
    elif cont != "L2":
        want = ALLOWED.get(cont, ("identity",))
        bad = sorted({str(m) for m in ms if m is not None and m not in want})
        R.ob(not bad, rule, lab, f"continuity {cont} but DOFs mapped by {', '.join(bad)}")
    tdim = TDIM.get(item[2])
    if len(ms) > (16 if R.thorough else 9) or item[2] not in CELLV:
        R.absorb(s)
        return

    def go():
        V, full = cell_vertices(item[2])
        fwd, inv = affine_maps(V, tdim)
        try:
            basis = seq(s, s.call(S(s, "basis"), e))
        except Dead:
            R.note(f"{lab}: no dual basis")
            return
        try:
            got = seq(s, s.call(S(s, "mapped"), e, verts(s, full)))
        except Dead:
            if s.it.uncaught and exc_name(s) in ("NonDefaultReferenceError", "NotImplementedError", "MappingNotImplemented"):
                R.note(f"{lab}: not mapped")
                return
            R.bad("push-forward", lab, f"map_to_cell raises {where(s)}")
            return
        dofs = seq(s, s.call(P(s, "dofs"), e))
        R.ob(len(got) == len(basis), "as many functions as given", lab, f"{len(got)} functions for {len(basis)}")
        if unmapped(s, dofs, fwd, inv):
            return remade(s, R, lab, item, full, got)
        xs = X(tdim)
        for k, (m, f, g) in enumerate(zip(ms, basis, got)):
            def one():
                fo, go_ = func(s, f), func(s, g)
                if fo[0] != "pw":
                    w = c04.spec(m, fo[1], fwd, inv, xs, True, tdim)
                    ok = go_[0] != "pw" and data_eq(go_[1], w)
                else:
                    ok = go_[0] == "pw" and len(fo[1]) == len(go_[1]) and all(
                        data_eq(d2, c04.spec(m, d1, fwd, inv, xs, True, tdim)) for (k1, d1), (k2, d2) in zip(fo[1], go_[1]))
                R.ob(ok, "push-forward", f"{lab}: function {k} by {m}", lambda: f"{go_!r} from {fo!r}"[:400])
            R.guard("push-forward", f"{lab}: function {k}", one, sess=s)
    R.guard("push-forward", lab, go, sess=s)
    R.absorb(s)


def unmapped(s, dofs, fwd, inv):
    """Some DOF declines to be mapped."""
    for d in dofs:
        try:
            s.call(S(s, "declines"), d, s.tup(*fwd), s.tup(*inv))
        except Dead:
            return True
    return False


def remade(s, R, lab, item, full, got):
    """The functions are dual to the DOFs of the element made on the cell."""
    names = {"interval": "Interval", "triangle": "Triangle", "tetrahedron": "Tetrahedron", "quadrilateral": "Quadrilateral",
             "hexahedron": "Hexahedron", "prism": "Prism", "pyramid": "Pyramid"}
    ref = s.call(s.get("symfem.references." + names[item[2]]), vertices=verts(s, full))
    c = next(c for cls, n, r, lo, hi, c in registry(s) if cls == item[0])
    fresh = s.call(c, ref, item[3], **wrap_kw(s, item[4]))
    dofs = seq(s, s.call(P(s, "dofs"), fresh))
    R.ob(len(dofs) == len(got), "as many functions as given", lab, f"{len(got)} functions for {len(dofs)} DOFs on the cell")
    for i, d in enumerate(dofs):
        for j, f in enumerate(got):
            eq(R, s, "dual to the DOFs on the cell", f"{lab}: DOF {i} of function {j}", lambda: s.call(S(s, "on"), d, f), R1 if i == j else R0)


def run(R):
    R.floor = 60
    R.explanation = ("Abstract interpretation of map_to_cell on stub elements with opaque basis functions, DOFs with every mapping on mixed entities and "
                     "symbolic vertices, and on the small registered elements; DOF mappings of every element against its continuity.")
    for f in (pushed, default_basis, piecewise, again, enriched):
        f(R)
    s = session(R)
    items = sweep_items(s, 3 if R.thorough else 1, 1 if R.thorough else 0)
    run_deadline(R, real, items, 900 if R.thorough else 90)
