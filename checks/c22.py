"""Earlier calls leave no traces: results do not depend on history, operands and arguments are not modified."""
from checks.sweep import *
from checks.common import fvec, fmat
from checks.c07 import CELLS as PIECES, QUADS, make as make_piecewise
from checks.c15 import fsame
from checks.c17 import cell_vertices

PROBE = '''
import symfem
from symfem.symbols import x, t
from symfem.piecewise_functions import PiecewiseFunction
from symfem.functions import VectorFunction, MatrixFunction, ScalarFunction, parse_function_input
from symfem.functionals import *
from symfem.references import *
def basis(e): return [f for f in e.get_basis_functions()]
def polys(e): return [f for f in e.get_polynomial_basis()]
def mapped(e, vs): return [f for f in e.map_to_cell(vs)]
def dofs(e): return [(d.entity_dim(), d.entity_number(), d.mapping) for d in e.dofs]
def entities(e): return [[e.entity_dofs(d, i) for i in range(e.reference.sub_entity_count(d))] for d in range(e.reference.tdim + 1)]
def values(e, pts, order): return e.tabulate_basis(pts, order)
def degrees(e): return (e.lagrange_superdegree, e.lagrange_subdegree, e.polynomial_superdegree, e.polynomial_subdegree)
def facts(e): return (e.order, e.reference.vertices, e.space_dim, e.name)
def kwargs(e): return [(k, v) for k, v in e.init_kwargs().items()]
def nth(e, n): return e.get_basis_function(n).get_function()
def add(a, b): return a + b
def radd(a, b): return b + a
def sub(a, b): return a - b
def mul(a, b): return a * b
def rmul(a, b): return b * a
def div(a, b): return a / b
def matmul(a, b): return a @ b
def power(a): return a ** 2
def neg(a): return -a
def iadd(a, b):
    c = a
    c += b
    return c
def isub(a, b):
    c = a
    c -= b
    return c
def imul(a, b):
    c = a
    c *= b
    return c
def eq(a, b): return a == b
def dot(a, b): return a.dot(b)
def cross(a, b): return a.cross(b)
def diff(a): return a.diff(x[0])
def subs_p(a): return a.subs(x, (2, 3, 5))
def subs_f(a, b): return a.subs(x, [b, b, b])
def grad(a): return a.grad(2)
def div_(a): return a.div()
def curl(a): return a.curl()
def norm(a): return a.norm()
def transpose(a): return a.transpose()
def det(a): return a.det()
def listed(a): return [i for i in a]
def first(a): return a[0]
def expand(a): return a.expand()
def integral(a): return a.integral(symfem.create_reference("triangle"))
def jacobian(a): return a.jacobian(2)
def sympied(a): return a.as_sympy()
def parsed(a): return parse_function_input(a)
def pieces(f): return [(k, v) for k, v in f.pieces.items()]
def is_pw(f): return isinstance(f, PiecewiseFunction)
def reference(cell, vs): return symfem.create_reference(cell, vs)
def r_jacobian(r): return r.jacobian()
def r_volume(r): return r.volume()
def r_midpoint(r): return r.midpoint()
def r_map(r): return r.get_map_to([tuple(2 * c + 1 for c in v) for v in r.vertices])
def r_map_self(r): return r.get_map_to_self()
def r_inverse_map(r): return r.get_inverse_map_to([tuple(2 * c + 1 for c in v) for v in r.vertices])
def r_inverse_map_self(r): return r.get_inverse_map_to_self()
def r_scaled_axes(r): return r.scaled_axes()
def r_subs(r): return [[r.sub_entity(d, i).vertices for i in range(r.sub_entity_count(d))] for d in range(r.tdim + 1)]
def r_lattice(r): return r.make_lattice(3)
def r_limits(r): return r.integration_limits()
def r_vertices(r): return (r.vertices, r.reference_vertices, r.edges, r.faces, r.volumes, r.axes, r.origin)
def r_polyset(r): return r.map_polyset_from_default([x[0] ** 2 + 1, x[0]])
def r_default(r): return r.default_reference().vertices
def r_contains(r): return r.contains(r.midpoint())
def r_integral(r): return r.integral(x[0] + 2)
def r_z_ordered(r): return r.z_ordered_entities()
def functionals(r, pts, v, f):
    return [PointEvaluation(r, pts[0], entity=(0, 0)), PointDirectionalDerivativeEvaluation(r, pts[0], v, entity=(0, 0)),
            PointDivergenceEvaluation(r, pts[0], entity=(0, 0)), DotPointEvaluation(r, pts[0], v, entity=(0, 0)), PointInnerProduct(r, pts[0], v, v, entity=(0, 0))]
def weighted(r, pts, ws, v): return [WeightedDotPoints(r, pts, ws, v)] if "WeightedDotPoints" in globals() else []
def vector(l): return VectorFunction(l)
def matrix(l): return MatrixFunction(l)
def piecewise(d): return PiecewiseFunction(d, 2)
def element(cell, name, order, kw): return symfem.create_element(cell, name, order, **kw)
def table(e, l): return e.tabulate_basis(l)
def subs_list(f, l): return f.subs(x, l)
def subs_two(f, l, m): return f.subs(l, m)
def points(l): return symfem.geometry.parse_set_of_points_input(l)
def limits(f, r): return f.integral(r)
def moved(e, l): return [f for f in e.map_to_cell(l)]
def pair(a, b): return [a, b]
'''


def program(R, steps):
    s = session(R, steps)
    s.trace_probe = s.probe(PROBE, "trace_probe_")
    return s


def S(s, n):
    return s.attr(s.trace_probe, n)


def reading(s, v, depth=0):
    """Comparable description of a value: data of functions and containers; raises Unknown when it is imprecise."""
    if isinstance(v, (TupleV,)) or isinstance(v, Ref) and v.kind == "list":
        return [reading(s, q, depth + 1) for q in seq(s, v)]
    if isinstance(v, Ref) and v.kind == "inst" and v.cls.lookup("as_sympy")[0] is not UNDEF:
        f = func(s, v)
        return ["function", f[0], [[repr(k), d] for k, d in f[1]] if f[0] == "pw" else f[1]]
    if isinstance(v, Ref) and v.kind == "inst" and any(c.name == "Reference" for c in v.cls.mro()):
        return ["cell", v.cls.name, s.data(s.attr(v, "vertices"))]
    if isinstance(v, Ref) and v.kind == "dict":
        top, d = s.it.get(("d", v.addr))
        if top:
            raise Unknown("dict")
        return ["dict"] + [[repr(k), reading(s, q, depth + 1)] for k, q in d.items()]
    d = s.data(v)
    ex(d)
    return d


def same(a, b):
    return data_eq(a, b)


# elements

READ = ["facts", "basis", "polys", "dofs", "entities", "values", "degrees", "kwargs", "mapped", "nth", "values again"]


def point(cell):
    return [Rat.const(Fr(1, d)) for d in (5, 7, 11)][:TDIM.get(cell, 2)]


def read(s, e, what, cell):
    a = {"mapped": "mapped", "values": "values", "values again": "values", "nth": "nth"}.get(what, what)
    args = []
    if what == "mapped":
        if cell not in CELL_AT:
            return "none"
        args = [s.lst(*[s.tup(*v) for v in CELL_AT[cell]])]
    elif what.startswith("values"):
        if cell.startswith("dual"):
            return "none"
        args = [s.lst(s.tup(*point(cell))), "xyzxyz" if what == "values" else "xx,yy,zz"]
    elif what == "nth":
        args = [s.num(Rat.const(0), "int")]
    try:
        return reading(s, s.call(S(s, a), e, *args))
    except Dead:
        n = exc_name(s)
        del s.it.uncaught[:]
        return "raises " + str(n)


CELL_AT = {c: cell_vertices(c)[1] for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")}


def make(s, cfg):
    item, moved = cfg
    if not moved:
        return create(s, item)
    cls, name, cell, order, kw = item
    kw = wrap_kw(s, kw)
    kw["vertices"] = s.tup(*[s.tup(*v) for v in CELL_AT[cell]])
    return s.call(s.get("symfem.create.create_element"), cell, name, order, **kw)


def show(cfg):
    return label(cfg[0]) + (", on a moved cell" if cfg[1] else "")


def take(s, cfg, reads):
    """{what: reading} of the element made for cfg, the readings taken in this order."""
    try:
        e = make(s, cfg)
    except Dead:
        n = exc_name(s)
        del s.it.uncaught[:]
        return {"created": "raises " + str(n)}
    return {w: read(s, e, w, cfg[0][2]) for w in reads}, e


def history(R, item):
    """Fresh readings of every configuration, then a session that goes through all of them twice."""
    _, cls, cfgs = item
    fresh = {}
    good = []
    s = program(R, 60_000_000)
    for cfg in cfgs:
        mark = len(s.it.trail)
        try:
            got = take(s, cfg, READ)
            if isinstance(got, dict):
                continue
            fresh[show(cfg)] = got[0]
            good.append(cfg)
        except (Unknown, Budget, NotLinear, ZeroDivisionError, Dead) as e:
            R.unknown("history", show(cfg), repr(e)[:200])
        finally:
            s.it.undo(mark)
    if not good:
        R.absorb(s)
        return
    s.it.max_steps = s.it.steps + 60_000_000
    rule = "the same element whatever was made before"
    for rnd in range(2):
        order = good if rnd == 0 else good[::-1]
        for cfg in order:
            lab = show(cfg)
            try:
                got = take(s, cfg, READ if rnd == 0 else READ[::-1])
                if isinstance(got, dict):
                    R.bad(rule, lab, f"creating it after other elements {got['created']}")
                    continue
                got, e = got
                for w in READ:
                    R.ob(same(got[w], fresh[lab][w]), rule, f"{lab}: {w}", "differs from what the element gives in a fresh session, after other elements were made and used")
                again = {w: read(s, e, w, cfg[0][2]) for w in READ}
                for w in READ:
                    R.ob(same(again[w], fresh[lab][w]), "the same results when asked again", f"{lab}: {w}", "a second call on the same element gives another result")
            except (Unknown, Budget, NotLinear, ZeroDivisionError, Dead) as e:
                R.unknown(rule, lab, repr(e)[:200])
    R.absorb(s)


def configurations(s, thorough):
    by = {}
    for it in sweep_items(s, 2, 1, variants=("legendre", "lobatto")):
        by.setdefault(it[0], []).append(it)
    out = []
    for cls, its in by.items():
        its.sort(key=lambda i: (i[3], TDIM.get(i[2], 2), str(i[4])))
        low = [i for i in its if i[3] == its[0][3]]
        more = [(i, False) for i in its if i[3] > its[0][3] and TDIM.get(i[2], 2) < 3][:1]
        moved = [(low[0], True)] if low[0][2] in CELL_AT else []
        rest = [(i, False) for i in low[1:4]]
        cfgs = [(low[0], False)] + moved + rest[:1] + more + rest[1:]
        out.append(("history", cls, cfgs if thorough else cfgs[:3]))
    return out


# functions

UNARY = ["neg", "power", "diff", "subs_p", "grad", "div_", "curl", "norm", "transpose", "det", "listed", "first", "expand", "integral", "jacobian", "sympied", "parsed"]
BINARY = ["add", "radd", "sub", "mul", "rmul", "div", "matmul", "iadd", "isub", "imul", "eq", "dot", "cross", "subs_f"]


def functions(s):
    """(name, function)"""
    P_ = lambda n: S(s, n)
    from checks.c07 import PROBE as PW
    m = s.probe(PW, "pw_probe_")
    Q = lambda n: s.attr(m, n)
    X2 = X(2)
    f = s.fn_atom("f", 3)
    poly = X2[0] * X2[0] + X2[0] * X2[1] + Rat.const(3)
    tri = PIECES[2]
    e = s.call(s.get("symfem.create.create_element"), "triangle", "Lagrange", 1)
    return [("scalar function", s.scalar(f)), ("polynomial", s.scalar(poly)), ("vector function", s.vector(fvec(s, "v", 2))),
            ("vector of polynomials", s.vector([poly, X2[1]])), ("matrix function", s.matrix(fmat(s, "m", 2, 2))), ("3D vector function", s.vector(fvec(s, "w", 3))),
            ("piecewise function", make_piecewise(s, Q, tri, [X2[0], X2[1] + Rat.const(1), X2[0] * X2[1]], 2)),
            ("piecewise vector function", make_piecewise(s, Q, tri, [[X2[0], X2[1]], [X2[1], Rat.const(2)], [X2[0] * X2[1], X2[0]]], 2)),
            ("basis function", s.meth(e, "get_basis_function", s.num(Rat.const(1), "int"))),
            ("substituted basis function", s.call(P_("subs_p"), s.meth(e, "get_basis_function", s.num(Rat.const(2), "int"))))]


def attempt(s, f, *args):
    try:
        v = s.call(f, *args)
        if isinstance(v, bool):
            return v
        return reading(s, v)
    except Dead:
        n = exc_name(s)
        del s.it.uncaught[:]
        return "raises " + str(n)
    except (Unknown, NotLinear, ZeroDivisionError):
        del s.it.uncaught[:]
        return None


def operations(R, item):
    """Every operation on every pair of functions leaves both as they were, and gives the same again."""
    s = program(R, 150_000_000)
    _, k = item
    fs = functions(s)
    before = [reading(s, f) for _, f in fs]
    name, f = fs[k]
    todo = [(u, None) for u in UNARY] + [(b, j) for b in BINARY for j in range(len(fs))] + [(b, "number") for b in BINARY if b not in ("dot", "cross", "subs_f")]
    fresh = {}
    for op, j in todo:
        mark = len(s.it.trail)
        fresh[op, j] = attempt(s, S(s, op), f, *operand(s, fs, j))
        s.it.undo(mark)
    for op, j in todo:
        con = f"{op} of a {name}" + ("" if j is None else " and a " + (j if j == "number" else fs[j][0]))
        got = attempt(s, S(s, op), f, *operand(s, fs, j))
        if got is None or fresh[op, j] is None:
            continue
        R.ob(same(got, fresh[op, j]), "the same results after other operations", con, "differs from the result of the same operation in a fresh state")
        for i in {k} | ({j} if isinstance(j, int) else set()):
            now = reading(s, fs[i][1])
            R.ob(same(now, before[i]), "operands are not modified", con, f"the {fs[i][0]} is another function after the operation")
            if not same(now, before[i]):
                before[i] = now
    for i, (n, g) in enumerate(fs):
        R.ob(same(reading(s, g), before[i]), "operands are not modified", f"operations on a {name}: the {n}", "is another function afterwards")
    R.absorb(s)


def operand(s, fs, j):
    return [] if j is None else [s.num(Rat.const(3), "int")] if j == "number" else [fs[j][1]]


# reference cells

REFREAD = ["r_vertices", "r_jacobian", "r_volume", "r_midpoint", "r_map_self", "r_inverse_map_self", "r_scaled_axes", "r_subs", "r_lattice", "r_limits", "r_polyset",
           "r_default", "r_contains", "r_integral", "r_z_ordered"]


def cells(R, item):
    _, cell = item
    s = program(R, 60_000_000)
    vs = [None, CELL_AT[cell]]
    if cell == "interval":
        vs.append([[Rat.const(c) for c in v] for v in ((1, 2), (3, 5))])
    rule = "the same cell whatever was used before"

    def ref(v):
        return s.ref(cell) if v is None else s.call(S(s, "reference"), cell, s.tup(*[s.tup(*p) for p in v]))
    fresh = []
    for v in vs:
        mark = len(s.it.trail)
        d = {}
        for w in REFREAD:
            r = ref(v)
            d[w] = attempt(s, S(s, w), r)
            s.it.undo(mark)
        fresh.append(d)
    for order in (REFREAD, REFREAD[::-1]):
        refs = [ref(v) for v in vs]
        for _ in range(2):
            for w in order:
                for i, r in enumerate(refs):
                    got = attempt(s, S(s, w), r)
                    if got is None or fresh[i][w] is None:
                        continue
                    R.ob(same(got, fresh[i][w]), rule, f"{cell} {i}: {w[2:]}", "differs from the result in a fresh state")
    R.absorb(s)


# arguments

def arguments(R, item):
    """Containers handed in are as they were, and changing them later does not change what was made from them."""
    s = program(R, 60_000_000)
    num = lambda c: s.num(Rat.const(c), "int")
    p = [sym("p"), sym("q"), sym("r")]
    X2 = X(2)
    e = s.call(s.get("symfem.create.create_element"), "triangle", "Lagrange", num(1))
    v = s.call(s.get("symfem.create.create_element"), "triangle", "Nedelec", num(1))
    f = s.scalar(X2[0] * X2[1])
    r = s.ref("triangle")
    L = s.lst
    cellv = [[Rat.const(c) for c in q] for q in ((1, 0), (4, 1), (0, 3))]
    rows = lambda: L(*[L(*q) for q in cellv])
    kw = s.it.new_dict()
    cases = [("VectorFunction(list)", "vector", [L(X2[0], X2[1])]), ("MatrixFunction(list of lists)", "matrix", [L(L(X2[0], X2[1]), L(X2[1], X2[0]))]),
             ("tabulate_basis(points)", "table", [e, L(L(Rat.const(Fr(1, 3)), Rat.const(Fr(1, 5))), s.tup(Rat.const(Fr(1, 7)), Rat.const(Fr(1, 5))))]),
             ("tabulate_basis(points) of a vector element", "table", [v, L(L(Rat.const(Fr(1, 3)), Rat.const(Fr(1, 5))))]),
             ("subs(x, list)", "subs_list", [f, L(p[0], p[1], p[2])]), ("subs(list, list)", "subs_two", [f, L(X2[0], X2[1]), L(p[0], p[1])]),
             ("parse_set_of_points_input(list of lists)", "points", [rows()]), ("map_to_cell(list of lists)", "moved", [v, rows()]),
             ("create_reference(list of lists)", "reference", ["triangle", rows()]), ("map_to_cell(list of lists) of a scalar element", "moved", [e, rows()]),
             ("create_element(edge_orders=list)", "element", ["triangle", "transition", num(2), options(s, {"edge_orders": L(num(1), num(2), num(1))})]),
             ("create_element(variant=...)", "element", ["triangle", "Lagrange", num(2), options(s, {"variant": "legendre"})]),
             ("functionals(lists)", "functionals", [r, L(s.tup(Rat.const(Fr(1, 3)), Rat.const(Fr(1, 5)))), L(Rat.const(1), Rat.const(2)), f])]
    for con, fn, args in cases:
        boxes = [a for a in args if isinstance(a, Ref) and a.kind in ("list", "dict")]
        try:
            before = [reading(s, b) for b in boxes]
            made = s.call(S(s, fn), *args)
            after = [reading(s, b) for b in boxes]
        except (Dead, Unknown, NotLinear, Budget) as x:
            R.unknown("arguments are not modified", con, repr(x)[:200])
            continue
        R.ob(all(same(a, b) for a, b in zip(before, after)), "arguments are not modified", con, f"the argument is {after!r} after the call instead of {before!r}"[:400])
    R.absorb(s)


def options(s, d):
    v = s.it.new_dict()
    s.it.set(("d", v.addr), (False, dict(d)))
    return v


def one(R, item):
    {"history": history, "operations": operations, "cells": cells, "arguments": arguments}[item[0]](R, item)


def run(R):
    R.floor = 100
    R.explanation = ("Abstract interpretation of two histories of the same program: every reading of an element, cell or function in a fresh state is compared with the "
                     "same reading after other elements, cells and operations; operands and containers handed in are read before and after.")
    s = session(R)
    # elements on small cells first
    order = lambda i: sum(3 ** TDIM.get(c[0][2], 2) for c in i[2])
    items = [("arguments",)] + [("operations", k) for k in range(10)] + [("cells", c) for c in CELL_AT] + sorted(configurations(s, R.thorough), key=order)
    run_deadline(R, one, items, 900 if R.thorough else 60)
