"""Exact results stay exact: no floating-point number gets into what is not asked for in floating point."""
from checks.sweep import *
from checks.c17 import cell_vertices

PROBE = '''
import symfem
from symfem.symbols import x, t
from symfem.quadrature import get_quadrature
import symfem.polynomials as P
import symfem.mappings as M
from symfem.functions import parse_function_input, ScalarFunction, VectorFunction
from symfem.piecewise_functions import PiecewiseFunction
def is_pw(f): return isinstance(f, PiecewiseFunction)
def pieces(f): return [(k, v) for k, v in f.pieces.items()]
def basis(e): return [f for f in e.get_basis_functions()]
def polys(e): return [f for f in e.get_polynomial_basis()]
def points(e): return [d.dof_point() for d in e.dofs]
def adjusted(e): return [d.adjusted_dof_point() for d in e.dofs]
def directions(e): return [d.dof_direction() for d in e.dofs if d.dof_direction() is not None]
def positions(e): return e.dof_plot_positions()
def dual(e): return e.get_dual_matrix()
def inverse(e): return e.get_dual_matrix(inverse=True)
def table(e, p): return e.tabulate_basis(p)
def mapped(e, v): return [f for f in e.map_to_cell(v)]
def reference(cell, vs): return symfem.create_reference(cell, vs)
def rule(name, n): return [list(i) for i in get_quadrature(name, n)]
def ortho(cell, n, d): return [[parse_function_input(f) for f in r] for r in P.orthogonal_basis(cell, n, d)]
def normal(cell, n, d): return [[parse_function_input(f) for f in r] for r in P.orthonormal_basis(cell, n, d)]
def lob(cell, n): return [parse_function_input(f) for f in P.lobatto_basis(cell, n)]
def lobdual(cell, n): return [parse_function_input(f) for f in P.lobatto_dual_basis(cell, n)]
def pset(name, *a): return [parse_function_input(f) for f in getattr(P, name)(*a)]
def r_jacobian(r): return r.jacobian()
def r_volume(r): return r.volume()
def r_midpoint(r): return r.midpoint()
def r_map(r): return r.get_map_to([tuple(2 * c + 1 for c in v) for v in r.vertices])
def r_map_self(r): return r.get_map_to_self()
def r_inverse_map(r): return r.get_inverse_map_to([tuple(2 * c + 1 for c in v) for v in r.vertices])
def r_inverse_map_self(r): return r.get_inverse_map_to_self()
def r_scaled_axes(r): return r.scaled_axes()
def r_sub_entities(r): return [[r.sub_entity(d, i).vertices for i in range(r.sub_entity_count(d))] for d in range(r.tdim + 1)]
def r_lattice(r): return r.make_lattice(3)
def r_lattice_with_lines(r): return r.make_lattice_with_lines(3)[0]
def r_limits(r): return [i[1:] for i in r.integration_limits()]
def r_vertices(r): return (r.vertices, r.reference_vertices, r.axes, r.origin)
def r_polyset(r): return [f for f in r.map_polyset_from_default([x[0] ** 2 + 1, x[0]])]
def r_integral(r): return r.integral(ScalarFunction(x[0] + 2))
def r_normal(r): return r.normal()
def r_tangent(r): return r.tangent()
def f_diff(f): return f.diff(x[0])
def f_subs(f): return f.subs(x, (2, 3, 5))
def f_power(f): return f ** 3
def f_div(f): return f / 3
def f_mul(f): return 2 * f
def f_neg(f): return -f
def f_half(f): return f / 2
def f_norm(f): return f.norm()
def f_grad(f): return f.grad(2)
def f_integral(f): return f.integral(symfem.create_reference("triangle"))
def f_dot(f): return f.dot(f)
def f_cross(f): return f.cross(f)
def f_div_(f): return f.div()
def f_curl(f): return f.curl()
def f_det(f): return f.det()
def f_transpose(f): return f.transpose()
def f_matmul(f): return f @ f
def f_int(f): return f.integrate((x[0], 0, 1))
def mapping(name, f, m, i): return getattr(M, name)(f, m, i)
'''


def program(R, steps):
    s = session(R, steps)
    s.exact_probe = s.probe(PROBE, "exact_probe_")
    return s


def S(s, n):
    return s.attr(s.exact_probe, n)


def floats(s, v, out, depth=0):
    """The numbers of a value that carry floating-point parts; Unknown when the value is imprecise."""
    if isinstance(v, Phi):
        for _, q in v.alts:
            floats(s, q, out, depth + 1)
        return
    if v is None or isinstance(v, (bool, str, int)):
        return
    if isinstance(v, float):
        out.append(v)
        return
    if is_num(v):
        if v.k in ("float", "symf"):
            out.append(v.r)
        return
    if isinstance(v, Ref) and v.kind == "mat":
        rows = s.it.models.mat_rows(s.it, v)
        if rows is None:
            raise Unknown("matrix")
        for r in rows:
            for q in r:
                floats(s, q, out, depth + 1)
        return
    if isinstance(v, Ref) and v.kind == "inst":
        if flag_pw(s, v):
            for p in seq(s, s.call(S(s, "pieces"), v)):
                floats(s, p, out, depth + 1)
            return
        if v.cls.lookup("as_sympy")[0] is UNDEF:
            raise Unknown(f"instance of {v.cls.name}")
        floats(s, s.meth(v, "as_sympy"), out, depth + 1)
        return
    if isinstance(v, TupleV) or isinstance(v, Ref) and v.kind == "list":
        for q in seq(s, v):
            floats(s, q, out, depth + 1)
        return
    raise Unknown(repr(v)[:80])


def flag_pw(s, v):
    return s.call(S(s, "is_pw"), v) is True


def look(R, s, rule, con, fn, *args):
    try:
        v = s.call(S(s, fn), *args)
    except (Dead, AnchorLost):
        del s.it.uncaught[:]
        return
    except (Unknown, NotLinear, ZeroDivisionError, Budget) as e:
        R.unknown(rule, con, repr(e)[:160])
        return
    out = []
    try:
        floats(s, v, out)
    except (Unknown, Dead) as e:
        R.unknown(rule, con, repr(e)[:160])
        return
    R.ob(not out, rule, con, lambda: f"contains the floating-point number {out[0]!r}"[:200])


CELL_AT = {c: cell_vertices(c)[1] for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")}


def element(R, item):
    s = shared(R, 15_000_000)
    if not hasattr(s, "exact_probe"):
        s.exact_probe = s.probe(PROBE, "exact_probe_")
    lab = label(item)
    cell = item[2]
    try:
        e = create(s, item)
    except (Dead, Unknown, Budget, NotLinear, ZeroDivisionError):
        R.absorb(s)
        return
    rule = "elements are exact"
    small = R.thorough or not flag(s, "is_ciarlet", e) or len(seq(s, s.call(P(s, "dofs"), e))) <= 10
    for w in ("polys", "points", "adjusted", "directions", "positions", "dual", "inverse", "basis"):
        if w in ("inverse", "basis", "dual") and not small:
            continue
        if w in ("dual", "inverse", "polys", "points", "applied", "adjusted", "directions") and not flag(s, "is_ciarlet", e):
            continue
        look(R, s, rule, f"{lab}: {w}", w, e)
    if not small:
        R.absorb(s)
        return
    if not cell.startswith("dual"):
        look(R, s, rule, f"{lab}: table", "table", e, s.lst(s.tup(*[Rat.const(Fr(1, d)) for d in (5, 7, 11)][:TDIM[cell]])))
    if cell in CELL_AT:
        look(R, s, rule, f"{lab}: mapped", "mapped", e, s.lst(*[s.tup(*v) for v in CELL_AT[cell]]))
    R.absorb(s)


REFREAD = [k[4:] for k in __import__("re").findall(r"def r_\w+", PROBE)]


def cells(R, item):
    _, cell = item
    s = program(R, 30_000_000)
    refs = [("", s.ref(cell))]
    if cell in CELL_AT:
        refs.append((" moved", s.call(S(s, "reference"), cell, s.tup(*[s.tup(*p) for p in CELL_AT[cell]]))))
    if cell == "interval":
        refs.append((" in the plane", s.call(S(s, "reference"), cell, s.tup(s.tup(Rat.const(1), Rat.const(2)), s.tup(Rat.const(4), Rat.const(3))))))
    if cell == "triangle":
        refs.append((" in space", s.call(S(s, "reference"), cell, s.tup(*[s.tup(*[Rat.const(c) for c in p]) for p in ((1, 2, 0), (4, 3, 1), (0, 5, 5))]))))
    for n, r in refs:
        for w in REFREAD:
            look(R, s, "cells are exact", f"{cell}{n}: {w[2:]}", w, r)
    R.absorb(s)


def rules(R, item):
    _, name = item
    s = program(R, 60_000_000)
    for n in range(1, 6):
        look(R, s, "quadrature rules are exact", f"{name}({n})", "rule", name, s.num(Rat.const(n), "int"))
    R.absorb(s)


PSETS = ["polynomial_set_1d", "polynomial_set_vector", "Hdiv_polynomials", "Hcurl_polynomials", "quolynomial_set_1d", "quolynomial_set_vector", "Hdiv_quolynomials",
         "Hcurl_quolynomials", "serendipity_set_1d", "serendipity_set_vector", "Hdiv_serendipity", "Hcurl_serendipity", "prism_polynomial_set_1d", "prism_polynomial_set_vector",
         "pyramid_polynomial_set_1d", "pyramid_polynomial_set_vector"]


def sets(R, item):
    _, cell = item
    s = program(R, 60_000_000)
    n = lambda c: s.num(Rat.const(c), "int")
    if cell == "sets":
        for p in PSETS:
            for d in (1, 2, 3):
                for k in (1, 2, 3):
                    look(R, s, "polynomial sets are exact", f"{p}({d}, {k})", "pset", p, n(d), n(k))
                    look(R, s, "polynomial sets are exact", f"{p}({d}, {d}, {k})", "pset", p, n(d), n(d), n(k))
    else:
        for k in (0, 1, 2):
            look(R, s, "polynomial sets are exact", f"orthogonal basis of a {cell}, order {k}", "ortho", cell, n(k), n(1))
            if k < 2:
                look(R, s, "polynomial sets are exact", f"orthonormal basis of a {cell}, order {k}", "normal", cell, n(k), n(1))
            look(R, s, "polynomial sets are exact", f"Lobatto basis of a {cell}, order {k}", "lob", cell, n(k))
            look(R, s, "polynomial sets are exact", f"Lobatto dual basis of a {cell}, order {k}", "lobdual", cell, n(k))
    R.absorb(s)


def functions(R, item):
    s = program(R, 60_000_000)
    X2 = X(2)
    p = X2[0] * X2[0] + Rat.const(Fr(1, 3)) * X2[1]
    fs = [("scalar", s.scalar(p)), ("vector", s.vector([p, X2[1]])), ("matrix", s.matrix([[p, X2[1]], [X2[0], p]])), ("3D vector", s.vector([p, X2[1], X2[0]]))]
    ops = __import__("re").findall(r"def (f_\w+)", PROBE)
    for n, f in fs:
        for o in ops:
            look(R, s, "functions are exact", f"{o[2:]} of a {n} function", o, f)
    m = s.tup(Rat.const(2) * X2[0] + X2[1], X2[0] + Rat.const(1))
    i = s.tup(X2[1] - Rat.const(1), X2[0] - Rat.const(2) * X2[1] + Rat.const(2))
    for nm in ("identity", "l2", "covariant", "contravariant", "identity_inverse", "l2_inverse", "covariant_inverse", "contravariant_inverse"):
        for n, f in fs[:2]:
            look(R, s, "functions are exact", f"{nm} of a {n} function", "mapping", nm, f, m, i)
    for nm in ("double_covariant", "double_contravariant"):
        look(R, s, "functions are exact", nm, "mapping", nm, fs[2][1], m, i)
    R.absorb(s)


def one(R, item):
    f = {"cells": cells, "rules": rules, "sets": sets, "functions": functions}.get(item[0], element)
    f(R, item)


CELLS7 = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]


def run(R):
    R.floor = 100
    R.explanation = ("Data flow of floating-point numbers: numbers carry whether a float went into them through all operations, and the results of the exact "
                     "functions are read for such numbers.")
    s = session(R)
    items = [("functions", None)] + [("cells", c) for c in ["point"] + CELLS7] + [("rules", r) for r in ("equispaced", "legendre", "lobatto", "gll", "radau", "gl")]
    items += [("sets", c) for c in ["sets"] + CELLS7]
    items += sorted(sweep_items(s, 2 if R.thorough else 1, 2 if R.thorough else 1), key=lambda i: TDIM.get(i[2], 2))
    run_deadline(R, one, items, 900 if R.thorough else 60)
