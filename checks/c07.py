"""Piecewise functions act piece by piece, evaluate on the right piece and integrate as the sum over their cells."""
from fractions import Fraction as Fr
from sa.query import *
from sa.query import det as rdet
from checks.common import *

F = "symfem.piecewise_functions.PiecewiseFunction"

PROBE = '''
from symfem.piecewise_functions import PiecewiseFunction
from symfem.symbols import x, t
def make(cells, fs, tdim): return PiecewiseFunction({c: f for c, f in zip(cells, fs)}, tdim)
def pieces(f): return [(k, v) for k, v in f.pieces.items()]
def is_pw(f): return isinstance(f, PiecewiseFunction)
def tdim(f): return f.tdim
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def div(a, b): return a / b
def matmul(a, b): return a @ b
def power(a, b): return a ** b
def neg(a): return -a
def eq(a, b): return a == b
def ne(a, b): return a != b
def diff(a, i): return a.diff(x[i])
def subs_x(a, v): return a.subs(x, v)
def subs1(a, i, v): return a.subs(x[i], v)
def subs_n(a, n, v): return a.subs(x[:n], v)
def item(a, i): return a[i]
def length(a): return len(a)
def subs_list(a, n, v): return a.subs(list(x[:n]), v)
def sympied(a): return a.as_sympy()
def is_dict(a): return isinstance(a, dict)
'''

CELLS = {
    1: [((0,), (Fr(1, 2),)), ((Fr(1, 2),), (1,))],
    2: [((0, 0), (1, 0), (Fr(1, 3), Fr(1, 3))), ((1, 0), (0, 1), (Fr(1, 3), Fr(1, 3))), ((0, 1), (0, 0), (Fr(1, 3), Fr(1, 3)))],
    3: [((0, 0, 0), (1, 0, 0), (0, 1, 0), (Fr(1, 4),) * 3), ((0, 0, 0), (1, 0, 0), (0, 0, 1), (Fr(1, 4),) * 3),
        ((0, 0, 0), (0, 1, 0), (0, 0, 1), (Fr(1, 4),) * 3), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (Fr(1, 4),) * 3)],
}
QUADS = [((0, 0), (Fr(1, 2), 0), (0, 1), (Fr(1, 2), 1)), ((Fr(1, 2), 0), (1, 0), (Fr(1, 2), 1), (1, 1))]
NAMES = {1: "interval", 2: "triangle", 3: "tetrahedron"}


def cell_value(s, c):
    return s.tup(*[s.tup(*[Rat.const(q) for q in v]) for v in c])


def make(s, P, cells, data, tdim):
    fs = []
    for d in data:
        if not isinstance(d, list):
            fs.append(s.scalar(d))
        elif not isinstance(d[0], list):
            fs.append(s.vector(d))
        else:
            fs.append(s.matrix(d))
    return s.call(P("make"), s.lst(*[cell_value(s, c) for c in cells]), s.lst(*fs), tdim)


def pw(s, P, v):
    """(cells, piece data) of a piecewise value."""
    d = s.data(s.call(P("pieces"), v))
    return [q[0] for q in d], [q[1] for q in d]


def cellsdata(cells):
    return [[[Rat.const(q) for q in v] for v in c] for c in cells]


def pw_eq(R, s, P, rule, con, thunk, cells, want, tdim):
    def go():
        v = thunk()
        if s.call(P("is_pw"), v) is not True:
            R.bad(rule, con, f"result is not a piecewise function: {v!r}"[:300])
            return
        c, d = pw(s, P, v)
        if has_top(d):
            raise Unknown("imprecise")
        if not all(isinstance(q, list) for q in c):
            raise Unknown("cells")
        got = {repr(a): b for a, b in zip(c, d)}
        exp = {repr(a): b for a, b in zip(cellsdata(cells), want)}
        bad = [k for k in exp if k not in got or any(not data_eq(a, exp[k]) for a in each_alt(got[k]))]
        bad += [k for k in got if k not in exp]
        R.ob(not bad, rule, con, lambda: f"on cell {bad[0]} gives {got.get(bad[0])!r}, expected {exp.get(bad[0])!r}"[:600])
        td = s.data(s.call(P("tdim"), v))
        R.ob(td == tdim or td == Rat.const(tdim), rule + "-tdim", con, f"tdim becomes {td!r}")
    R.guard(rule, con, go, sess=s)


def fns(s, kind, name, k, tdim):
    if kind == "scalar":
        return s.fn_atom(f"{name}{k}")
    if kind == "vector":
        return [s.fn_atom(f"{name}{k}_{i}") for i in range(tdim)]
    return [[s.fn_atom(f"{name}{k}_{i}{j}") for j in range(tdim)] for i in range(tdim)]


def comp(op, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return [comp(op, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [comp(op, x, b) for x in a]
    if isinstance(b, list):
        return [comp(op, a, y) for y in b]
    return op(a, b)


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def operators(R, s, P, tdim):
    cells = CELLS[tdim]
    n = len(cells)
    for kind in ("scalar", "vector", "matrix"):
        A = [fns(s, kind, "f", k, tdim) for k in range(n)]
        B = [fns(s, kind, "g", k, tdim) for k in range(n)]
        S = [fns(s, "scalar", "h", k, tdim) for k in range(n)]
        V = [fns(s, "vector", "v", k, tdim) for k in range(n)]
        fa, fb, fs, fv = (make(s, P, cells, q, tdim) for q in (A, B, S, V))
        plain = fns(s, kind, "p", 0, tdim)
        pl = {"scalar": s.scalar, "vector": s.vector, "matrix": s.matrix}[kind](plain)
        sc = fns(s, "scalar", "q", 0, tdim)
        scv = s.scalar(sc)
        con = lambda a, o, b: f"{F}: {kind} {a} {o} {b} ({tdim}D)"
        for op in ("add", "sub"):
            pw_eq(R, s, P, "operator", con("piecewise", op, "piecewise"), lambda: s.call(P(op), fa, fb), cells,
                  [comp(OPS[op], a, b) for a, b in zip(A, B)], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", op, "plain"), lambda: s.call(P(op), fa, pl), cells,
                  [comp(OPS[op], a, plain) for a in A], tdim)
            pw_eq(R, s, P, "operator", con("plain", op, "piecewise"), lambda: s.call(P(op), pl, fa), cells,
                  [comp(OPS[op], plain, a) for a in A], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", "__r" + op + "__", "piecewise"),
                  lambda: s.meth(fa, "__r" + op + "__", fb), cells, [comp(OPS[op], b, a) for a, b in zip(A, B)], tdim)
        for op, m in (("mul", "__rmul__"), ("div", "__rtruediv__")):
            pw_eq(R, s, P, "operator", con("piecewise", op, "scalar piecewise"), lambda: s.call(P(op), fa, fs), cells,
                  [comp(OPS[op], a, b) for a, b in zip(A, S)], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", op, "scalar"), lambda: s.call(P(op), fa, scv), cells,
                  [comp(OPS[op], a, sc) for a in A], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", op, "int"), lambda: s.call(P(op), fa, 2), cells,
                  [comp(OPS[op], a, Rat.const(2)) for a in A], tdim)
            if op == "mul" or kind == "scalar":
                pw_eq(R, s, P, "operator", con("scalar", op, "piecewise"), lambda: s.call(P(op), scv, fa), cells,
                      [comp(OPS[op], sc, a) for a in A], tdim)
                pw_eq(R, s, P, "operator", con("piecewise", m, "scalar piecewise"), lambda: s.meth(fa, m, fs), cells,
                      [comp(OPS[op], b, a) for a, b in zip(A, S)], tdim)
        pw_eq(R, s, P, "operator", con("piecewise", "**", "2"), lambda: s.call(P("power"), fa, 2), cells,
              [comp(lambda a, b: a * a, a, R1) for a in A], tdim)
        pw_eq(R, s, P, "operator", con("", "neg", "piecewise"), lambda: s.call(P("neg"), fa), cells,
              [comp(lambda a, b: -a, a, R1) for a in A], tdim)
        if kind == "matrix":
            pw_eq(R, s, P, "operator", con("piecewise", "@", "piecewise"), lambda: s.call(P("matmul"), fa, fb), cells,
                  [matmul(a, b) for a, b in zip(A, B)], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", "@", "matrix"), lambda: s.call(P("matmul"), fa, pl), cells,
                  [matmul(a, plain) for a in A], tdim)
            pw_eq(R, s, P, "operator", con("matrix", "@", "piecewise"), lambda: s.call(P("matmul"), pl, fa), cells,
                  [matmul(plain, a) for a in A], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", "__rmatmul__", "piecewise"), lambda: s.meth(fa, "__rmatmul__", fb), cells,
                  [matmul(b, a) for a, b in zip(A, B)], tdim)
            pw_eq(R, s, P, "operator", con("piecewise", "@", "vector piecewise"), lambda: s.call(P("matmul"), fa, fv), cells,
                  [matvec(a, b) for a, b in zip(A, V)], tdim)
        # the operands keep their values
        pw_eq(R, s, P, "operands-unchanged", con("piecewise", "left", ""), lambda: fa, cells, A, tdim)
        pw_eq(R, s, P, "operands-unchanged", con("piecewise", "right", ""), lambda: fb, cells, B, tdim)
        # equality
        true_(R, s, "equal", con("piecewise", "==", "itself"), lambda: s.call(P("eq"), fa, make(s, P, cells, A, tdim)), True)
        true_(R, s, "equal", con("piecewise", "!=", "itself"), lambda: s.call(P("ne"), fa, make(s, P, cells, A, tdim)), False)
        for k in range(n):
            C = A[:k] + [comp(lambda a, b: a + b, A[k], R1)] + A[k + 1:]
            true_(R, s, "unequal", con("piecewise", "==", f"piece {k} changed"),
                  lambda: s.call(P("eq"), fa, make(s, P, cells, C, tdim)), False)
            true_(R, s, "unequal", con("piecewise", "!=", f"piece {k} changed"),
                  lambda: s.call(P("ne"), fa, make(s, P, cells, C, tdim)), True)
        for v, nm in ((pl, "plain"), (3, "int")):
            true_(R, s, "unequal", con("piecewise", "==", nm), lambda: s.call(P("eq"), fa, v), False)
        moved = [tuple(tuple(q + 1 if i == 0 else q for i, q in enumerate(v)) for v in c) for c in cells]
        fmv = make(s, P, moved, A, tdim)
        try:
            r = s.call(P("eq"), fa, fmv)
            if isinstance(r, bool):
                R.ob(r is False, "unequal", con("piecewise", "==", "on other cells"), f"gives {r!r}")
        except Dead:
            R.ok("unequal", con("piecewise", "==", "on other cells"))
        for op in ("add", "sub"):
            refuses(R, s, "operator-rejects", con("piecewise", op, "on other cells"), lambda: s.call(P(op), fa, fmv))
            refuses(R, s, "operator-rejects", con("piecewise", "__r" + op + "__", "on other cells"), lambda: s.meth(fa, "__r" + op + "__", fmv))
        fsm = make(s, P, moved, S, tdim)
        for op, m in (("mul", "__rmul__"), ("div", "__rtruediv__")):
            refuses(R, s, "operator-rejects", con("piecewise", op, "scalar piecewise on other cells"), lambda: s.call(P(op), fa, fsm))
            if op == "mul" or kind == "scalar":
                refuses(R, s, "operator-rejects", con("piecewise", m, "scalar piecewise on other cells"), lambda: s.meth(fa, m, fsm))
        if kind == "matrix":
            refuses(R, s, "operator-rejects", con("piecewise", "@", "piecewise on other cells"), lambda: s.call(P("matmul"), fa, fmv))
            refuses(R, s, "operator-rejects", con("piecewise", "__rmatmul__", "piecewise on other cells"), lambda: s.meth(fa, "__rmatmul__", fmv))
        if n > 1:
            sub = make(s, P, cells[:-1], A[:-1], tdim)
            for a, b, nm in ((fa, sub, "fewer pieces"), (sub, fa, "more pieces")):
                con2 = con("piecewise", "==", nm)
                try:
                    r = s.call(P("eq"), a, b)
                    R.ob(r is False, "unequal", con2, f"gives {r!r}") if isinstance(r, bool) else R.unknown("unequal", con2, r)
                except Dead:
                    R.ok("unequal", con2)
                refuses(R, s, "operator-rejects", con("piecewise", "+", nm), lambda: s.call(P("add"), a, b))


def calculus(R, s, P, tdim):
    cells = CELLS[tdim]
    n = len(cells)
    xs = X(3)
    S = [fns(s, "scalar", "f", k, tdim) for k in range(n)]
    V = [fns(s, "vector", "v", k, tdim) for k in range(n)]
    M = [fns(s, "matrix", "m", k, tdim) for k in range(n)]
    W = fns(s, "vector", "w", 9, tdim)
    fs, fv, fm = make(s, P, cells, S, tdim), make(s, P, cells, V, tdim), make(s, P, cells, M, tdim)
    con = lambda m: f"{F}.{m} ({tdim}D)"

    def D(d, i):
        return [D(q, i) for q in d] if isinstance(d, list) else rdiff(d, sid(xs[i]))
    for i in range(3):
        for nm, f, d in (("scalar", fs, S), ("vector", fv, V), ("matrix", fm, M)):
            pw_eq(R, s, P, "calculus", con(f"diff(x[{i}]) of {nm}"), lambda: s.call(P("diff"), f, i), cells, [D(q, i) for q in d], tdim)
    pw_eq(R, s, P, "calculus", con("grad"), lambda: s.meth(fs, "grad", tdim), cells, [[D(q, i) for i in range(tdim)] for q in S], tdim)
    pw_eq(R, s, P, "calculus", con("jacobian"), lambda: s.meth(fs, "jacobian", tdim), cells,
          [[[D(D(q, i), j) for j in range(tdim)] for i in range(tdim)] for q in S], tdim)
    pw_eq(R, s, P, "calculus", con("jacobian_component"), lambda: s.meth(fs, "jacobian_component", s.tup(0, tdim - 1)), cells,
          [D(D(q, 0), tdim - 1) for q in S], tdim)
    dv = [sym(f"d{i}") for i in range(tdim)]
    pw_eq(R, s, P, "calculus", con("directional_derivative"), lambda: s.meth(fs, "directional_derivative", s.tup(*dv)), cells,
          [sum((a * D(q, i) for i, a in enumerate(dv)), R0) for q in S], tdim)
    pw_eq(R, s, P, "calculus", con("div"), lambda: s.meth(fv, "div"), cells,
          [sum((D(v[i], i) for i in range(tdim)), R0) for v in V], tdim)
    pw_eq(R, s, P, "calculus", con("dot of vectors"), lambda: s.meth(fv, "dot", s.vector(W)), cells,
          [sum((a * b for a, b in zip(v, W)), R0) for v in V], tdim)
    pw_eq(R, s, P, "calculus", con("norm"), lambda: s.meth(fv, "norm"), cells,
          [rsqrt(sum((a * a for a in v), R0)) for v in V], tdim)
    pw_eq(R, s, P, "calculus", con("det"), lambda: s.meth(fm, "det"), cells, [rdet(m) for m in M], tdim)
    pw_eq(R, s, P, "calculus", con("transpose"), lambda: s.meth(fm, "transpose"), cells, [transpose(m) for m in M], tdim)
    if tdim == 3:
        def curl(v):
            return [D(v[2], 1) - D(v[1], 2), D(v[0], 2) - D(v[2], 0), D(v[1], 0) - D(v[0], 1)]
        pw_eq(R, s, P, "calculus", con("curl"), lambda: s.meth(fv, "curl"), cells, [curl(v) for v in V], tdim)
        cr = lambda v, w: [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
        pw_eq(R, s, P, "calculus", con("cross"), lambda: s.meth(fv, "cross", s.vector(W)), cells, [cr(v, W) for v in V], tdim)
    if tdim == 2:
        pw_eq(R, s, P, "calculus", con("cross"), lambda: s.meth(fv, "cross", s.vector(W)), cells,
              [v[0] * W[1] - v[1] * W[0] for v in V], tdim)
    for i in range(tdim):
        pw_eq(R, s, P, "indexing", con(f"[{i}]"), lambda: s.call(P("item"), fv, i), cells, [v[i] for v in V], tdim)
    if tdim > 1:
        eq(R, s, "indexing", con("len"), lambda: s.call(P("length"), fv), tdim)
    refuses(R, s, "refuses", con("len of scalar"), lambda: s.call(P("length"), fs))
    for m in ("det", "transpose"):
        refuses(R, s, "refuses", con(m + " of vector"), lambda: s.meth(fv, m))
    # values of another size than the dimension of the cells
    for size in (1, 2, 3, 4):
        if size != tdim:
            U = [[s.fn_atom(f"u{k}_{i}") for i in range(size)] for k in range(n)]
            fu = make(s, P, cells, U, tdim)
            eq(R, s, "indexing", con(f"len of {size} components"), lambda: s.call(P("length"), fu), size)
            for i in range(size):
                pw_eq(R, s, P, "indexing", con(f"[{i}] of {size} components"), lambda: s.call(P("item"), fu, i), cells, [u[i] for u in U], tdim)
            for nm, th, want in (("norm", lambda: s.meth(fu, "norm"), [rsqrt(sum((a * a for a in u), R0)) for u in U]),
                                 ("diff(x[0])", lambda: s.call(P("diff"), fu, 0), [D(u, 0) for u in U]),
                                 ("*2", lambda: s.call(P("mul"), fu, 2), [comp(lambda a, b: a * b, u, Rat.const(2)) for u in U])):
                pw_eq(R, s, P, "indexing", con(f"{nm} of {size} components"), th, cells, want, tdim)
    for g in (1, 2, 3):
        if g != tdim:
            pw_eq(R, s, P, "calculus", con(f"grad in {g} variables"), lambda: s.meth(fs, "grad", g), cells, [[D(q, i) for i in range(g)] for q in S], tdim)
            pw_eq(R, s, P, "calculus", con(f"jacobian in {g} variables"), lambda: s.meth(fs, "jacobian", g), cells,
                  [[[D(D(q, i), j) for j in range(g)] for i in range(g)] for q in S], tdim)
    # the explicit form lists every piece, or the common function
    if n > 1:
        for k in range(n):
            Q = [S[0]] * k + [S[0] + R1] + [S[0]] * (n - 1 - k)

            def explicit():
                v = s.call(P("sympied"), make(s, P, cells, Q, tdim))
                isd = s.call(P("is_dict"), v)
                if isd is not True:
                    if isd is False:
                        R.bad("explicit", con(f"as_sympy with piece {k} different"), f"gives one function {s.data(v)!r}")
                    return
                R.ok("explicit", con(f"as_sympy with piece {k} different"))
            R.guard("explicit", con(f"as_sympy with piece {k} different"), explicit, sess=s)
        eq(R, s, "explicit", con("as_sympy of equal pieces"), lambda: s.call(P("sympied"), make(s, P, cells, [S[0]] * n, tdim)), S[0])
    # flags
    for nm, f in (("scalar", fs), ("vector", fv), ("matrix", fm)):
        for k in ("scalar", "vector", "matrix"):
            true_(R, s, "kind", con(f"is_{k} of {nm}"), lambda: s.attr(f, "is_" + k), k == nm)
    if n > 1:
        refuses(R, s, "refuses", con("mixed scalar and vector pieces"),
                lambda: make(s, P, cells, [S[0]] + [V[1]] * (n - 1), tdim))
    # substitution of non-constant values is piece by piece
    p = [sym(f"p{i}") for i in range(3)]

    def sub(d, mp):
        return [sub(q, mp) for q in d] if isinstance(d, list) else rsubs(d, mp)
    if tdim > 1:
        vals = [xs[(i + 1) % tdim] + R1 for i in range(tdim)]
        mp = {sid(a): b for a, b in zip(xs, vals)}
        pw_eq(R, s, P, "substitution", con("subs(x, shifted)"), lambda: s.call(P("subs_x"), fs, s.tup(*vals)), cells,
              [sub(q, mp) for q in S], tdim)
        pw_eq(R, s, P, "substitution", con("subs(x, shifted) of vector"), lambda: s.call(P("subs_x"), fv, s.vector(vals)), cells,
              [sub(q, mp) for q in V], tdim)
    for g in (1, 2, 3):
        if g < tdim:
            pw_eq(R, s, P, "substitution", con(f"subs of {g} variables by numbers"), lambda: s.call(P("subs_list"), fs, g, s.tup(*[Rat.const(Fr(1, 7))] * g)),
                  cells, [sub(q, {sid(xs[i]): Rat.const(Fr(1, 7)) for i in range(g)}) for q in S], tdim)
    pw_eq(R, s, P, "substitution", con("subs(x[0], y + 1)"), lambda: s.call(P("subs1"), fs, 0, s.num(xs[1] + R1)), cells,
          [sub(q, {sid(xs[0]): xs[1] + R1}) for q in S], tdim)


def inside(cell, p, kind):
    """Exact closed containment, by orientation signs (independent of the implementation)."""
    if kind == "quad":
        a, b, c, d = cell
        loop = [a, b, d, c]
        sg = []
        for i in range(4):
            u, v = loop[i], loop[(i + 1) % 4]
            sg.append((v[0] - u[0]) * (p[1] - u[1]) - (v[1] - u[1]) * (p[0] - u[0]))
        return all(q >= 0 for q in sg) or all(q <= 0 for q in sg)
    n = len(cell) - 1
    A = [[Fr(cell[j + 1][i] - cell[0][i]) for j in range(n)] for i in range(n)]

    def dt(m):
        return m[0][0] if len(m) == 1 else sum((-1) ** j * m[0][j] * dt([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))
    dd = dt(A)
    r = [Fr(p[i]) - cell[0][i] for i in range(n)]
    l = [dt([[r[i] if k == j else A[i][k] for k in range(n)] for i in range(n)]) / dd for j in range(n)]
    return all(q >= 0 for q in l) and sum(l) <= 1


def turned(cells):
    """The same cells with their vertices listed in another order."""
    k = [1, 2, 0, 3]
    return [tuple(c[i] for i in (k[:3] if len(c) == 3 else [1, 0] if len(c) == 2 else [3, 1, 0, 2])) if j % 2 else tuple(reversed(c))
            for j, c in enumerate(cells)]


def evaluation(R, s, P, tdim):
    import itertools
    for cells, kind in ((CELLS[tdim], "simplex"), (turned(CELLS[tdim]), "simplex")) + (((QUADS, "quad"),) if tdim == 2 else ()):
        n = len(cells)
        c = Rat.const
        xs = X(3)
        # distinct constant marker plus opaque function per piece
        S = [s.fn_atom(f"f{k}", tdim) for k in range(n)]
        f = make(s, P, cells, S, tdim)
        V = [[s.fn_atom(f"v{k}{i}", tdim) for i in range(tdim)] for k in range(n)]
        fv = make(s, P, cells, V, tdim)
        den = 6 if tdim < 3 else 4
        grid = [Fr(i, den) for i in range(-1, den + 2)]
        if tdim == 3:
            grid = [Fr(i, den) for i in (-1, 0, 1, 2, 4)]
        for p in itertools.product(grid, repeat=tdim):
            home = [k for k in range(n) if inside(cells[k], p, kind)]
            con = f"{F}.get_piece({tuple(map(str, p))}) on {len(cells[0])}-vertex cells, {tdim}D" + (", turned" if cells != CELLS[tdim] and kind == "simplex" else "")
            if not home:
                if sum(1 for q in p if 0 <= q <= 1) >= tdim - 1:
                    refuses(R, s, "outside", con, lambda: s.meth(f, "get_piece", s.tup(*map(c, p))))
                continue

            def go(g, D, how, thunk):
                v = thunk()
                got = s.data(v)
                if has_top(got):
                    raise Unknown("imprecise")
                mp = {sid(x): c(q) for x, q in zip(xs, p)} if how == "subs" else {}
                S_ = lambda d: [S_(e) for e in d] if isinstance(d, list) else rsubs(d, mp)
                ok = [S_(D[k]) for k in home]
                bad = [a for a in each_alt(got) if not any(data_eq(a, o) for o in ok)]
                R.ob(not bad, "evaluation", con + " " + how, lambda: f"gives {bad[0]!r}; the point is in piece {home}"[:400])
            R.guard("evaluation", con, lambda: go(f, S, "piece", lambda: s.meth(f, "get_piece", s.tup(*map(c, p)))), sess=s)
            if len(home) == 1:
                R.guard("evaluation", con, lambda: go(f, S, "subs", lambda: s.call(P("subs_n"), f, tdim, s.tup(*map(c, p)))), sess=s)
                R.guard("evaluation", con, lambda: go(fv, V, "subs", lambda: s.call(P("subs_n"), fv, tdim, s.tup(*map(c, p)))), sess=s)


def integral(R, s, P, tdim):
    """Integral over the whole cell, over each piece's cell and over boundary entities = sum over the pieces inside."""
    t0 = [sym(f"t{i}") for i in range(3)]
    cases = [(CELLS[tdim], NAMES[tdim])]
    if tdim == 2:
        cases.append((QUADS, "quadrilateral"))
    for cells, cname in cases:
        n = len(cells)
        S = [s.fn_atom(f"f{k}", tdim) for k in range(n)]
        f = make(s, P, cells, S, tdim)
        dom = s.ref(cname)
        create = s.get("symfem.create.create_reference")

        def whole(k, cell):
            r = s.call(create, cname, cell_value(s, cell))
            return s.data(s.meth(s.scalar(S[k]), "integral", r))

        def go():
            got = s.data(s.meth(f, "integral", dom))
            want = sum((whole(k, c) for k, c in enumerate(cells)), R0)
            if has_top(got) or has_top(want):
                raise Unknown("imprecise")
            R.ob(data_eq(got, want), "integral", f"{F}.integral over {cname}", lambda: f"gives {got!r}, expected {want!r}"[:600])
        R.guard("integral", f"{F}.integral over {cname}", go, sess=s)
        for k, c in enumerate(cells):
            def go2():
                r = s.call(create, cname, cell_value(s, c))
                got = s.data(s.meth(f, "integral", r))
                want = whole(k, c)
                if has_top(got) or has_top(want):
                    raise Unknown("imprecise")
                R.ob(data_eq(got, want), "integral", f"{F}.integral over cell {k} of {cname}", lambda: f"gives {got!r}, expected {want!r}"[:600])
            R.guard("integral", f"{F}.integral over cell {k} of {cname}", go2, dead=None, sess=s)


    # parts of a piece: one of its outer facets, and a smaller cell inside it
    if tdim > 1:
        cells = CELLS[tdim]
        S = [s.fn_atom(f"f{k}", tdim) for k in range(len(cells))]
        f = make(s, P, cells, S, tdim)
        create = s.get("symfem.create.create_reference")
        parts = []
        for k, c in enumerate(cells):
            mid = tuple(sum(Fr(v[i]) for v in c) / len(c) for i in range(tdim))
            parts.append((k, NAMES[tdim], tuple(tuple((Fr(v[i]) + mid[i]) / 2 for i in range(tdim)) for v in c), "a cell inside"))
            parts.append((k, NAMES[tdim - 1], c[:-1], "the outer facet"))
        for k, nm, c, what in parts:
            con = f"{F}.integral over {what} of piece {k} ({tdim}D)"

            def go3():
                r = s.call(create, nm, cell_value(s, c))
                got = s.data(s.meth(f, "integral", r))
                want = s.data(s.meth(s.scalar(S[k]), "integral", r))
                if has_top(got) or has_top(want):
                    raise Unknown("imprecise")
                R.ob(data_eq(got, want), "integral", con, lambda: f"gives {got!r}, expected {want!r}"[:600])
            R.guard("integral", con, go3, dead=None, sess=s)


def mapped(R, s, P, tdim):
    """map_pieces moves the cells and keeps the functions."""
    cells = CELLS[tdim]
    S = [s.fn_atom(f"f{k}", tdim) for k in range(len(cells))]
    xs = X(3)
    A = [[Rat.const(q) for q in r] for r in ([2, 1, 0], [0, 3, 1], [1, 0, 2])]
    b = [Rat.const(q) for q in (1, -1, 2)]
    fwd = [b[i] + sum((A[i][j] * xs[j] for j in range(tdim)), R0) for i in range(tdim)]
    f = make(s, P, cells, S, tdim)
    img = [tuple(tuple(Fr(rsubs(g, {sid(x): Rat.const(q) for x, q in zip(xs, v)}).const_value()) for g in fwd) for v in c) for c in cells]

    def go():
        s.meth(f, "map_pieces", s.tup(*fwd))
        return f
    pw_eq(R, s, P, "map-pieces", f"{F}.map_pieces ({tdim}D)", go, img, S, tdim)


def one(R, item):
    name, arg = item
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    globals()[name](R, s, lambda n: s.attr(m, n), arg)
    R.absorb(s)


def run(R):
    R.floor = 300
    R.explanation = ("Abstract interpretation of piecewise functions with opaque pieces on concrete subdivisions of the "
                     "interval, triangle, quadrilateral and tetrahedron: operators, calculus, indexing, substitution, "
                     "equality and integration are compared with the pieces' own values; piece selection is compared with "
                     "exact containment on a point grid.")
    from sa.report import parallel
    parallel(R, one, [(n, d) for d in (3, 2, 1) for n in ("evaluation", "operators", "calculus", "integral", "mapped")])
