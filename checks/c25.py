"""Comparing helpers, point parsing and the identity of cells."""
from checks.elements import *
from checks.common import eq, true_, refuses, fvec, fmat
from checks.c17 import cell_vertices
from fractions import Fraction as Fr

PROBE = '''
import sympy
import symfem
from symfem.utils import allequal
from symfem.geometry import parse_point_input, parse_set_of_points_input
from symfem.functions import VectorFunction, MatrixFunction, ScalarFunction
def equal(a, b): return True if allequal(a, b) else False
def point(p): return parse_point_input(p)
def points(p): return parse_set_of_points_input(p)
def column(l): return parse_point_input(sympy.Matrix([[i] for i in l]))
def row(l): return parse_point_input(sympy.Matrix([l]))
def bad_matrix(a, b, c, d): return parse_point_input(sympy.Matrix([[a, b], [c, d]]))
def table(l): return parse_set_of_points_input([sympy.Matrix([[i] for i in r]) for r in l])
def scalar(f): return ScalarFunction(f)
def reference(cell, vs): return symfem.create_reference(cell, vs)
def same(a, b): return a == b
def different(a, b): return a != b
def hashes(a, b): return hash(a) == hash(b)
'''

CELLS7 = ["point", "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]


class Groups:
    """Unequal items reported as equal, gathered by the defect that makes them so."""

    def __init__(self, R, s, S):
        self.R, self.s, self.S, self.found = R, s, S, {}

    def __call__(self, con, a, b, want, group=None):
        R, s = self.R, self.s

        def go():
            v = s.call(self.S("equal"), a(), b())
            alts = [x for _, x in v.alts] if isinstance(v, Phi) else [v]
            if not all(isinstance(x, bool) for x in alts):
                raise Unknown(repr(v)[:120])
            if not want and group and True in alts:
                self.found.setdefault(group, []).append(con)
                return
            R.ob(all(x is want for x in alts), "allequal", con, f"gives {alts[0]}")
        R.guard("allequal", con, go, sess=s)

    def report(self):
        for g in ("b is an expression", "sequences of different lengths"):
            got = self.found.get(g, [])
            self.R.ob(not got, "allequal", g, lambda: f"unequal items are reported as equal: {'; '.join(got[:4])}", "symfem/utils.py")


def comparing(R, s, S):
    G = Groups(R, s, S)
    x, y, z = X(3)
    f, g = x * x * y - z, x - Rat.const(2) * y
    n = lambda c: s.num(Rat.const(c), "int")
    q = lambda a, b: s.num(Rat.const(Fr(a, b)))
    sc, vec, mat = s.scalar, s.vector, s.matrix
    e = s.num
    vals = [("f", lambda: e(f), lambda: sc(f)), ("g", lambda: e(g), lambda: sc(g)), ("x*y + 1", lambda: e(x * y + R1), lambda: sc(x * y + R1)),
            ("1", lambda: n(1), lambda: sc(R1)), ("2/3", lambda: q(2, 3), lambda: sc(Rat.const(Fr(2, 3)))), ("x + y", lambda: e(x + y), lambda: sc(x + y))]
    for i, (a, ea, fa) in enumerate(vals):
        for j, (b, eb, fb) in enumerate(vals):
            for ka, ma in (("", ea), (" as a function", fa)):
                for kb, mb in (("", eb), (" as a function", fb)):
                    G(f"{a}{ka} and {b}{kb}", ma, mb, i == j, None if kb or b == "1" else "b is an expression")
    L = lambda *a: s.lst(*a)
    T = lambda *a: s.tup(*a)
    F, H = sc(f), sc(g)
    lists = [("[f, g]", lambda w: w(F, H)), ("[f, f]", lambda w: w(F, F)), ("[f]", lambda w: w(F)), ("[]", lambda w: w()),
             ("[f, g, f]", lambda w: w(F, H, F)), ("[g, f]", lambda w: w(H, F)), ("[1, 2]", lambda w: w(n(1), n(2))),
             ("[1, 3]", lambda w: w(n(1), n(3))), ("[[f, g], [g]]", lambda w: w(w(F, H), w(H))), ("[[f, g], [g, f]]", lambda w: w(w(F, H), w(H, F))),
             ("[[f], [g]]", lambda w: w(w(F), w(H))), ("[[f, g], [f]]", lambda w: w(w(F, H), w(F))),
             ("[[]]", lambda w: w(w())), ("[[f, g]]", lambda w: w(w(F, H))), ("[[f], [g], []]", lambda w: w(w(F), w(H), w()))]
    pairs = lambda a, b: all(pairs(i, j) for i, j in zip(a, b)) if isinstance(a, list) and isinstance(b, list) else a == b
    names = lambda a: eval(a, {"f": "f", "g": "g"})
    for a, ma in lists:
        for b, mb in lists:
            if any("[]" in q[1:] and not r.startswith("[[") and r != "[]" for q, r in ((a, b), (b, a))):
                continue        # an empty list against a function
            for wa, wb in ((L, L), (T, T), (L, T), (T, L)):
                G(f"{a} and {b}, {'list' if wa is L else 'tuple'} and {'list' if wb is L else 'tuple'}", lambda: ma(wa), lambda: mb(wb), a == b,
                  "sequences of different lengths" if pairs(names(a), names(b)) else None)
    for k in (0, 1):
        G(f"lists of expressions, equal ({k})", lambda: L(e(f), e(g)), lambda: T(e(f), e(g)), True)
        G(f"lists of expressions, unequal ({k})", lambda: L(e(f), e(g)), lambda: T(*([e(g), e(g)] if k else [e(f), e(f)])), False, "b is an expression")
    v, w = [x, x * y], [x, x * z]
    m, k = [[x, y], [z, R1]], [[x, y], [z, Rat.const(2)]]
    objs = [("vector v", lambda: vec(v)), ("vector w", lambda: vec(w)), ("vector v of swapped parts", lambda: vec(v[::-1])), ("3D vector", lambda: vec(v + [z])),
            ("matrix m", lambda: mat(m)), ("matrix k", lambda: mat(k)), ("transposed m", lambda: mat(transpose(m))), ("scalar f", lambda: sc(f))]
    for a, ma in objs:
        for b, mb in objs:
            G(f"{a} and {b}", ma, mb, a == b)
            G(f"[{a}, f] and [{b}, f]", lambda: L(ma(), F), lambda: L(mb(), F), a == b)
            G(f"[f, {a}] and [f, {b}]", lambda: L(F, ma()), lambda: L(F, mb()), a == b)
    for a, ma in objs[:2] + objs[4:6]:
        G(f"{a} and f", ma, lambda: e(f), False, "b is an expression")
        G(f"f and {a}", lambda: e(f), ma, False)
    G.report()


def parsing(R, s, S):
    p = [sym("p"), Rat.const(2), sym("q") * sym("q")]
    for d in (0, 1, 2, 3):
        for nm, w in (("tuple", s.tup), ("list", s.lst)):
            eq(R, s, "parse_point_input", f"{nm} of {d}", lambda: s.call(S("point"), w(*p[:d])), p[:d])
        if d:
            for nm in ("column", "row"):
                eq(R, s, "parse_point_input", f"{nm} matrix of {d}", lambda: s.call(S(nm), s.lst(*p[:d])), p[:d])
    eq(R, s, "parse_point_input", "integers", lambda: s.call(S("point"), s.tup(s.num(Rat.const(3), "int"), s.num(Rat.const(-1), "int"))), [Rat.const(3), Rat.const(-1)])
    refuses(R, s, "parse_point_input", "2 by 2 matrix", lambda: s.call(S("bad_matrix"), *[s.num(sym(c)) for c in "abcd"]))
    for n in (0, 1, 3):
        want = [[sym(f"p{i}{j}") for j in range(2)] for i in range(n)]
        for a in (s.tup, s.lst):
            for b in (s.tup, s.lst):
                eq(R, s, "parse_set_of_points_input", f"{n} points", lambda: s.call(S("points"), a(*[b(*r) for r in want])), want)
        if n:
            eq(R, s, "parse_set_of_points_input", f"{n} column matrices", lambda: s.call(S("table"), s.lst(*[s.lst(*r) for r in want])), want)


def cells(R, s, S):
    """Two cells are equal exactly when shape and vertices (in order) agree, and then hash alike."""
    refs = []
    for c in CELLS7:
        refs.append((c, lambda c=c: s.ref(c)))
        if c != "point":
            vs = cell_vertices(c)[1] if c not in ("prism", "pyramid") else prism_like(c)
            refs.append((f"{c} moved", lambda c=c, vs=vs: s.call(S("reference"), c, s.tup(*[s.tup(*v) for v in vs]))))
            refs.append((f"{c} moved, as lists", lambda c=c, vs=vs: s.call(S("reference"), c, s.lst(*[s.lst(*v) for v in vs]))))
            sw = [vs[1], vs[0]] + vs[2:]
            if c in ("interval", "triangle", "tetrahedron"):
                refs.append((f"{c} moved, vertices swapped", lambda c=c, sw=sw: s.call(S("reference"), c, s.tup(*[s.tup(*v) for v in sw]))))
    for a, ma in refs:
        for b, mb in refs:
            want = a.replace(", as lists", "") == b.replace(", as lists", "")
            true_(R, s, "equal cells", f"{a} == {b}", lambda: s.call(S("same"), ma(), mb()), want)
            true_(R, s, "equal cells", f"{a} != {b}", lambda: s.call(S("different"), ma(), mb()), not want)
            if want:
                true_(R, s, "equal cells hash alike", f"{a} and {b}", lambda: s.call(S("hashes"), ma(), mb()), True)
    for a, ma in refs[:4]:
        for o, mo in (("a number", lambda: s.num(Rat.const(1), "int")), ("its name", lambda: "triangle"), ("None", lambda: None), ("a tuple", lambda: s.tup())):
            true_(R, s, "equal cells", f"{a} == {o}", lambda: s.call(S("same"), ma(), mo()), False)


def prism_like(c):
    V = [[Rat.const(q) for q in r] for r in ((1, 0, 2), (4, 1, 2), (0, 3, 1), (2, 1, 6))]
    d = [[a - b for a, b in zip(v, V[0])] for v in V[1:]]
    add = lambda *ds: [sum(q, R0) for q in zip(V[0], *ds)]
    if c == "prism":
        return V + [add(d[0], d[2]), add(d[1], d[2])]
    return V[:3] + [add(d[0], d[1])] + V[3:]


def run(R):
    R.floor = 100
    R.explanation = ("Abstract interpretation of the helpers on opaque functions, symbolic points and every cell: which values compare equal, what points "
                     "parse to, and when cells are equal.")
    for f in (comparing, parsing, cells):
        s = session(R)
        m = s.probe(PROBE, "helper_probe_")
        S = lambda n: s.attr(m, n)
        f(R, s, S)
        R.absorb(s)
