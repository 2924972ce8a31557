"""Basis functions (lazy, and substituted) behave exactly as the function they stand for."""
from sa.query import *
from sa.query import det as rdet
from checks.common import *

B = "symfem.basis_functions."
E = "symfem.finite_element.ElementBasisFunction"

PROBE = '''
import sympy
def sympy_matrix(a): return sympy.Matrix(a)
from symfem.finite_element import ElementBasisFunction, FiniteElement
from symfem.functions import ScalarFunction, VectorFunction, MatrixFunction, parse_function_input, _to_sympy_format
from symfem.symbols import x, t
class Element:
    def __init__(self, fs, range_dim, range_shape):
        self.fs = fs
        self.range_dim = range_dim
        self.range_shape = range_shape
        self.calls = 0
    def get_basis_functions(self, *a, **k):
        self.calls += 1
        return self.fs
def lazy(fs, rd, rs, n): return ElementBasisFunction(Element(fs, rd, rs), n)
def from_element(fs, rd, rs, n): return FiniteElement.get_basis_function(Element(fs, rd, rs), n)
def used(f): return f.element.calls
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def div(a, b): return a / b
def matmul(a, b): return a @ b
def power(a, b): return a ** b
def neg(a): return -a
def eq(a, b): return a == b
def ne(a, b): return a != b
def item(a, i): return a[i]
def length(a): return len(a)
def listed(a): return [i for i in a]
def nested(a): return [[i * j for j in a] for i in a]
def subs_x(f, b): return f.subs(x, b)
def subs1(f, i, v): return f.subs(x[i], v)
def diff(f, i): return f.diff(x[i])
def integrate(f, *l): return f.integrate(*l)
def vector_of(*a): return VectorFunction(a)
def matrix_of(rows): return MatrixFunction(rows)
def parse(f): return parse_function_input(f)
def sym(f): return _to_sympy_format(f)
def shape(f): return f.shape
def integral(f, r): return f.integral(r)
def integral_over(f, r, v): return f.integral(r, v)
'''

RS = {"scalar": (1, None), "vector": (2, None), "vectorshape": (2, (2,)), "matrix": (4, (2, 2))}


def behaviour(R, s, P, con, L, plain, d, kind):
    """Compare every operation on the lazy function L with the same one on the plain function, whose data is d."""
    xs = X(3)
    cmp_ = lambda rule, what, th: compare(R, s, rule, con + what, lambda: th(L), lambda: th(plain))
    g = s.fn_atom("g")
    others = {"scalar": [("ScalarFunction", s.scalar(g)), ("int", 2), ("expr", s.num(g))],
              "vector": [("VectorFunction", s.vector(fvec(s, "w", 2))), ("tuple", s.tup(*fvec(s, "w", 2)))],
              "matrix": [("MatrixFunction", s.matrix(fmat(s, "k", 2, 2)))]}
    for nm, o in others[kind]:
        for op in ("add", "sub"):
            cmp_("operator", f" {op} {nm}", lambda f: s.call(P(op), f, o))
            cmp_("operator", f" r{op} {nm}", lambda f: s.call(P(op), o, f) if nm != "expr" else s.meth(f, "__r" + op + "__", o))
    for nm, o in others["scalar"]:
        for op in ("mul", "div"):
            cmp_("operator", f" {op} {nm}", lambda f: s.call(P(op), f, o))
        cmp_("operator", f" rmul {nm}", lambda f: s.call(P("mul"), o, f) if nm != "expr" else s.meth(f, "__rmul__", o))
        if kind == "scalar":
            cmp_("operator", f" rdiv {nm}", lambda f: s.call(P("div"), o, f) if nm != "expr" else s.meth(f, "__rtruediv__", o))
    if kind in ("vector", "matrix"):
        M = s.matrix(fmat(s, "k", 2, 2))
        cmp_("operator", " @ matrix", lambda f: s.call(P("matmul"), f, M))
        cmp_("operator", " r@ matrix", lambda f: s.call(P("matmul"), M, f))
    for op in ("add", "sub") + (("mul", "div") if kind == "scalar" else ()) + (("matmul",) if kind == "matrix" else ()):
        cmp_("operator", f" {op} itself", lambda f: s.call(P(op), f, f))
    for n in (0, 1, 2):
        cmp_("operator", f" ** {n}", lambda f: s.call(P("power"), f, n))
    cmp_("operator", " neg", lambda f: s.call(P("neg"), f))
    cmp_("conversion", ".as_sympy", lambda f: s.meth(f, "as_sympy"))
    cmp_("conversion", " as sympy format", lambda f: s.call(P("sym"), f))
    for i in range(3):
        cmp_("calculus", f".diff(x[{i}])", lambda f: s.call(P("diff"), f, i))
    p = [sym("p"), sym("q"), sym("r")]
    cmp_("substitution", ".subs(x, p)", lambda f: s.call(P("subs_x"), f, s.tup(*p)))
    cmp_("substitution", ".subs(x, cyclic)", lambda f: s.call(P("subs_x"), f, s.tup(xs[1], xs[2], xs[0])))
    cmp_("substitution", ".subs(x, VectorFunction)", lambda f: s.call(P("subs_x"), f, s.vector(p)))
    cmp_("substitution", ".subs(y, q)", lambda f: s.call(P("subs1"), f, 1, s.num(p[1])))
    true_(R, s, "equal", con + " == its function", lambda: s.call(P("eq"), L, plain), True)
    true_(R, s, "equal", con + " == its function, reflected", lambda: s.call(P("eq"), plain, L), True)
    true_(R, s, "equal", con + " != its function", lambda: s.call(P("ne"), L, plain), False)
    cmp_("conversion", " parsed", lambda f: s.call(P("parse"), f))
    tri = s.ref("triangle")
    if kind == "scalar":
        cmp_("calculus", ".grad(2)", lambda f: s.meth(f, "grad", 2))
        cmp_("calculus", ".jacobian(2)", lambda f: s.meth(f, "jacobian", 2))
        cmp_("calculus", ".jacobian_component", lambda f: s.meth(f, "jacobian_component", s.tup(0, 1)))
        cmp_("calculus", ".directional_derivative", lambda f: s.meth(f, "directional_derivative", s.tup(sym("a"), sym("b"))))
        cmp_("calculus", ".norm", lambda f: s.meth(f, "norm"))
        cmp_("calculus", ".dot", lambda f: s.meth(f, "dot", s.scalar(g)))
        cmp_("calculus", ".dot itself", lambda f: s.meth(f, "dot", f))
        cmp_("calculus", ".integral(triangle)", lambda f: s.call(P("integral"), f, tri))
        cmp_("calculus", ".integrate", lambda f: s.call(P("integrate"), f, s.tup(xs[0], sym("a"), sym("b"))))
        cmp_("conversion", " in VectorFunction", lambda f: s.call(P("vector_of"), f, s.num(g)))
        cmp_("conversion", " in MatrixFunction", lambda f: s.call(P("matrix_of"), s.lst(s.lst(f, s.num(g)), s.lst(s.num(g), f))))
    if kind == "vector":
        cmp_("calculus", ".div", lambda f: s.meth(f, "div"))
        cmp_("calculus", ".norm", lambda f: s.meth(f, "norm"))
        for nm, o in others["vector"]:
            cmp_("calculus", f".dot({nm})", lambda f: s.meth(f, "dot", o))
            cmp_("calculus", f".cross({nm})", lambda f: s.meth(f, "cross", o))
        cmp_("calculus", ".dot itself", lambda f: s.meth(f, "dot", f))
        cmp_("calculus", " VectorFunction.dot", lambda f: s.meth(others["vector"][0][1], "dot", f))
        cmp_("calculus", " VectorFunction.cross", lambda f: s.meth(others["vector"][0][1], "cross", f))
        for i in range(2):
            cmp_("access", f"[{i}]", lambda f: s.call(P("item"), f, i))
        cmp_("access", " iterated", lambda f: s.call(P("listed"), f))
        cmp_("access", " iterated within iteration", lambda f: s.call(P("nested"), f))
        cmp_("access", " len", lambda f: s.call(P("length"), f))
        cmp_("access", ".shape", lambda f: s.call(P("shape"), f))
    mixed(R, s, P, con, L, plain, d, kind)
    if kind == "matrix":
        cmp_("calculus", ".det", lambda f: s.meth(f, "det"))
        cmp_("calculus", ".transpose", lambda f: s.meth(f, "transpose"))
        cmp_("calculus", ".dot", lambda f: s.meth(f, "dot", others["matrix"][0][1]))
        cmp_("calculus", ".dot itself", lambda f: s.meth(f, "dot", f))
        cmp_("access", ".shape", lambda f: s.call(P("shape"), f))
        for i in range(2):
            cmp_("access", f"[{i}]", lambda f: s.call(P("item"), f, i))
            cmp_("access", f"[{i}, 1]", lambda f: s.call(P("item"), f, s.tup(i, 1)))
    for k in ("scalar", "vector", "matrix"):
        true_(R, s, "kind", con + ".is_" + k, lambda: s.attr(L, "is_" + k), k == kind)


def mixed(R, s, P, con, L, plain, d, kind):
    """Every binary operator with every kind of other operand, on either side: whatever the explicit function computes, the lazy one does too."""
    g = s.fn_atom("g")
    v, k = fvec(s, "w", 2), fmat(s, "k", 2, 2)
    lazy = lambda kd, o: s.call(P("lazy"), s.lst(o), *((RS[kd][0], RS[kd][1] if RS[kd][1] is None else s.tup(*RS[kd][1]))), 0)
    ops = ["add", "sub", "mul", "div", "matmul", "power"]
    others = [("int 2", 2, "s"), ("rational", s.num(Rat.const(3) / Rat.const(7)), "s"), ("expression", s.num(g), "e"), ("ScalarFunction", s.scalar(g), "s"), ("basis function", lazy("scalar", s.scalar(g)), "s"),
              ("VectorFunction", s.vector(v), "v"), ("tuple", s.tup(*v), "v"), ("list", s.lst(*v), "v"), ("vector basis function", lazy("vector", s.vector(v)), "v"),
              ("MatrixFunction", s.matrix(k), "m"), ("tuple of tuples", s.tup(*[s.tup(*r) for r in k]), "m"), ("list of lists", s.lst(*[s.lst(*r) for r in k]), "m"),
              ("sympy Matrix", s.call(P("sympy_matrix"), s.lst(*[s.lst(*r) for r in k])), "M"), ("matrix basis function", lazy("matrix", s.matrix(k)), "m")]
    for nm, o, c in others:
        for op in ops:
            # a sympy object on the left converts the function itself and is not the function's operator
            compare(R, s, "mixed operands", f"{con} {op} {nm}", lambda: s.call(P(op), L, o), lambda: s.call(P(op), plain, o))
            if c not in "eM":
                compare(R, s, "mixed operands", f"{nm} {op} {con}", lambda: s.call(P(op), o, L), lambda: s.call(P(op), o, plain))
        for q in ("dot", "cross"):
            if c != "M" or q == "dot":
                compare(R, s, "mixed operands", f"{con}.{q}({nm})", lambda: s.meth(L, q, o), lambda: s.meth(plain, q, o))
        if nm.endswith("Function") or nm.endswith("basis function"):
            for q in ("dot", "cross"):
                compare(R, s, "mixed operands", f"{nm}.{q}({con})", lambda: s.meth(o, q, L), lambda: s.meth(o, q, plain))
        for op, w in (("eq", False), ("ne", True)):
            same(R, s, f"{con} {op} {nm}", lambda: s.call(P(op), L, o), lambda: s.call(P(op), plain, o))
            if c not in "eM":
                same(R, s, f"{nm} {op} {con}", lambda: s.call(P(op), o, L), lambda: s.call(P(op), o, plain))


def same(R, s, con, lazy, plain):
    """The same truth value, or the same condition."""
    try:
        want = plain()
    except (Dead, Unknown):
        return
    if not isinstance(want, (bool, BoolT)):
        return

    def go():
        got = lazy()
        if not isinstance(got, (bool, BoolT)):
            raise Unknown(repr(got)[:120])
        if isinstance(got, BoolT) and isinstance(want, BoolT):
            if repr(got) != repr(want):
                raise Unknown(repr(got)[:120])
        elif isinstance(got, BoolT) or isinstance(want, BoolT):
            raise Unknown(repr(got)[:120])
        R.ob(got == want if isinstance(want, bool) else True, "mixed comparison", con, f"is {got!r}, for the explicit function {want!r}")
    R.guard("mixed comparison", con, go, sess=s)


def compare(R, s, rule, con, lazy, plain):
    try:
        want = s.data(plain())
    except (Dead, Unknown):
        return            # the plain operation itself is undefined or unknown: nothing to compare with
    if has_top(want):
        return
    want = list(each_alt(want))
    if len(want) != 1:
        return
    eq(R, s, rule, con, lazy, want[0])


def one(R, item):
    kind, sub = item
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    P = lambda n: s.attr(m, n)
    rd, rs = RS[kind]
    k = kind.replace("shape", "")
    xs = X(3)
    data = [s.fn_atom(f"f{i}") if k == "scalar" else fvec(s, f"f{i}_", 2) if k == "vector" else fmat(s, f"f{i}_", 2, 2) for i in range(3)]
    fs = [getattr(s, k)(d) for d in data]
    for n in range(3):
        L = s.call(P("lazy"), s.lst(*fs), rd, rs if rs is None else s.tup(*rs), n)
        con = f"{E} of {kind} element, number {n}"
        plain, d = fs[n], data[n]
        if n == 0:
            eq(R, s, "lazy", con, lambda: s.call(P("used"), L), 0)
        eq(R, s, "number", con, lambda: s.meth(L, "get_function"), d)
        eq(R, s, "number", f"FiniteElement.get_basis_function({n}) of {kind} element",
           lambda: s.call(P("from_element"), s.lst(*fs), rd, rs if rs is None else s.tup(*rs), n), d)
        if sub is not None:
            vals = {"point": [sym("u0"), sym("u1"), sym("u2")], "cyclic": [xs[1], xs[2], xs[0]]}[sub]
            mp = {sid(a): b for a, b in zip(xs, vals)}
            L = s.call(P("subs_x"), L, s.tup(*vals))
            plain = s.call(P("subs_x"), plain, s.tup(*vals))
            con = f"{B}SubbedBasisFunction ({sub}) of {kind} element, number {n}"

            def S(e):
                return [S(q) for q in e] if isinstance(e, list) else rsubs(e, mp)
            d = S(d)
            eq(R, s, "substitution", con, lambda: s.meth(L, "get_function"), d)
        if n < 2:
            behaviour(R, s, P, con, L, plain, d, k)
    R.absorb(s)


def run(R):
    R.floor = 300
    R.explanation = ("Abstract interpretation of client programs: every operation on a lazily evaluated basis function (and "
                     "on a substituted one) over opaque scalar, vector and matrix basis functions is compared with the same "
                     "operation on the underlying function.")
    from sa.report import parallel
    parallel(R, one, [(k, sub) for k in RS for sub in (None, "point", "cyclic")])
