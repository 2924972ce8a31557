"""Vector calculus of function objects: every operator is its textbook definition, componentwise, for opaque functions."""
from sa.query import *
from sa.query import det as rdet
from checks.common import *

F = "symfem.functions."

PROBE = '''
from symfem.symbols import x, t
def diff(f, i): return f.diff(x[i])
def grad(f, n): return f.grad(n)
def div(f): return f.div()
def curl(f): return f.curl()
def subs(f, a, b): return f.subs(a, b)
def subs_x(f, b): return f.subs(x, b)
def integrate(f, *l): return f.integrate(*l)
'''


def scalar(R, s, P):
    xs = X(3)
    f = s.fn_atom("f")
    d = [rdiff(f, sid(v)) for v in xs]
    h = [[rdiff(q, sid(v)) for v in xs] for q in d]
    F0 = s.scalar(f)
    C = F + "ScalarFunction."
    for i in range(3):
        eq(R, s, "diff", C + f"diff(x[{i}])", lambda: s.call(P("diff"), F0, i), d[i])
        eq(R, s, "grad", C + f"grad({i + 1})", lambda: s.meth(F0, "grad", i + 1), d[:i + 1])
        eq(R, s, "hessian", C + f"jacobian({i + 1})", lambda: s.meth(F0, "jacobian", i + 1),
           [r[:i + 1] for r in h[:i + 1]])
        for j in range(3):
            eq(R, s, "hessian", C + f"jacobian_component(({i},{j}))",
               lambda: s.meth(F0, "jacobian_component", s.tup(i, j)), h[i][j])
        dv = [sym(f"d{k}") for k in range(i + 1)]
        want = sum((a * b for a, b in zip(dv, d)), R0)
        for nm, arg in (("tuple", s.tup(*dv)), ("VectorFunction", s.vector(dv))):
            eq(R, s, "directional-derivative", C + f"directional_derivative({nm} of {i + 1})",
               lambda: s.meth(F0, "directional_derivative", arg), want)
    g = s.fn_atom("g")
    eq(R, s, "dot", C + "dot(ScalarFunction)", lambda: s.meth(F0, "dot", s.scalar(g)), f * g)
    eq(R, s, "dot", C + "dot(expr)", lambda: s.meth(F0, "dot", s.num(g)), f * g)
    eq(R, s, "norm", C + "norm()", lambda: s.meth(F0, "norm"), rabs(f))
    a, b = sym("a"), sym("b")
    eq(R, s, "integrate", C + "integrate((x, a, b))",
       lambda: s.call(P("integrate"), F0, s.tup(xs[0], a, b)), rint(f, [(sid(xs[0]), a, b)]))
    c, e = sym("c"), sym("e")
    eq(R, s, "integrate", C + "integrate((x, 0, y), (y, c, e))",
       lambda: s.call(P("integrate"), F0, s.tup(xs[0], R0, xs[1]), s.tup(xs[1], c, e)),
       rint(f, [(sid(xs[0]), R0, xs[1]), (sid(xs[1]), c, e)]))
    for m in ("div", "curl"):
        refuses(R, s, "refuses", C + m + "()", lambda: s.meth(F0, m))
    refuses(R, s, "refuses", C + "cross(vector)", lambda: s.meth(F0, "cross", s.vector(fvec(s, "g", 3))))
    refuses(R, s, "refuses", C + "dot(vector)", lambda: s.meth(F0, "dot", s.vector(fvec(s, "g", 2))))


def vector(R, s, P):
    xs = X(3)
    C = F + "VectorFunction."
    for n in (1, 2, 3, 4, 5):
        v, w = fvec(s, "v", n), fvec(s, "w", n)
        V, W = s.vector(v), s.vector(w)
        for i in range(3):
            eq(R, s, "diff", C + f"diff(x[{i}]) of {n}", lambda: s.call(P("diff"), V, i), [rdiff(q, sid(xs[i])) for q in v])
        if n < 4:
            eq(R, s, "div", C + f"div() of {n}", lambda: s.meth(V, "div"),
               sum((rdiff(q, sid(xs[i])) for i, q in enumerate(v)), R0))
        want = sum((a * b for a, b in zip(v, w)), R0)
        eq(R, s, "dot", C + f"dot(VectorFunction) of {n}", lambda: s.meth(V, "dot", W), want)
        eq(R, s, "dot", C + f"dot(tuple) of {n}", lambda: s.meth(V, "dot", s.tup(*w)), want)
        eq(R, s, "norm", C + f"norm() of {n}", lambda: s.meth(V, "norm"), rsqrt(sum((a * a for a in v), R0)))
        if n > 1:
            refuses(R, s, "refuses", C + f"dot({n - 1} components) of {n}", lambda: s.meth(V, "dot", s.vector(w[:-1])))
    v, w = fvec(s, "v", 3), fvec(s, "w", 3)
    V, W = s.vector(v), s.vector(w)
    d = jac(v, xs)
    eq(R, s, "curl", C + "curl()", lambda: s.meth(V, "curl"), [d[2][1] - d[1][2], d[0][2] - d[2][0], d[1][0] - d[0][1]])
    cr = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
    for nm, arg in (("VectorFunction", W), ("tuple", s.tup(*w))):
        eq(R, s, "cross", C + f"cross({nm}) of 3", lambda: s.meth(V, "cross", arg), cr)
    v2, w2 = v[:2], w[:2]
    for nm, arg in (("VectorFunction", s.vector(w2)), ("tuple", s.tup(*w2))):
        eq(R, s, "cross", C + f"cross({nm}) of 2", lambda: s.meth(s.vector(v2), "cross", arg), v2[0] * w2[1] - v2[1] * w2[0])
    refuses(R, s, "refuses", C + "cross of 2 and 3", lambda: s.meth(V, "cross", s.vector(w2)))
    refuses(R, s, "refuses", C + "grad", lambda: s.meth(V, "grad"))
    refuses(R, s, "refuses", C + "grad", lambda: s.meth(V, "grad", 2))
    refuses(R, s, "refuses", C + "dot(scalar)", lambda: s.meth(V, "dot", s.scalar(w[0])))


def matrix(R, s, P):
    xs = X(3)
    C = F + "MatrixFunction."
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            m, k = fmat(s, "m", r, c), fmat(s, "k", r, c)
            M, K = s.matrix(m), s.matrix(k)
            sh = f" of {r}x{c}"
            eq(R, s, "transpose", C + "transpose()" + sh, lambda: s.meth(M, "transpose"), transpose(m))
            eq(R, s, "dot", C + "dot()" + sh, lambda: s.meth(M, "dot", K),
               sum((m[i][j] * k[i][j] for i in range(r) for j in range(c)), R0))
            for i in range(3):
                eq(R, s, "diff", C + f"diff(x[{i}])" + sh, lambda: s.call(P("diff"), M, i),
                   [[rdiff(q, sid(xs[i])) for q in row] for row in m])
            if r == c:
                eq(R, s, "det", C + "det()" + sh, lambda: s.meth(M, "det"), rdet(m))
            elif (r, c) == (3, 2):
                cr = [m[1][0] * m[2][1] - m[2][0] * m[1][1], m[2][0] * m[0][1] - m[0][0] * m[2][1],
                      m[0][0] * m[1][1] - m[1][0] * m[0][1]]
                eq(R, s, "det", C + "det()" + sh, lambda: s.meth(M, "det"), rsqrt(sum((q * q for q in cr), R0)))
    m = fmat(s, "m", 2, 2)
    M = s.matrix(m)
    refuses(R, s, "refuses", C + "det of 1x2", lambda: s.meth(s.matrix(fmat(s, "m", 1, 2)), "det"))
    for nm in ("div", "curl", "grad"):
        refuses(R, s, "refuses", C + nm, lambda: s.meth(M, nm))
    refuses(R, s, "refuses", C + "cross", lambda: s.meth(M, "cross", M))
    refuses(R, s, "refuses", C + "dot(other shape)", lambda: s.meth(M, "dot", s.matrix(fmat(s, "k", 2, 3))))


def substitution(R, s, P):
    xs = X(3)
    x0, y0, z0 = xs
    p, q, r = sym("p"), sym("q"), sym("r")
    cases = [("x -> (p, q, r)", None, (p, q, r)), ("x -> (y, x, z)", None, (y0, x0, z0)),
             ("x -> (y, z, x)", None, (y0, z0, x0)), ("x -> (x+y, x-y)", None, (x0 + y0, x0 - y0)),
             ("x -> (y*z, z, p)", None, (y0 * z0, z0, p)), ("(x, y) -> (y, x)", (x0, y0), (y0, x0)),
             ("(z, x) -> (x, 2)", (z0, x0), (x0, Rat.const(2))), ("x -> (1, 0, 3)", None, tuple(map(Rat.const, (1, 0, 3)))),
             ("x -> (q)", None, (q,))]
    for kind in ("scalar", "vector", "matrix"):
        fs = {"scalar": s.fn_atom("f"), "vector": fvec(s, "v", 3), "matrix": fmat(s, "m", 2, 3)}[kind]
        O = getattr(s, kind)(fs)
        con = F + kind.capitalize() + "Function.subs"

        def S(d, mp):
            return [S(e, mp) for e in d] if isinstance(d, list) else rsubs(d, mp)
        for nm, vs, vals in cases:
            mp = {sid(a): b for a, b in zip(vs or xs, vals)}
            for how in ("tuple", "list", "VectorFunction"):
                arg = {"tuple": s.tup, "list": s.lst}.get(how, lambda *a: s.vector(list(a)))(*vals)
                if vs is None:
                    eq(R, s, "substitution", f"{con}: {nm} as {how}", lambda: s.call(P("subs_x"), O, arg), S(fs, mp))
                else:
                    eq(R, s, "substitution", f"{con}: {nm} as {how}",
                       lambda: s.call(P("subs"), O, s.tup(*vs), arg), S(fs, mp))
        for nm, v, val in (("x -> p", x0, p), ("z -> x+1", z0, x0 + R1), ("y -> 2", y0, Rat.const(2))):
            eq(R, s, "substitution", f"{con}: {nm}", lambda: s.call(P("subs"), O, s.num(v), s.num(val)), S(fs, {sid(v): val}))
            eq(R, s, "substitution", f"{con}: {nm} as ScalarFunction",
               lambda: s.call(P("subs"), O, s.num(v), s.scalar(val)), S(fs, {sid(v): val}))
        # substitution does not touch the original
        eq(R, s, "substitution-pure", con, lambda: (s.call(P("subs_x"), O, s.tup(p, q, r)), O)[1], fs)


def degrees(R, s, P):
    """maximum_degree of concrete polynomials is the order of the lowest order Lagrange space of the cell that contains them."""
    x0, y0, z0 = X(3)
    c = Rat.const
    polys = [c(1), x0, y0 * y0, x0 * x0 * y0, x0 * y0 * z0, x0 * x0 + y0 * y0 * y0, z0 * z0 * z0 + x0, x0 * x0 + y0 * y0, c(3) * x0 - x0 * y0 * y0 * z0 + z0 * z0,
             (x0 + y0) * (x0 - y0), c(2) * x0 * y0 + y0]
    s.it.structural = True
    dims = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3, "prism": 3}
    for cell, d in dims.items():
        ref = s.ref(cell)
        for p in polys:
            if any(str(v) in repr(p) for v in X(3)[d:]):
                continue
            mons = []
            for mono, _ in p.num.t.items():
                mons.append({repr(Rat(Poly.of_atom(a))): e for a, e in mono})
            ex = [[m.get(n, 0) for n in "xyz"] for m in mons]
            if cell in ("interval", "triangle", "tetrahedron"):
                deg = max(sum(e) for e in ex)
            elif cell == "prism":
                deg = max(max(e[0] + e[1], e[2]) for e in ex)
            else:
                deg = max(max(e) for e in ex)

            def go():
                v = s.meth(s.scalar(p), "maximum_degree", ref)
                got = s.data(v)
                if not isinstance(got, (int, Rat)) or has_top(got):
                    raise Unknown(repr(got))
                if isinstance(got, Rat):
                    if not got.is_const():
                        raise Unknown(repr(v)[:100])
                    got = got.const_value()
                R.ob(got == deg, "maximum-degree", f"{F}ScalarFunction.maximum_degree({p!r}, {cell})",
                     f"gives {got}, but the polynomial has degree {deg}")
            R.guard("maximum-degree", f"{F}ScalarFunction.maximum_degree({p!r}, {cell})", go, sess=s)


def one(R, item):
    s = Session(R.root)
    m = s.probe(PROBE)
    P = lambda n: s.attr(m, n)
    globals()[item](R, s, P)
    R.absorb(s)


def run(R):
    R.floor = 120
    R.explanation = ("Value numbering over symbolic terms: every calculus method of scalar, vector and matrix functions is "
                     "evaluated abstractly on opaque component functions f(x,y,z) (sizes 1-3, shapes up to 3x3) and compared "
                     "with the textbook definition; ill-typed uses must raise on every path.")
    from sa.report import parallel
    parallel(R, one, ["scalar", "vector", "matrix", "substitution", "degrees"])
