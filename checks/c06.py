"""Function algebra: operators, equality, parsing, indexing and iteration of function objects are componentwise."""
from sa.query import *
from checks.common import *

F = "symfem.functions."

PROBE = '''
import sympy
from symfem.functions import ScalarFunction, VectorFunction, MatrixFunction, parse_function_input, parse_function_list_input
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def div(a, b): return a / b
def matmul(a, b): return a @ b
def rmatmul(a, b):
    r = a.__rmatmul__(b)
    return None if r is NotImplemented else r
def power(a, b): return a ** b
def neg(a): return -a
def eq(a, b): return a == b
def ne(a, b): return a != b
def item(a, i): return a[i]
def item2(a, i, j): return a[i, j]
def slice_(a, i, j): return a[i:j]
def length(a): return len(a)
def listed(a): return [i for i in a]
def nested(a): return [[i * j for j in a] for i in a]
def zipped(a): return [i - j for i, j in zip(a, a)]
def partial(a):
    for i in a:
        break
    return [i for i in a]
def mat(rows): return sympy.Matrix(rows)
def parse(f): return parse_function_input(f)
def parse_list(fs): return parse_function_list_input(fs)
def sympy_of(f): return f.as_sympy()
'''

OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def cw(op, a, b):
    if isinstance(a, list):
        return [cw(op, x, y) for x, y in zip(a, b)]
    return op(a, b)


def sc(op, a, b, left=False):
    if isinstance(a, list):
        return [sc(op, x, b, left) for x in a]
    return op(b, a) if left else op(a, b)


def shape(d):
    return (len(d),) + shape(d[0]) if isinstance(d, list) else ()


def wrapped(s, P, d):
    """All the ways a value can be written as an operand: (name, value)."""
    if not isinstance(d, list):
        out = [("ScalarFunction", s.scalar(d))]
        if d.is_const():
            c = d.const_value()
            if c.denominator == 1:
                out.append(("int", int(c)))
        out.append(("expr", s.num(d)))
        return out
    if not isinstance(d[0], list):
        return [("VectorFunction", s.vector(d)), ("tuple", s.tup(*d)), ("list", s.lst(*d))]
    return [("MatrixFunction", s.matrix(d)), ("tuple of tuples", s.tup(*[s.tup(*r) for r in d])),
            ("sympy Matrix", s.call(P("mat"), s.lst(*[s.lst(*r) for r in d])))]


def expected(op, a, b):
    """Componentwise meaning; None when the combination has no meaning."""
    sa, sb = shape(a), shape(b)
    if op in ("add", "sub"):
        return cw(OPS[op], a, b) if sa == sb else None
    if op == "mul":
        if sa == ():
            return sc(OPS[op], b, a, True)
        return sc(OPS[op], a, b) if sb == () else None
    if op == "div":
        return sc(OPS[op], a, b) if sb == () else None
    if op == "matmul":
        if len(sa) == 2 and len(sb) == 2:
            return matmul(a, b) if sa[1] == sb[0] else None
        if len(sa) == 2 and len(sb) == 1:
            return matvec(a, b) if sa[1] == sb[0] else None
        if len(sa) == 1 and len(sb) == 2:
            return matvec(transpose(b), a) if sa[0] == sb[0] else None
        return None


def operands(s):
    f, g = s.fn_atom("f"), s.fn_atom("g")
    return {"scalar": f, "constant": Rat.const(3), "scalar2": g, "vector2": fvec(s, "v", 2), "vector3": fvec(s, "w", 3),
            "vector3b": fvec(s, "u", 3), "matrix2x2": fmat(s, "m", 2, 2), "matrix2x2b": fmat(s, "n", 2, 2),
            "matrix2x3": fmat(s, "k", 2, 3), "matrix3x2": fmat(s, "h", 3, 2), "matrix3x3": fmat(s, "l", 3, 3)}


def operators(R, s, P, op):
    D = operands(s)
    names = sorted(D)
    CLS = ("ScalarFunction", "VectorFunction", "MatrixFunction")
    for i in names:
        for j in names:
            want = expected(op, D[i], D[j])
            for wi, a in wrapped(s, P, D[i]):
                for wj, b in wrapped(s, P, D[j]):
                    if wi not in CLS and wj not in CLS:
                        continue
                    if op == "matmul" and not (wi in CLS and wj in CLS):
                        continue
                    if wi in ("sympy Matrix", "expr") and wj in CLS:
                        continue   # dispatches inside sympy, which is outside the analysed program
                    if op in ("add", "sub") and ("tuple of tuples" in (wi, wj)) and want is None and "MatrixFunction" not in (wi, wj):
                        continue
                    con = f"{wi} {i} {op} {wj} {j}"
                    if want is None:
                        refuses(R, s, "operator-rejects", con, lambda: s.call(P(op), a, b))
                    else:
                        raw = op in ("mul", "div") and not (wi in CLS and wj in CLS) and shape(D[i]) + shape(D[j]) != ()
                        cmp_ = eq_or_refuses if raw and shape(want) and (wi if shape(D[i]) else wj) not in CLS else eq
                        cmp_(R, s, "operator", con, lambda: s.call(P(op), a, b), want)
                        # reading the operands back: unchanged
                        for w, v, d in ((wi, a, D[i]), (wj, b, D[j])):
                            if w in CLS and op == "add":
                                eq(R, s, "operands-unchanged", con, lambda: v, d)


def reflected(R, s, P, _):
    """The reflected special methods that sympy or other classes fall back to."""
    D = operands(s)
    for nm in ("scalar", "vector2", "matrix2x2", "matrix2x3"):
        d = D[nm]
        for w, V in wrapped(s, P, d)[:1]:
            same = {"scalar": "scalar2", "vector2": None, "matrix2x2": "matrix2x2b"}.get(nm)
            o = D[same] if same else [[q * Rat.const(2) for q in r] if isinstance(r, list) else r * Rat.const(2) for r in d]
            for wo, O in wrapped(s, P, o):
                con = f"{w}.__radd__({wo})"
                eq(R, s, "reflected", con, lambda: s.meth(V, "__radd__", O), cw(OPS["add"], o, d))
                eq(R, s, "reflected", f"{w}.__rsub__({wo})", lambda: s.meth(V, "__rsub__", O), cw(OPS["sub"], o, d))
            for wo, O in wrapped(s, P, D["scalar2"]):
                eq(R, s, "reflected", f"{w}.__rmul__({wo})", lambda: s.meth(V, "__rmul__", O), sc(OPS["mul"], d, D["scalar2"], True))
                if nm == "scalar":
                    eq(R, s, "reflected", f"{w}.__rtruediv__({wo})", lambda: s.meth(V, "__rtruediv__", O), D["scalar2"] / d)
    for i in sorted(D):
        for j in sorted(D):
            want = expected("matmul", D[i], D[j])
            if want is None:
                continue
            A, B = wrapped(s, P, D[i])[0][1], wrapped(s, P, D[j])[0][1]
            con = f"{i} @ {j} through __rmatmul__"
            notimpl_or(R, s, "reflected", con, lambda: s.call(P("rmatmul"), B, A), want)


def notimpl_or(R, s, rule, con, thunk, want):
    """The right value, or the operation is left to the other operand."""
    def go():
        v = thunk()
        if v is None:
            R.ok(rule, con)
        else:
            eq(R, s, rule, con, lambda: v, want)
    R.guard(rule, con, go, sess=s)


def unary(R, s, P, _):
    D = operands(s)
    for nm, d in sorted(D.items()):
        V = wrapped(s, P, d)[0][1]
        eq(R, s, "neg", f"-{nm}", lambda: s.call(P("neg"), V), sc(lambda a, b: -a, d, None))
        for n in (0, 1, 2, 3):
            eq(R, s, "pow", f"{nm} ** {n}", lambda: s.call(P("power"), V, n), sc(lambda a, b: a.ipow(n), d, None))
        for n in (-1, -2, -3):
            if shape(d) == ():
                eq(R, s, "pow", f"{nm} ** {n}", lambda: s.call(P("power"), V, n), R1 / d.ipow(-n))
            elif len(shape(d)) == 1:
                eq_or_refuses(R, s, "pow", f"{nm} ** {n}", lambda: s.call(P("power"), V, n), sc(lambda a, b: R1 / a.ipow(-n), d, None))
        if shape(d) == ():
            for n in (0, 1, 2, 3, -1, -2):
                w = d.ipow(n) if n >= 0 else R1 / d.ipow(-n)
                eq(R, s, "pow", f"{nm} ** ScalarFunction({n})", lambda: s.call(P("power"), V, s.scalar(Rat.const(n))), w)
                eq(R, s, "pow", f"{nm} ** expr({n})", lambda: s.call(P("power"), V, s.num(Rat.const(n))), w)
                if nm != "constant":
                    e = s.scalar(Rat.const(n))
                    for q in (2, 3):
                        eq_or_refuses(R, s, "pow", f"{q} ** ScalarFunction({n})", lambda: s.call(P("power"), q, e), Rat.const(q).ipow(n) if n >= 0 else R1 / Rat.const(q).ipow(-n))
            g = s.fn_atom("g")
            eq(R, s, "pow", f"{nm} ** opaque as ScalarFunction and expr agree", lambda: s.call(P("power"), V, s.scalar(g)), s.data(s.call(P("power"), V, s.num(g))))
        else:
            refuses(R, s, "pow-rejects", f"{nm} ** VectorFunction", lambda: s.call(P("power"), V, s.vector([s.fn_atom("g")] * 2)))
            refuses(R, s, "pow-rejects", f"2 ** {nm}", lambda: s.call(P("power"), 2, V))
        eq(R, s, "as_sympy", nm, lambda: s.call(P("sympy_of"), V), d)


def equality(R, s, P, _):
    D = operands(s)
    x0, y0, z0 = X(3)
    one = R1
    for nm, d in sorted(D.items()):
        V = wrapped(s, P, d)[0][1]
        for w, o in wrapped(s, P, d):
            true_(R, s, "equal", f"{nm} == {w}", lambda: s.call(P("eq"), V, o), True)
            true_(R, s, "equal", f"{nm} != {w}", lambda: s.call(P("ne"), V, o), False)
        # a difference in any one component is seen
        for k, other in perturbed(d, one):
            for w, o in wrapped(s, P, other):
                true_(R, s, "unequal", f"{nm} == {w} changed at {k}", lambda: s.call(P("eq"), V, o), False)
                true_(R, s, "unequal", f"{nm} != {w} changed at {k}", lambda: s.call(P("ne"), V, o), True)
        for nm2, e in sorted(D.items()):
            if shape(e) != shape(d):
                for w, o in wrapped(s, P, e):
                    true_(R, s, "unequal-shape", f"{nm} == {nm2} as {w}", lambda: s.call(P("eq"), V, o), False)
                    true_(R, s, "unequal-shape", f"{nm} != {nm2} as {w}", lambda: s.call(P("ne"), V, o), True)
    # ... and so is a missing or additional component when all others agree
    f, g, h = s.fn_atom("f"), s.fn_atom("g"), s.fn_atom("h")
    for big, small in (([f, g, h], [f, g]), ([[f, g, h], [g, h, f]], [[f, g], [g, h]]), ([[f, g], [g, h], [h, f]], [[f, g], [g, h]]),
                       ([[f, g]], [f, g]), ([f], f), ([[f], [g]], [f, g])):
        for p, q in ((big, small), (small, big)):
            V = wrapped(s, P, p)[0][1]
            for w, o in wrapped(s, P, q):
                nm = f"shape {shape(p)} == shape {shape(q)} as {w}"
                true_(R, s, "unequal-shape", nm, lambda: s.call(P("eq"), V, o), False)
                true_(R, s, "unequal-shape", "not " + nm, lambda: s.call(P("ne"), V, o), True)
    sn, cn = sym("sin(x)"), sym("cos(x)")
    for nm, p, q in (("scalar", lambda e: e, one), ("vector", lambda e: [e, x0], [one, x0]), ("matrix", lambda e: [[e, x0]], [[one, x0]])):
        V = wrapped(s, P, p(sn * sn + cn * cn))[0][1]
        for w, o in wrapped(s, P, q):
            true_(R, s, "equal", f"{nm} sin(x)**2 + cos(x)**2 == 1 as {w}", lambda: s.call(P("eq"), V, o), True)
            true_(R, s, "equal", f"{nm} sin(x)**2 + cos(x)**2 != 1 as {w}", lambda: s.call(P("ne"), V, o), False)
    # equality is mathematical: different ways of writing an expression
    a = s.call(P("mul"), s.scalar(x0 + one), s.scalar(x0 + one))
    b = s.scalar(x0 * x0 + x0 + x0 + one)
    true_(R, s, "equal", "(x+1)(x+1) == x**2+2x+1", lambda: s.call(P("eq"), a, b), True)


def perturbed(d, one):
    if not isinstance(d, list):
        yield "value", d + one
        return
    for i in range(len(d)):
        for k, q in perturbed(d[i], one):
            yield f"{i},{k}", d[:i] + [q] + d[i + 1:]


def access(R, s, P, _):
    D = operands(s)
    for nm, d in sorted(D.items()):
        V = wrapped(s, P, d)[0][1]
        sh = shape(d)
        if len(sh) == 0:
            for m in ("length", "listed"):
                refuses(R, s, "access-rejects", f"{m} of {nm}", lambda: s.call(P(m), V))
            refuses(R, s, "access-rejects", f"{nm}[0]", lambda: s.call(P("item"), V, 0))
            continue
        if len(sh) == 1:
            n = sh[0]
            eq(R, s, "access", f"len({nm})", lambda: s.call(P("length"), V), n)
            eq(R, s, "access", f"list({nm})", lambda: s.call(P("listed"), V), d)
            eq(R, s, "access", f"iteration of {nm} restarted", lambda: s.call(P("partial"), V), d)
            eq(R, s, "access", f"{nm}.shape", lambda: s.attr(V, "shape"), [n])
            for i in range(-n, n):
                eq(R, s, "access", f"{nm}[{i}]", lambda: s.call(P("item"), V, i), d[i])
            refuses(R, s, "access-rejects", f"{nm}[{n}]", lambda: s.call(P("item"), V, n))
            for i in range(n):
                for j in range(i, n + 1):
                    eq(R, s, "access", f"{nm}[{i}:{j}]", lambda: s.call(P("slice_"), V, i, j), d[i:j])
            eq(R, s, "nested-iteration", f"nested iteration over {nm}", lambda: s.call(P("nested"), V),
               [[p * q for q in d] for p in d])
            # two iterations of one function are independent: iterating must not write the function's own state
            it = s.it
            it.watch = it.naddr + 1
            n0 = len(it.effects)
            try:
                s.data(s.call(P("listed"), V))
                eff = [e for e in it.effects[n0:] if e[0][0] == "a"]
                R.ob(not eff, "independent-iteration", f"{F}VectorFunction iteration ({nm})",
                     f"iterating writes attribute {eff[0][0][2]} of the function in {eff[0][1]}" if eff else "")
            except (Dead, Unknown) as e:
                R.unknown("independent-iteration", nm, repr(e))
            finally:
                it.watch = None
        else:
            r, c = sh
            eq(R, s, "access", f"{nm}.shape", lambda: s.attr(V, "shape"), [r, c])
            for i in range(r):
                eq(R, s, "access", f"{nm}.row({i})", lambda: s.meth(V, "row", i), d[i])
                eq(R, s, "access", f"{nm}[{i}]", lambda: s.call(P("item"), V, i), d[i])
                for j in range(c):
                    eq(R, s, "access", f"{nm}[{i}, {j}]", lambda: s.call(P("item2"), V, i, j), d[i][j])
            for j in range(c):
                eq(R, s, "access", f"{nm}.col({j})", lambda: s.meth(V, "col", j), [q[j] for q in d])


def parsing(R, s, P, _):
    D = operands(s)
    for nm, d in sorted(D.items()):
        kind = ("scalar", "vector", "matrix")[len(shape(d))]
        ways = wrapped(s, P, d)
        if kind == "matrix":
            ways += [("list of lists", s.lst(*[s.lst(*r) for r in d])), ("tuple of lists", s.tup(*[s.lst(*r) for r in d])),
                     ("list of tuples", s.lst(*[s.tup(*r) for r in d]))]
        if kind == "vector":
            ways += [("tuple of functions", s.tup(*[s.scalar(q) for q in d]))]
        for w, v in ways:
            con = f"parse_function_input({w} {nm})"
            eq(R, s, "parse", con, lambda: s.call(P("parse"), v), d)
            for k in ("scalar", "vector", "matrix"):
                true_(R, s, "parse-kind", con + f".is_{k}", lambda: s.attr(s.call(P("parse"), v), "is_" + k), k == kind)
    for nm, v in (("None", None), ("'x'", "x")):
        refuses(R, s, "parse-rejects", f"parse_function_input({nm})", lambda: s.call(P("parse"), v))
    ds = [D["scalar"], D["vector2"], D["matrix2x2"]]
    L = s.lst(s.num(ds[0]), s.tup(*ds[1]), s.tup(*[s.tup(*r) for r in ds[2]]))
    eq(R, s, "parse", "parse_function_list_input", lambda: s.call(P("parse_list"), L), ds)


def one(R, item):
    name, arg = item
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    globals()[name](R, s, lambda n: s.attr(m, n), arg)
    R.absorb(s)


def run(R):
    R.floor = 500
    R.explanation = ("Abstract interpretation of client programs that combine function objects: every binary operator over "
                     "every pair of operand kinds (function objects, ints, expressions, tuples, lists, matrices, of sizes "
                     "1-3) is evaluated on opaque components and compared with the componentwise result, or must raise when "
                     "the shapes do not combine; equality, indexing, iteration and parsing likewise; effect analysis of iteration.")
    from sa.report import parallel
    items = [("operators", o) for o in ("add", "sub", "mul", "div", "matmul")]
    items += [(n, None) for n in ("reflected", "unary", "equality", "access", "parsing")]
    parallel(R, one, items)
