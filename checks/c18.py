"""Tensor product factorisations give the element's own basis functions."""
from checks.sweep import *
from checks.common import eq, refuses, true_
from sa.poly import rsubs
import itertools

STUB = '''
from symfem.finite_element import CiarletElement, DirectElement, EnrichedElement, NoTensorProduct
from symfem.functionals import PointEvaluation
class Factor(DirectElement):
    names = ["factor"]
    references = ["interval"]
class Product(DirectElement):
    names = ["product"]
    references = ["quadrilateral", "hexahedron"]
    def get_tensor_factorisation(self): return self.given
class CProduct(CiarletElement):
    names = ["Ciarlet product"]
    references = ["quadrilateral", "hexahedron"]
    min_order = 0
    cache = False
    def get_tensor_factorisation(self): return self.given
class Plain(DirectElement):
    names = ["no product"]
    references = ["quadrilateral"]
def factor(ref, fs): return Factor(ref, 1, fs, [(0, 0) for f in fs], 1, 1)
def product_element(ref, fs, given):
    e = Product(ref, 1, fs, [(0, 0) for f in fs], 2, 1)
    e.given = given
    return e
def plain(ref, fs): return Plain(ref, 1, fs, [(0, 0) for f in fs], 2, 1)
def enriched(es): return EnrichedElement(es)
def basis(e): return [f for f in e.get_basis_functions()]
def tensor(e): return [f for f in e.get_basis_functions(use_tensor_factorisation=True)]
def tensor_of(e): return [f for f in e._get_basis_functions_tensor()]
def factors(e):
    try:
        return [[t, f, p] for t, f, p in e.get_tensor_factorisation()]
    except NoTensorProduct:
        return None
def on(d, f): return d.eval_symbolic(f).as_sympy()
'''


def prog(s):
    if not hasattr(s, "stub18"):
        s.stub18 = s.probe(STUB, "stub18_probe_")
    return s


def F(s, n):
    return s.attr(prog(s).stub18, n)


def products(R):
    """Products of factors with opaque functions, placed where the permutation says."""
    s = session(R)
    iv, qd, hx = (s.ref(n) for n in ("interval", "quadrilateral", "hexahedron"))
    xs = X(3)

    def fac(name, n):
        return s.call(F(s, "factor"), iv, s.lst(*[s.scalar(s.fn_atom(f"{name}{i}", 1)) for i in range(n)]))

    def at(name, i, v):
        return s.fn_atom(f"{name}{i}", 1, (v,))
    for lab, ref, names, sizes in (("two factors", qd, "ab", (2, 2)), ("two factors of different size", qd, "ab", (3, 2)),
                                   ("three factors", hx, "abc", (2, 2, 2)), ("three factors of different size", hx, "abc", (1, 3, 2)),
                                   ("the same factor twice", qd, "aa", (3, 3))):
        es = [fac(n, k) for n, k in zip(names, sizes)]
        size = 1
        for k in sizes:
            size *= k
        for pn, perm in (("in order", list(range(size))), ("reversed", list(range(size))[::-1]), ("rotated", [(i + 2) % size for i in range(size)])):
            want = [None] * size
            for p, k in zip(perm, itertools.product(*[range(z) for z in sizes])):
                v = R1
                for n, i, xi in zip(names, k, xs):
                    v = v * at(n, i, xi)
                want[p] = v
            e = s.call(F(s, "product_element"), ref, s.lst(s.scalar(s.fn_atom("own", 2))), s.lst(s.tup("scalar", s.lst(*es), s.lst(*perm))))
            eq(R, s, "product of factors", f"{lab}, {pn}", lambda: s.call(F(s, "tensor"), e), want)
            eq(R, s, "own basis", f"{lab}, {pn}", lambda: s.call(F(s, "basis"), e), [s.fn_atom("own", 2)])
    e = s.call(F(s, "product_element"), qd, s.lst(s.scalar(1)), s.lst(s.tup("other", s.lst(fac("a", 1), fac("b", 1)), s.lst(0))))
    refuses(R, s, "unknown product", "a product of unknown type", lambda: s.call(F(s, "tensor"), e))
    pl = s.call(F(s, "plain"), qd, s.lst(s.scalar(s.fn_atom("f", 2))))
    refuses(R, s, "no product", "direct element without a factorisation", lambda: s.call(F(s, "tensor"), pl))
    refuses(R, s, "no product", "enriched element", lambda: s.call(F(s, "tensor"), s.call(F(s, "enriched"), s.lst(pl, pl))))
    R.absorb(s)


MOVED = {"quadrilateral": ((1, 0), (3, 1), (0, 2), (2, 3)),
         "hexahedron": ((0, 0, 0), (2, 0, 0), (0, 3, 0), (2, 3, 0), (1, 0, 1), (3, 0, 1), (1, 3, 1), (3, 3, 1)),
         "interval": ((2,), (5,))}


def factored(R, item):
    """The factorisation of a registered element, if it has one: dual to the DOFs, in both ways it is asked for."""
    s = shared(R, 12_000_000)
    lab0 = label(item)
    cells = [(lab0, lambda: create(s, item))]
    if item[2] in MOVED and item[3] <= 3:
        cells.append((lab0 + ", on another cell", lambda: s.call(s.get("symfem.create.create_element"), item[2], item[1], item[3],
                                                               vertices=s.tup(*[s.tup(*v) for v in MOVED[item[2]]]), **wrap_kw(s, item[4]))))
    for lab, make in cells:
        try:
            e = make()
            fs = s.call(F(s, "factors"), e)
            if fs is None:
                R.fact("no")
                continue
            if not flag(s, "is_ciarlet", e):
                R.unknown("dual to the DOFs", lab, "not a Ciarlet element")
                continue
            dofs = seq(s, s.call(P(s, "dofs"), e))
            if len(dofs) > (130 if R.thorough else 70):
                R.note(f"{lab}: {len(dofs)} DOFs, not compared")
                continue
            R.fact("yes")
            tb = seq(s, s.call(F(s, "tensor"), e))
            fl = [s.data(f) for f in tb]
            R.ob(len(tb) == len(dofs), "as many as DOFs", lab, f"{len(tb)} functions for {len(dofs)} DOFs")
            for i, f in enumerate(tb):
                for j, d in enumerate(dofs):
                    eq(R, s, "dual to the DOFs", lab, lambda: s.call(F(s, "on"), d, f), R1 if i == j else R0, f"DOF {j} of function {i}")
            space(R, s, lab, e, fl)
            again = [s.data(f) for f in seq(s, s.call(F(s, "basis"), e))]
            R.ob(data_eq(again, fl), "asked for again", lab, "the basis asked for after the factorised one is another one")
        except Dead:
            if s.it.uncaught and exc_name(s) in ("NonDefaultReferenceError", "NotImplementedError", "ValueError", "AssertionError") and "factor" not in where(s):
                R.note(f"{lab}: not created")
            else:
                R.unknown("dual to the DOFs", lab, where(s))
        except (Unknown, Budget, NotLinear, ZeroDivisionError) as x:
            R.unknown("dual to the DOFs", lab, repr(x))
    R.absorb(s)


def space(R, s, lab, e, fl):
    """The functions lie in the space of the element."""
    polys = [func(s, p) for p in seq(s, s.call(P(s, "polys"), e))]
    rows = [coeffs(p) for p in polys]
    more = [coeffs(("all", d)) for d in fl]
    if any(r is None for r in rows + more):
        R.unknown("in the space", lab, "not polynomial")
        return
    r = rank(rows)
    R.ob(rank(rows + more) == r, "in the space", lab, "a product is not in the polynomial space of the element")


def rank(rows):
    piv = {}
    for r in rows:
        r = dict(r)
        while r:
            k = min(r, key=repr)
            if k not in piv:
                inv = pow(r[k], -1, P_)
                piv[k] = {m: c * inv % P_ for m, c in r.items()}
                break
            c = r[k]
            for m, v in piv[k].items():
                r[m] = (r.get(m, 0) - c * v) % P_
                if not r[m]:
                    del r[m]
    return len(piv)


def run(R):
    R.floor = 40
    R.explanation = ("Abstract interpretation: products of factors with opaque functions are compared as terms with the product placed by the "
                     "permutation; for every registered element that offers a factorisation the DOFs applied to the factorised basis give the identity "
                     "and the functions lie in the element's space, on the default and on other cells.")
    products(R)
    s = session(R)
    items = sweep_items(s, 5 if R.thorough else 4, 3 if R.thorough else 3)
    own = {c.name for *_, c in registry(s) if c.lookup("get_tensor_factorisation")[0] is not
           s.get("symfem.finite_element.FiniteElement").lookup("get_tensor_factorisation")[0]}
    items = [i for i in items if i[2] in MOVED and i[0] in own]
    run_deadline(R, factored, items, 900 if R.thorough else 60)
    R.note(f"{R.facts.count('yes')} elements with a factorisation compared, {R.facts.count('no')} without")
