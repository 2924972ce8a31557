"""Shared extraction of finite elements by abstract interpretation of the element constructors.

An element is analysed for constant (cell, order, keyword) arguments; its polynomials become rational-function terms and
its functionals are kept as abstract objects that are applied to opaque functions."""
import math
import random
from fractions import Fraction as Fr
from sa.query import *
from sa.poly import atom_of
from checks.geom import CELLS, make

P_ = 2305843009213682039      # prime, 3 mod 4, with every prime up to 31 a quadratic residue

PROBE = '''
from symfem.piecewise_functions import PiecewiseFunction
from symfem.finite_element import FiniteElement, CiarletElement, DirectElement, EnrichedElement
from symfem.functions import parse_function_input
def is_pw(f): return isinstance(f, PiecewiseFunction)
def pieces(f): return [(k, v) for k, v in f.pieces.items()]
def is_ciarlet(e): return isinstance(e, CiarletElement)
def is_direct(e): return isinstance(e, DirectElement)
def is_enriched(e): return isinstance(e, EnrichedElement)
def polys(e): return [i for i in e.get_polynomial_basis()]
def dofs(e): return [i for i in e.dofs]
def direct_basis(e): return [i for i in e.get_basis_functions()]
def entity(d): return (d.entity_dim(), d.entity_number())
def kwargs(e): return [(k, v) for k, v in e.init_kwargs().items()]
def make_pw(cells, fs, tdim): return PiecewiseFunction({c: f for c, f in zip(cells, fs)}, tdim)
def apply(d, f): return d.eval_symbolic(f).as_sympy()
def dof_entities(e): return [(d.entity_dim(), d.entity_number()) for d in e.dofs]
def degree(e, kind, side):
    if kind == "lagrange":
        return e.lagrange_subdegree if side == "sub" else e.lagrange_superdegree
    return e.polynomial_subdegree if side == "sub" else e.polynomial_superdegree
def value_type(e): return e.value_type
def recreate(e): return e.__class__(e.reference, e.order, **e.init_kwargs())
'''


def session(R, steps=20_000_000):
    s = Session(R.root, max_steps=steps)
    s.it.structural = True
    s.it.overrides["symfem.caching.load_cached_matrix"] = lambda it, a, k: None
    s.it.overrides["symfem.caching.save_cached_matrix"] = lambda it, a, k: None
    s.elem_probe = s.probe(PROBE, "elem_probe_")
    return s


_CUR = []


def shared(R, steps, uses=10):
    """A session used for several elements in one worker (one analysed program that creates several elements)."""
    if not _CUR or _CUR[1] >= uses:
        _CUR[:] = [session(R, steps), 0]
    _CUR[1] += 1
    s = _CUR[0]
    s.it.max_steps = s.it.steps + steps
    del s.it.uncaught[:]
    return s


def discard():
    """Do not use the shared session again (the last analysis was abandoned)."""
    _CUR[:] = []


def P(s, n):
    return s.attr(s.elem_probe, n)


def plain(s, v):
    """Python value of a constant."""
    d = s.data(v)
    return unrat(d)


def unrat(d):
    if isinstance(d, Rat):
        if not d.is_const():
            return d
        c = d.const_value()
        return int(c) if c.denominator == 1 else c
    if isinstance(d, list):
        return [unrat(q) for q in d]
    return d


def registry(s):
    """[(class name, names, references, min_order, max_order, class value)] of the element table."""
    out = []
    for c in s.it.try_exact(s.get("symfem.create._elementlist")):
        def opt(n):
            v = s.it.getattr(c, n, None)
            if v is None or isinstance(v, int):
                return v
            if is_num(v):
                return unrat(rat_of(v))
            if isinstance(v, Ref) and v.kind == "dict":
                return {k: q for k, q in s.it.get(("d", v.addr))[1].items()}
            return v
        out.append((c.name, s.data(s.attr(c, "names")), s.data(s.attr(c, "references")), opt("min_order"), opt("max_order"), c))
    return out


def dict_items(s, v):
    return s.it.get(("d", v.addr))[1]


def order_range(ref, lo, hi):
    if isinstance(lo, dict):
        lo = lo.get(ref, 0)
    if isinstance(hi, dict):
        hi = hi.get(ref)
    return (0 if lo is None else lo), hi


TRANSITION = {"triangle": [dict(edge_orders=[1, 1, 1]), dict(edge_orders=[2, 3, 1])],
              "tetrahedron": [dict(edge_orders=[1] * 6, face_orders=[1] * 4),
                              dict(edge_orders=[3, 2, 1, 2, 1, 1], face_orders=[3, 3, 1, 2])]}
HEAVY = {("GuzmanNeilan", "tetrahedron")}
DUAL_CELL = "dual polygon"


def catalogue(s, extra=2):
    """[(class, name, cell, order, kwargs)] analysed: every registered class on every cell it lists, from its lowest order."""
    out = []
    for cls, names, refs, lo, hi, c in registry(s):
        for r in refs:
            a, b = order_range(r, lo, hi)
            if not isinstance(a, int):
                continue
            cells = ["dual polygon(4)"] if r.startswith(DUAL_CELL) else [r]
            for cell in cells:
                for o in range(a, a + extra):
                    if isinstance(b, int) and o > b:
                        continue
                    kws = [{}]
                    if cls == "Transition":
                        kws = TRANSITION[cell]
                    for kw in kws:
                        out.append((cls, names[0], cell, o, kw))
    return out


def wrap_kw(s, kw):
    return {k: s.lst(*v) if isinstance(v, list) else v for k, v in kw.items()}


def create(s, item):
    cls, name, cell, order, kw = item
    return s.call(s.get("symfem.create.create_element"), cell, name, order, **wrap_kw(s, kw))


def label(item):
    cls, name, cell, order, kw = item
    return f"{cls} on {cell}, order {order}" + "".join(f", {k}={v}" for k, v in sorted(kw.items()))


def flag(s, name, v):
    b = s.call(P(s, name), v)
    if not isinstance(b, bool):
        raise Unknown(name)
    return b


def seq(s, v):
    q = s.it.try_exact(v)
    if q is None:
        raise Unknown("sequence of unknown length")
    return list(q)


def func(s, v):
    """('all', data) for a function, ('pw', [(cell vertices, data)]) for a piecewise one."""
    if flag(s, "is_pw", v):
        out = []
        for p in seq(s, s.call(P(s, "pieces"), v)):
            k, f = seq(s, p)
            d = s.data(f)
            ex(d)
            out.append((unrat(s.data(k)), d))
        return ("pw", out)
    d = s.data(v)
    ex(d)
    return ("all", d)


def ex(d):
    if has_top(d) or isinstance(d, Alts):
        raise Unknown("imprecise")
    if isinstance(d, list):
        for q in d:
            ex(q)


def flatten(d):
    if isinstance(d, list):
        return [z for q in d for z in flatten(q)]
    return [d]


_RND = {}


def amod(a):
    """Value mod p standing for an opaque constant atom."""
    if a not in _RND:
        at = atom_of(a)
        if at.kind == "sqrt" and at.args[0].is_const():
            c = at.args[0].const_value()
            v = c.numerator * pow(c.denominator, -1, P_) % P_
            r = pow(v, (P_ + 1) // 4, P_)      # p = 3 mod 4
            if r * r % P_ == v:
                _RND[a] = r
                return r
            raise Unknown("square root mod p")
        _RND[a] = random.Random(repr(atom_of(a))).randrange(1, P_)
    return _RND[a]


def coeffs(f, pieces=None, axes=("x", "y", "z")):
    """{(piece, component, monomial): coefficient mod p} of a function term; None if it is not polynomial."""
    out = {}
    kind, d = f
    parts = [(None, d)] if kind == "all" else [(tuple(map(tuple, k)), q) for k, q in d]
    if kind == "all" and pieces:
        parts = [(k, d) for k in pieces]
    ids = {sid(sym(a)) for a in axes}
    for pc, q in parts:
        for ci, r in enumerate(flatten(q)):
            if not isinstance(r, Rat):
                raise Unknown("component")
            den = r.den
            if set(Rat(den).deep_atoms()) & ids:
                return None
            dv = 0
            for m, c in den.t.items():
                t = int(c.numerator) * pow(int(c.denominator), -1, P_) if not isinstance(c, int) else c
                for a, e in m:
                    t = t * pow(amod(a), e, P_)
                dv = (dv + t) % P_
            if dv == 0:
                raise Unknown("denominator")
            di = pow(dv, -1, P_)
            for m, c in r.num.t.items():
                t = (int(c.numerator) * pow(int(c.denominator), -1, P_) if not isinstance(c, int) else c) * di
                key = []
                for a, e in m:
                    if a in ids:
                        key.append((a, e))
                    elif set(Rat(Poly.of_atom(a)).deep_atoms()) & ids:
                        return None
                    else:
                        t = t * pow(amod(a), e, P_)
                k = (pc, ci, tuple(sorted(key)))
                out[k] = (out.get(k, 0) + t) % P_
    return {k: v for k, v in out.items() if v}


def float_of(r):
    """Floating point value of a constant term (used for inequalities only); None when it is not known."""
    def poly(p):
        t = 0.0
        for m, c in p.t.items():
            q = float(c)
            for a, e in m:
                at = atom_of(a)
                if at.kind == "const" and at.args[0] in ("pi", "mathpi"):
                    q *= math.pi ** e
                    continue
                if at.kind == "app" and len(at.args) == 2 and at.args[0] in ("sympy.cos", "sympy.sin"):
                    v = float_of(at.args[1])
                    if v is None:
                        return None
                    q *= (math.cos if at.args[0] == "sympy.cos" else math.sin)(v) ** e
                    continue
                if at.kind != "sqrt" or not isinstance(at.args[0], Rat):
                    return None
                v = float_of(at.args[0])
                if v is None or v < 0:
                    return None
                q *= v ** (e / 2)
            t += q
        return t
    n, d = poly(r.num), poly(r.den)
    return None if n is None or not d else n / d


def polymod(poly, env):
    t = 0
    for m, c in poly.t.items():
        q = c % P_ if isinstance(c, int) else int(c.numerator) * pow(int(c.denominator), -1, P_)
        for a, e in m:
            v = env.get(a)
            if v is None:
                if set(Rat(Poly.of_atom(a)).deep_atoms()) & set(env):
                    raise Unknown("not rational")
                v = amod(a)
            q = q * pow(v, e, P_)
        t += q
    return t % P_


def values_at(f, npts, cells=None):
    """{(cell, component, point number): value mod p} at fixed random points."""
    rnd = random.Random(7)
    kind, d = f
    parts = [(None, d)] if kind == "all" else [(tuple(map(tuple, k)), q) for k, q in d]
    if kind == "all" and cells:
        parts = [(k, d) for k in cells]
    ids = [sid(sym(a)) for a in ("x", "y", "z")]
    pts = [{i: rnd.randrange(1, P_) for i in ids} for _ in range(npts)]
    out = {}
    for pc, q in parts:
        for ci, r in enumerate(flatten(q)):
            if r.num.t:
                for j, env in enumerate(pts):
                    v = polymod(r.num, env) * pow(polymod(r.den, env), -1, P_) % P_
                    if v:
                        out[(pc, ci, j)] = v
    return out


def vectors(*lists):
    """Lists of functions as coefficient vectors in one coordinate system (point values when not polynomial)."""
    cells = None
    for fs in lists:
        for f in fs:
            if f[0] == "pw":
                c = [tuple(map(tuple, k)) for k, _ in f[1]]
                if cells is not None and cells != c:
                    raise Unknown("different pieces")
                cells = c
    out = [[coeffs(f, cells) for f in fs] for fs in lists]
    if any(v is None for fs in out for v in fs):
        n = 2 * max(len(fs) for fs in lists) + 5
        out = [[values_at(f, n, cells) for f in fs] for fs in lists]
    return out if len(lists) > 1 else out[0]


def rank(vs):
    return len(Span(vs))


def KEY(k):
    return str(k)


class Span:
    """Row space mod p with membership tests."""

    def __init__(self, vectors=()):
        self.piv = {}
        for v in vectors:
            self.add(v)

    def reduce(self, v):
        v = dict(v)
        todo = sorted(v, key=KEY)
        import heapq
        heap = [(KEY(k), k) for k in v]
        heapq.heapify(heap)
        out = {}
        while heap:
            _, k = heapq.heappop(heap)
            c = v.pop(k, 0)
            if not c:
                continue
            row = self.piv.get(k)
            if row is None:
                out[k] = c
                continue
            for a, b in row.items():
                if a == k:
                    continue
                if a not in v:
                    heapq.heappush(heap, (KEY(a), a))
                    v[a] = 0
                v[a] = (v[a] - c * b) % P_
        return out

    def add(self, v):
        v = self.reduce(v)
        if not v:
            return False
        k = min(v, key=KEY)
        i = pow(v[k], -1, P_)
        self.piv[k] = {a: b * i % P_ for a, b in v.items()}
        return True

    def __contains__(self, v):
        return not self.reduce(v)

    def __len__(self):
        return len(self.piv)


def opaque(s, e, name="v"):
    """(opaque function of the element's value kind, its data, dims)."""
    n = plain(s, s.attr(e, "domain_dim"))
    rd = plain(s, s.attr(e, "range_dim"))
    rs = s.attr(e, "range_shape")
    rs = None if rs is None else tuple(plain(s, rs))
    if rd == 1:
        f = s.fn_atom(name, n)
        return s.scalar(f), f
    if rs is None or len(rs) == 1:
        f = [s.fn_atom(f"{name}{i}", n) for i in range(rd)]
        return s.vector(f), f
    f = [[s.fn_atom(f"{name}{i}{j}", n) for j in range(rs[1])] for i in range(rs[0])]
    return s.matrix(f), f


def const_atom(name):
    return Rat.atom("fn", name, (), ())


def rebuild(s, e, d):
    """symfem function object from nested data."""
    if not isinstance(d, list):
        return s.scalar(d)
    if not isinstance(d[0], list):
        return s.vector(d)
    return s.matrix(d)


def shape_map(d, fn, idx=()):
    if isinstance(d, list):
        return [shape_map(q, fn, idx + (i,)) for i, q in enumerate(d)]
    return fn(idx, d)


def monomials(r, ids):
    """Axis monomials of a polynomial term; None if not polynomial in the axes."""
    if set(Rat(r.den).deep_atoms()) & ids:
        return None
    out = set()
    for m in r.num.t:
        key = []
        for a, e in m:
            if a in ids:
                key.append((a, e))
            elif set(Rat(Poly.of_atom(a)).deep_atoms()) & ids:
                return None
        out.add(tuple(key))
    return out


class Space:
    """The polynomial space of an element with one generic function of it, whose coefficients are opaque constants."""

    def __init__(self, s, e, fs):
        self.s, self.e, self.fs = s, e, fs
        ids = {sid(sym(a)) for a in ("x", "y", "z")}
        pieces = None
        for f in fs:
            if f[0] == "pw":
                pieces = [k for k, _ in f[1]]
        self.pieces = pieces
        parts = [[(None, f[1])] if pieces is None else
                 [(j, q) for j, (_, q) in enumerate(f[1])] if f[0] == "pw" else [(j, f[1]) for j in range(len(pieces))] for f in fs]
        mons, ok = {}, True
        for p in parts:
            for j, d in p:
                for c, r in enumerate(flatten(d)):
                    m = monomials(r, ids)
                    if m is None:
                        ok = False
                        break
                    mons.setdefault((j, c), set()).update(m)
        self.coef = {}
        if ok:
            def gen(j, d):
                n = [-1]

                def one(idx, r):
                    n[0] += 1
                    t = {}
                    for m in sorted(mons.get((j, n[0]), ())):
                        a = sid(const_atom(f"c{len(self.coef)}"))
                        self.coef[a] = (None if j is None else tuple(map(tuple, pieces[j])), n[0], m)
                        t[tuple(sorted(m + ((a, 1),)))] = Fr(1)
                    return Rat(Poly(t))
                return shape_map(d, one)
            self.rows = coeffs_list(fs, pieces)
        else:
            if pieces is not None:
                raise Unknown("rational pieces")

            def gen(j, d):
                cs = [const_atom(f"c{k}") for k in range(len(fs))]
                for k, c in enumerate(cs):
                    self.coef[sid(c)] = k
                fl = [flatten(f[1]) for f in fs]
                n = [-1]

                def one(idx, r):
                    n[0] += 1
                    return sum((c * q[n[0]] for c, q in zip(cs, fl)), R0)
                return shape_map(d, one)
            self.rows = [{k: 1} for k in range(len(fs))]
        self.polynomial = ok
        if pieces is None:
            self.generic = gen(None, fs[0][1])
            self.obj = rebuild(s, e, self.generic)
        else:
            first = next(f for f in fs if f[0] == "pw")
            self.generic = [gen(j, first[1][j][1]) for j in range(len(pieces))]
            tdim = max(len(v) for v in pieces[0])
            self.obj = s.call(P(s, "make_pw"), s.lst(*[s.tup(*[s.tup(*[Rat.const(c) if not isinstance(c, Rat) else c for c in v]) for v in k]) for k in pieces]),
                              s.lst(*[rebuild(s, e, g) for g in self.generic]), tdim)

    def form(self, r):
        """A linear form in the coefficients as {coordinate: value mod p}."""
        if isinstance(r, (int, Fr)):
            r = Rat.const(r)
        dv = polymod(r.den, {})
        if not dv:
            raise Unknown("denominator")
        di = pow(dv, -1, P_)
        out = {}
        for m, c in r.num.t.items():
            k, q = None, di * (int(c.numerator) * pow(int(c.denominator), -1, P_))
            for a, e in m:
                if a in self.coef:
                    if k is not None or e != 1:
                        raise NotLinear()
                    k = self.coef[a]
                else:
                    if set(Rat(Poly.of_atom(a)).deep_atoms()) & set(self.coef):
                        raise NotLinear()
                    q = q * pow(amod(a), e, P_)
            if k is None:
                raise NotLinear()
            out[k] = (out.get(k, 0) + q) % P_
        return {k: v for k, v in out.items() if v}

    def on_basis(self, form):
        """Values of a linear form on the functions spanning the space."""
        return {i: v for i, v in ((i, sum(form.get(k, 0) * c for k, c in row.items()) % P_) for i, row in enumerate(self.rows)) if v}

    def apply(self, dof):
        d = self.s.data(self.s.call(P(self.s, "apply"), dof, self.obj))
        ex(d)
        return self.form(d)


class NotLinear(Exception):
    pass


def coeffs_list(fs, pieces):
    cells = [tuple(map(tuple, k)) for k in pieces] if pieces else None
    return [coeffs(f, cells) for f in fs]


class Extract:
    """Polynomial basis, functionals and dual matrix of one element."""

    def __init__(self, s, item, forms=True, e=None):
        self.s, self.item = s, item
        self.e = e = create(s, item) if e is None else e
        self.ciarlet = flag(s, "is_ciarlet", e)
        self.direct = flag(s, "is_direct", e)
        self.fs = self.dofs = self.space = None
        if self.ciarlet or self.direct:
            self.objs = seq(s, s.call(P(s, "polys" if self.ciarlet else "direct_basis"), e))
            self.fs = [func(s, p) for p in self.objs]
            self.space = Space(s, e, self.fs)
        if self.ciarlet:
            self.dofs = seq(s, s.call(P(s, "dofs"), e))
            if forms:
                self.forms = [self.space.apply(d) for d in self.dofs]
                self.dual = [self.space.on_basis(f) for f in self.forms]
