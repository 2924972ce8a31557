"""Building queries for the abstract interpreter and reading its answers."""
from .interp import Interp, Dead, Budget
from fractions import Fraction
from .poly import Rat, Poly, R0, R1, rsame, rsubs, rdiff, rint, rabs, rsqrt, sym, atom_of, atom
from .values import *


class Unknown(Exception):
    """The analysis could not determine a value."""


class AnchorLost(Exception):
    """A named API element the check is anchored on is gone."""


def X(n=3):
    return [sym(s) for s in ("x", "y", "z")[:n]]


def sid(r):
    return next(iter(r.atoms()))


class Session:
    def __init__(self, root="/repo", kinds=(), max_steps=20_000_000, load="symfem", before=None):
        self.it = Interp(root, "symfem", max_steps)
        self.it.event_kinds = set(kinds)
        self.raised = None
        if before:
            before(self.it)
        self.it.load(load)

    def mod(self, name):
        m = self.it.load(name)
        return m

    def get(self, path):
        """'symfem.mappings.covariant' or 'symfem.references.Triangle.contains' -> value."""
        parts = path.split(".")
        for i in range(len(parts), 0, -1):
            name = ".".join(parts[:i])
            try:
                p = self.it.mod_path(name)
            except Exception:
                p = None
            if p:
                v = self.it.load(name)
                for q in parts[i:]:
                    v = self.attr(v, q)
                return v
        raise AnchorLost(path)

    def attr(self, o, name):
        try:
            return self.it.getattr(o, name)
        except Dead:
            raise AnchorLost(f"{o!r}.{name}")

    def has(self, o, name):
        v = self.it.getattr(o, name, None)
        return v is not None

    def call(self, f, *args, **kw):
        """Call; raises Dead if every path raises."""
        return self.it.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.call(self.attr(o, name), *args, **kw)

    # -- building values
    def num(self, r, k="sym"):
        return mk(r if isinstance(r, Rat) else Rat.const(r), k)

    def tup(self, *xs):
        return TupleV(tuple(self.wrap(x) for x in xs))

    def lst(self, *xs):
        return self.it.new_list(tuple(self.wrap(x) for x in xs))

    def wrap(self, x):
        if isinstance(x, Rat):
            return Num(x, "sym")
        if isinstance(x, (tuple,)):
            return self.tup(*x)
        if isinstance(x, list):
            return self.lst(*x)
        return x

    def fn_atom(self, name, n=3, pt=None):
        pt = pt if pt is not None else tuple(X(n))
        return Rat.atom("fn", name, (0,) * len(pt), tuple(pt))

    def scalar(self, expr):
        return self.call(self.get("symfem.functions.ScalarFunction"), self.wrap(expr))

    def vector(self, exprs):
        return self.call(self.get("symfem.functions.VectorFunction"), self.lst(*exprs))

    def matrix(self, rows):
        return self.call(self.get("symfem.functions.MatrixFunction"), self.lst(*[list(r) for r in rows]))

    def ref(self, name):
        return self.call(self.get("symfem.create.create_reference"), name)

    def probe(self, src, name="probe_"):
        """Load client source text as a module of the analysed program; returns its ModuleV."""
        from .desugar import parse
        it = self.it
        it.trees[name] = parse(src)
        it.mod_path_extra[name] = True
        it.load(name)
        return ModuleV(name)

    def dead(self, f, *args, **kw):
        """True when the call raises on every path (state rolled back either way)."""
        mark = len(self.it.trail)
        n = len(self.it.uncaught)
        try:
            self.call(f, *args, **kw)
            return False
        except Dead:
            return True
        finally:
            del self.it.uncaught[n:]
            self.it.undo(mark)

    # -- reading values
    def data(self, v, depth=0):
        """Nested lists of Rat / python values; Phi -> Alts."""
        it = self.it
        if isinstance(v, Phi):
            return Alts([(g, self.data(x, depth + 1)) for g, x in v.alts])
        if v is None or isinstance(v, (bool, str)):
            return v
        if is_num(v):
            return rat_of(v)
        if isinstance(v, Ref) and v.kind == "mat":
            rows = self.it.models.mat_rows(it, v)
            if rows is None:
                raise Unknown("matrix")
            return [[self.data(x, depth + 1) for x in r] for r in rows]
        if isinstance(v, Ref) and v.kind == "inst":
            f, _ = v.cls.lookup("as_sympy")
            if f is not UNDEF:
                return self.data(self.meth(v, "as_sympy"), depth + 1)
            raise Unknown(f"instance of {v.cls.name}")
        if isinstance(v, TupleV) or isinstance(v, Ref) and v.kind == "list":
            q = it.try_exact(v)
            if q is None:
                raise Unknown("sequence of unknown length")
            return [self.data(x, depth + 1) for x in q]
        raise Unknown(repr(v)[:80])

    def shape_kind(self, v):
        """'scalar' | 'vector' | 'matrix' | None by class flags."""
        for n in ("is_scalar", "is_vector", "is_matrix"):
            try:
                b = self.it.getattr(v, n)
            except Dead:
                return None
            if b is True:
                return n[3:]
        return None


class Alts:
    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Alts" + repr(self.alts)


def each_alt(d):
    """All fully resolved alternatives of nested data (bounded)."""
    if isinstance(d, Alts):
        for g, x in d.alts:
            yield from each_alt(x)
    elif isinstance(d, list):
        def rec(i):
            if i == len(d):
                yield []
                return
            for h in each_alt(d[i]):
                for t in rec(i + 1):
                    yield [h] + t
        n = 0
        for z in rec(0):
            n += 1
            if n > 64:
                raise Unknown("too many alternatives")
            yield z
    else:
        yield d


def data_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(data_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Rat) and isinstance(b, Rat):
        return rsame(a, b)
    if isinstance(a, (int, Fraction)) and isinstance(b, Rat):
        return Rat.const(a) == b
    if isinstance(b, (int, Fraction)) and isinstance(a, Rat):
        return Rat.const(b) == a
    return type(a) is type(b) and a == b


def flat(m):
    """Flatten a matrix given as rows."""
    return [x for r in m for x in r]


TAINTED = ("top", "app", "D")


def has_top(d):
    if isinstance(d, Alts):
        return any(has_top(x) for _, x in d.alts)
    if isinstance(d, list):
        return any(has_top(x) for x in d)
    if isinstance(d, Rat):
        return any(atom_of(a).kind in ("top",) for a in d.deep_atoms())
    return False


def matmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), R0) for j in range(len(b[0]))] for i in range(len(a))]


def matvec(a, v):
    return [sum((a[i][k] * v[k] for k in range(len(v))), R0) for i in range(len(a))]


def transpose(a):
    return [list(c) for c in zip(*a)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum(((m[0][j] if j % 2 == 0 else -m[0][j]) * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), R0)


def jac(fs, xs):
    return [[rdiff(f, sid(x)) for x in xs] for f in fs]


def subs_pt(r, xs, pts):
    return rsubs(r, {sid(x): p for x, p in zip(xs, pts)})
