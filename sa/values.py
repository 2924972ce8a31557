"""Abstract values."""
from fractions import Fraction
from .poly import Rat, Poly, R0, R1, rsubs, atom_of, TRIG


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Num:
    """Numeric value: value number + kind (int, sym, float, symf, num)."""
    __slots__ = ("r", "k")

    def __init__(self, r, k):
        self.r, self.k = r, k

    def __repr__(self):
        return f"{self.r!r}:{self.k}"

    def __eq__(self, o):
        return isinstance(o, Num) and self.k == o.k and self.r == o.r

    def __hash__(self):
        return hash((self.r, self.k))


_topn = [0]


class Top:
    """Unknown value."""
    __slots__ = ("why", "n")

    def __init__(self, why=""):
        self.why = why
        _topn[0] += 1
        self.n = _topn[0]

    def __repr__(self):
        return f"T({self.why})"


def fresh_num(k="sym", why=""):
    _topn[0] += 1
    return Num(Rat.atom("top", f"{why}#{_topn[0]}"), k)


class Phi:
    """Join of several values: ((guard term or None, value), ...)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Phi(" + " | ".join(repr(v) for _, v in self.alts) + ")"

    def __eq__(self, o):
        return isinstance(o, Phi) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)


class BoolT:
    """Boolean term."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"B{self.t!r}"

    def __eq__(self, o):
        return isinstance(o, BoolT) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class StrT:
    """String with unknown parts: tuple of str | value."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"StrT{self.parts!r}"

    def __eq__(self, o):
        return isinstance(o, StrT) and self.parts == o.parts

    def __hash__(self):
        return hash(("StrT",) + tuple(repr(p) for p in self.parts))


class Fam:
    """Indexed family of list segments: ctx entries
       ('for', idx_atom_id, lo Rat, hi Rat) | ('if', term) | ('for?', why)."""
    __slots__ = ("ctx", "segs")

    def __init__(self, ctx, segs):
        self.ctx, self.segs = tuple(ctx), tuple(segs)

    def __repr__(self):
        return f"Fam[{self.ctx!r}: {list(self.segs)!r}]"

    def __eq__(self, o):
        return isinstance(o, Fam) and self.ctx == o.ctx and self.segs == o.segs

    def __hash__(self):
        return hash((self.ctx, len(self.segs)))


class TupleV:
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def exact(self):
        return not any(isinstance(s, Fam) for s in self.segs)

    def __repr__(self):
        return f"({', '.join(map(repr, self.segs))})"

    def __eq__(self, o):
        return isinstance(o, TupleV) and self.segs == o.segs

    def __hash__(self):
        return hash(("TupleV", self.segs))


class Ref:
    """Heap reference; kind is 'list','dict','set','inst','mat','iter'."""
    __slots__ = ("addr", "kind", "cls")

    def __init__(self, addr, kind, cls=None):
        self.addr, self.kind, self.cls = addr, kind, cls

    def __repr__(self):
        return f"<{self.kind} {self.cls.name if self.cls else ''}@{self.addr}>"

    def __eq__(self, o):
        return isinstance(o, Ref) and self.addr == o.addr

    def __hash__(self):
        return hash(("Ref", self.addr))


class FuncV:
    def __init__(self, node, name, module, frame, defaults, kwdefaults, cls=None, qual=None, decos=()):
        self.node, self.name, self.module, self.frame = node, name, module, frame
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.qual = qual or name
        self.decos = decos
        self.is_gen = False
        self.abstract = False

    def __repr__(self):
        return f"<func {self.module}.{self.qual}>"


class BoundV:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self_!r}>"

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self_ == self.self_

    def __hash__(self):
        return hash(id(self.func))


class PropV:
    __slots__ = ("fget",)

    def __init__(self, fget):
        self.fget = fget


class StaticV:
    __slots__ = ("func", "kind")

    def __init__(self, func, kind="static"):
        self.func, self.kind = func, kind


class ClassV:
    def __init__(self, name, module, bases, node, cid):
        self.name, self.module, self.bases, self.node, self.cid = name, module, bases, node, cid
        self.attrs = {}
        self._mro = None

    def __repr__(self):
        return f"<class {self.module}.{self.name}>"

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return UNDEF, None

    def is_subclass(self, other):
        return other in self.mro()


class ExtClass:
    """Class outside the analysed sources (builtins, sympy, ...)."""
    _all = {}

    def __new__(cls, name, bases=()):
        if name in cls._all:
            return cls._all[name]
        o = object.__new__(cls)
        o.name = name
        o.bases = tuple(bases)
        o.module = "ext"
        o.attrs = {}
        cls._all[name] = o
        return o

    def __repr__(self):
        return f"<extclass {self.name}>"

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def is_subclass(self, other):
        return other in self.mro()

    def lookup(self, name):
        return UNDEF, None


def _c3(c):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[z for z in s if z is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    bs = [b for b in c.bases if isinstance(b, (ClassV, ExtClass))]
    return [c] + merge([b.mro() for b in bs] + [bs])


class ModuleV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    """Dotted path into an external module."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ObjT:
    """Opaque external object (e.g. a file handle) identified by a term."""
    __slots__ = ("term", "type")

    def __init__(self, term, type=""):
        self.term, self.type = term, type

    def __repr__(self):
        return f"<obj {self.type} {self.term!r}>"

    def __eq__(self, o):
        return isinstance(o, ObjT) and o.term == self.term

    def __hash__(self):
        return hash(repr(self.term))


def is_num(v):
    return isinstance(v, (int, float, Num)) and not isinstance(v, bool) or isinstance(v, bool)


def rat_of(v):
    if isinstance(v, Num):
        return v.r
    if isinstance(v, bool):
        return R1 if v else R0
    if isinstance(v, int):
        return Rat.const(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return Rat.atom("const", repr(v))
        return Rat.const(Fraction(v))
    raise TypeError(repr(v))


def kind_of(v):
    if isinstance(v, Num):
        return v.k
    if isinstance(v, (bool, int)):
        return "int"
    if isinstance(v, float):
        return "float"
    return None


def mk(r, k):
    """Normalise: constant ints become python ints."""
    if k == "int" and r.is_const():
        c = r.const_value()
        if c.denominator == 1:
            return int(c)
    return Num(r, k)


# ---- boolean terms -------------------------------------------------------------------

def b_not(t):
    if t is True:
        return False
    if t is False:
        return True
    if t[0] == "not":
        return t[1]
    if t[0] == "cmp":
        op, r = t[1], t[2]
        if op == "==":
            return ("cmp", "!=", r)
        if op == "!=":
            return ("cmp", "==", r)
        if op == "<":
            return ("cmp", "<=", -r)
        if op == "<=":
            return ("cmp", "<", -r)
    return ("not", t)


def b_and(*ts):
    out = []
    for t in ts:
        if t is True:
            continue
        if t is False:
            return False
        if t[0] == "and":
            out.extend(x for x in t[1] if x not in out)
        elif t not in out:
            out.append(t)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def b_or(*ts):
    return b_not(b_and(*[b_not(t) for t in ts]))


def b_cmp(op, a, b):
    """Term for a op b with a, b Rats. Normal form: r op 0, op in ==, !=, <, <=."""
    if op == ">":
        return b_cmp("<", b, a)
    if op == ">=":
        return b_cmp("<=", b, a)
    d = a - b
    if d.is_const():
        c = d.const_value()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0}[op]
    ats = d.atoms()
    if op in ("==", "!=") and ats <= TRIG:
        # sympy compares expressions by structure: an identity between sin and cos is seen after simplifying only
        return op == "!="
    if len(ats) <= 4:
        from .poly import closed_float
        v = closed_float(d)
        if v is not None and abs(v) > 1e-9:
            return {"==": False, "!=": True, "<": v < 0, "<=": v < 0}[op]
    if op in ("==", "!="):
        # canonical sign / scale
        if d.den == R1.num:
            lm = max(d.num.t)
            d = Rat(d.num.scale(1 / d.num.t[lm]))
    elif d.den == R1.num:
        lm = max(d.num.t)
        c = abs(d.num.t[lm])
        if c != 1:
            d = Rat(d.num.scale(1 / c))
    return ("cmp", op, d)
