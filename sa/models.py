"""Transfer functions for builtins, the standard library and sympy."""
import ast
import os
from fractions import Fraction

from .poly import (Rat, Poly, R0, R1, rsubs, rdiff, rpow, rabs, rsqrt, rint, atom, atom_of, sym, TRIG, TRIG_SIN, TRIG_COS)
from .values import *

OBJECT = ExtClass("object")
T_INT = ExtClass("int")
T_BOOL = ExtClass("bool", (T_INT,))
T_FLOAT = ExtClass("float")
T_STR = ExtClass("str")
T_LIST = ExtClass("list")
T_TUPLE = ExtClass("tuple")
T_DICT = ExtClass("dict")
T_SET = ExtClass("set")
T_NONE = ExtClass("NoneType")
T_TYPE = ExtClass("type")
T_COMPLEX = ExtClass("complex")
T_BYTES = ExtClass("bytes")
T_BASIC = ExtClass("sympy.Basic")
T_EXPR = ExtClass("sympy.Expr", (T_BASIC,))
T_SYMBOL = ExtClass("sympy.Symbol", (T_EXPR,))
T_NUMBER = ExtClass("sympy.Number", (T_EXPR,))
T_RATIONAL = ExtClass("sympy.Rational", (T_NUMBER,))
T_INTEGER = ExtClass("sympy.Integer", (T_RATIONAL,))
T_SFLOAT = ExtClass("sympy.Float", (T_NUMBER,))
T_MATRIX = ExtClass("sympy.Matrix")
T_POLY = ExtClass("sympy.Poly", (T_BASIC,))
T_ABC = ExtClass("abc.ABC")
T_FUNC = ExtClass("function")

EXT_VALUES = {
    "sympy.core.expr.Expr": T_EXPR, "sympy.Expr": T_EXPR, "sympy.core.Expr": T_EXPR,
    "sympy.core.symbol.Symbol": T_SYMBOL, "sympy.Symbol": T_SYMBOL,
    "sympy.Basic": T_BASIC, "sympy.core.basic.Basic": T_BASIC,
    "sympy.Integer": T_INTEGER, "sympy.core.numbers.Integer": T_INTEGER,
    "sympy.Rational": T_RATIONAL, "sympy.core.numbers.Rational": T_RATIONAL,
    "sympy.Float": T_SFLOAT, "sympy.core.numbers.Float": T_SFLOAT, "sympy.Number": T_NUMBER,
    "sympy.Matrix": T_MATRIX, "sympy.matrices.dense.MutableDenseMatrix": T_MATRIX,
    "sympy.MatrixBase": T_MATRIX, "sympy.matrices.MatrixBase": T_MATRIX, "sympy.matrices.matrices.MatrixBase": T_MATRIX,
    "sympy.matrices.matrixbase.MatrixBase": T_MATRIX, "sympy.MutableDenseMatrix": T_MATRIX, "sympy.matrices.Matrix": T_MATRIX,
    "sympy.Poly": T_POLY,
    "sympy.pi": Num(Rat.atom("const", "pi"), "sym"), "sympy.oo": Num(Rat.atom("const", "oo"), "sym"),
    "sympy.E": Num(Rat.atom("const", "E"), "sym"), "sympy.I": Num(Rat.atom("const", "I"), "sym"),
    "math.pi": Num(Rat.atom("const", "mathpi"), "float"), "math.e": Num(Rat.atom("const", "mathe"), "float"),
    "math.inf": float("inf"), "math.nan": Num(Rat.atom("const", "nan"), "float"),
    "abc.ABC": T_ABC, "typing.TYPE_CHECKING": False,
    "sympy.S.Half": Num(Rat.const(Fraction(1, 2)), "sym"), "sympy.S.One": Num(R1, "sym"),
    "sympy.S.Zero": Num(R0, "sym"), "sympy.S.NegativeOne": Num(-R1, "sym"), "sympy.S.Pi": Num(Rat.atom("const", "pi"), "sym"),
    "types.FunctionType": T_FUNC,
}


KNOWN_SYMPY = {T_BASIC, T_EXPR, T_SYMBOL, T_NUMBER, T_RATIONAL, T_INTEGER, T_SFLOAT, T_MATRIX, T_POLY}


def install(it):
    _install_exc()


def num_join_kind(k1, k2):
    ks = {k1, k2}
    if "num" in ks:
        return "symf" if "symf" in ks else "num"
    if "symf" in ks:
        return "symf"
    if "sym" in ks:
        return "symf" if "float" in ks else "sym"
    if "float" in ks:
        return "float"
    return "int"


def num_binop(it, op, a, b):
    k1, k2 = kind_of(a), kind_of(b)
    k = num_join_kind(k1, k2)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "Pow":
                if isinstance(b, int) and abs(b) > 10000:
                    return fresh_num(k)
                return a ** b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
            if op == "Div":
                if b == 0:
                    it.raise_("ZeroDivisionError")
                it.event("intdiv", a=a, b=b)
                return a / b
        except ZeroDivisionError:
            it.raise_("ZeroDivisionError")
        except (OverflowError, TypeError):
            return fresh_num(k)
    ra, rb = rat_of(a), rat_of(b)
    if op == "Add":
        return mk(ra + rb, k)
    if op == "Sub":
        return mk(ra - rb, k)
    if op == "Mult":
        return mk(ra * rb, k)
    if op == "Div":
        if k == "int":
            it.event("intdiv", a=a, b=b)
            k = "float"
        if rb.is_zero():
            if k in ("sym", "symf"):
                return fresh_num(k, "zoo")
            it.raise_("ZeroDivisionError")
        return mk(ra / rb, k)
    if op == "FloorDiv":
        if ra.is_const() and rb.is_const() and not rb.is_zero():
            q = ra.const_value() / rb.const_value()
            return mk(Rat.const(q.numerator // q.denominator), k)
        if rb.is_const() and not rb.is_zero():
            q = ra * Rat.const(1 / rb.const_value())
            if q.den == R1.num and all(c.denominator == 1 for c in q.num.t.values()) and _int_atoms(q):
                return mk(q, k)
        return mk(Rat.atom("floordiv", ra, rb), k)
    if op == "Mod":
        if ra.is_const() and rb.is_const() and not rb.is_zero():
            return mk(Rat.const(ra.const_value() % rb.const_value()), k)
        return mk(Rat.atom("mod", ra, rb), k)
    if op == "Pow":
        if k == "int" and rb.is_const() and rb.const_value() < 0:
            it.event("intdiv", a=a, b=b)
            k = "float"
        if rb.is_const() and rb.const_value().denominator == 1:
            e = int(rb.const_value())
            if abs(e) > 64:
                return mk(Rat.atom("pow", ra, rb), k)
            if e < 0 and ra.is_zero():
                return fresh_num(k, "zoo")
            if len(ra.num.t) > 12 and e > 6:
                return mk(Rat.atom("pow", ra, rb), k)
            return mk(ra.ipow(e), k)
        return mk(rpow(ra, rb), k)
    return fresh_num(k, op)


def _int_atoms(r):
    for a in r.atoms():
        if atom_of(a).kind not in ("idx", "var", "card", "floordiv", "mod"):
            return False
    return True


def is_expr(v):
    return isinstance(v, Num) and v.k in ("sym", "symf", "num")


def other_binop(it, op, a, b):
    # sympy Expr with an object convertible to sympy
    for x, y, sw in ((a, b, False), (b, a, True)):
        pass
    if isinstance(a, str) and op == "Mod":
        return StrT([a, b])
    if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)) and op == "Add":
        return mkstr(([a] if isinstance(a, str) else list(a.parts)) + ([b] if isinstance(b, str) else list(b.parts)))
    if op == "Mult" and isinstance(a, str) and isinstance(b, int):
        return a * b
    if op == "Mult" and isinstance(b, str) and isinstance(a, int):
        return b * a
    if op == "Mult" and (isinstance(a, (str, StrT)) or isinstance(b, (str, StrT))):
        return StrT([Top("strmul")])
    if op == "Add" and (isinstance(a, (str, StrT)) or isinstance(b, (str, StrT))):
        if isinstance(a, Top) or isinstance(b, Top):
            return StrT([a, b])
        it.event("type_error", op=op, a=a, b=b)
        it.raise_("TypeError")
    sa, sb = it.seq_of(a), it.seq_of(b)
    if op == "Add" and sa and sb:
        if sa[0] != sb[0]:
            it.event("type_error", op=op, a=a, b=b)
            it.raise_("TypeError")
        segs = tuple(sa[1]) + tuple(sb[1])
        return TupleV(segs) if sa[0] == "tuple" else it.new_list(segs)
    if op == "Mult" and (sa or sb):
        s, n = (sa, b) if sa else (sb, a)
        if isinstance(n, int) and not isinstance(n, bool) or isinstance(n, bool):
            if len(s[1]) * int(n) > 20000:
                return Top("bigseq")
            segs = tuple(s[1]) * int(n)
            return TupleV(segs) if s[0] == "tuple" else it.new_list(segs)
        if isinstance(n, Num):
            i = it.new_idx("r")
            segs = (Fam((("for", i, R0, n.r),), s[1]),)
            return TupleV(segs) if s[0] == "tuple" else it.new_list(segs)
    if isinstance(a, Ref) and a.kind == "mat" or isinstance(b, Ref) and b.kind == "mat":
        return mat_binop(it, op, a, b)
    if isinstance(a, Ref) and a.kind in ("dict", "set") and isinstance(b, Ref) and b.kind == a.kind:
        da, db = it.get(("d", a.addr)), it.get(("d", b.addr))
        ex = da[0] is True and db[0] is True
        n = it.alloc()
        if op == "BitOr":
            m = dict(da[1])
            m.update(db[1])
        elif op == "BitAnd":
            m = {k: v for k, v in da[1].items() if k in db[1]}
        elif op == "Sub":
            m = {k: v for k, v in da[1].items() if k not in db[1]}
        elif op == "BitXor":
            m = {k: v for k, v in list(da[1].items()) + list(db[1].items()) if (k in da[1]) != (k in db[1])}
        else:
            return Top("setop")
        it.set(("d", n), (ex or False, m))
        return Ref(n, a.kind)
    if isinstance(a, Top) or isinstance(b, Top):
        o = b if isinstance(a, Top) else a
        if is_num(o) and op in ("Add", "Sub", "Mult", "Div", "Pow"):
            return Top("arith " + (a.why if isinstance(a, Top) else b.why))
        return Top("binop")
    if isinstance(a, ObjT) or isinstance(b, ObjT):
        return ObjT(("binop", op, a, b), getattr(a, "type", "") or getattr(b, "type", ""))
    if (is_num(a) or a is None or sa) and (is_num(b) or b is None or sb):
        it.event("type_error", op=op, a=a, b=b)
        it.raise_("TypeError")
    return Top("binop")


# ------------------------------------------------------------------ strings

def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, StrT):
            out.extend(p.parts)
        else:
            out.append(p)
    m = []
    for p in out:
        if isinstance(p, str) and m and isinstance(m[-1], str):
            m[-1] += p
        elif p == "":
            continue
        else:
            m.append(p)
    if not m:
        return ""
    if len(m) == 1 and isinstance(m[0], str):
        return m[0]
    return StrT(m)


def format_value(it, v, conversion=-1, spec=None):
    if spec is not None and not (isinstance(spec, ast.JoinedStr) and not spec.values):
        if isinstance(v, (int, float, str)) and not isinstance(v, bool):
            try:
                sv = it.ev(spec)
                if isinstance(sv, str):
                    return format(v, sv)
            except Exception:
                pass
        return StrT([v])
    return to_str(it, v, conversion == 114)


def to_str(it, v, rep=False):
    if isinstance(v, str):
        return repr(v) if rep else v
    if isinstance(v, StrT):
        return v
    if isinstance(v, (bool, int, float, type(None))):
        return str(v)
    if isinstance(v, Num) and v.k == "sym" and v.r.is_const():
        return str(v.r.const_value())
    if isinstance(v, Num) and v.r.den == R1.num and len(v.r.num.t) == 1:
        (m, c), = v.r.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and atom_of(m[0][0]).kind == "sym":
            return atom_of(m[0][0]).args[0]
    if isinstance(v, TupleV) and v.exact():
        parts = ["("]
        for i, s in enumerate(v.segs):
            if i:
                parts.append(", ")
            parts.append(to_str(it, s, True))
        parts.append(",)" if len(v.segs) == 1 else ")")
        r = mkstr(parts)
        if isinstance(r, str):
            return r
        return StrT([v])
    if isinstance(v, Ref) and v.kind == "dict":
        d = it.get(("d", v.addr))
        if d is not UNDEF and d[0] is True:
            parts = ["{"]
            for i, (k, x) in enumerate(d[1].items()):
                parts += [", " if i else "", to_str(it, k, True), ": ", to_str(it, x, True)]
            return mkstr(parts + ["}"])
    if isinstance(v, Ref) and v.kind == "list":
        q = it.try_exact(v)
        if q is not None:
            parts = ["["]
            for i, x in enumerate(q):
                parts += [", " if i else "", to_str(it, x, True)]
            return mkstr(parts + ["]"])
    if isinstance(v, Ref) and v.kind == "inst":
        for nm in (("__repr__",) if rep else ("__str__", "__repr__")):
            f, _ = v.cls.lookup(nm)
            if isinstance(f, FuncV):
                return it.call(BoundV(f, v), [], {})
    return StrT([v])


def pyconst(v):
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, Num) and v.r.is_const():
        return v.r.const_value()
    if isinstance(v, TupleV) and v.exact():
        return tuple(pyconst(s) for s in v.segs)
    raise ValueError


# ------------------------------------------------------------------ dict / set keys

def key(v):
    """Hashable dict key or None if not exactly known."""
    if isinstance(v, (str, bool, int, float, type(None), ClassV, ExtClass, FuncV, Ext)):
        return v
    if isinstance(v, Num):
        if v.r.is_const():
            c = v.r.const_value()
            if c.denominator == 1:
                return int(c)
            return v
        ks = {atom_of(a).kind for a in v.r.deep_atoms()}
        if ks <= {"sym", "const", "sqrt"}:
            return v
        return None
    if isinstance(v, TupleV) and v.exact():
        ks = [key(s) for s in v.segs]
        if any(k is None and s is not None for k, s in zip(ks, v.segs)):
            return None
        return TupleV(ks)
    if isinstance(v, Ref) and v.kind == "inst":
        return v
    return None


def unkey(k):
    return k


def new_set(it, segs):
    a = it.alloc()
    d = {}
    exact = True
    for s in segs:
        k = None if isinstance(s, Fam) else key(s)
        if k is None and s is not None:
            exact = False
        else:
            d[k] = True
    it.set(("d", a), (exact, d))
    return Ref(a, "set")


def dict_update(it, d, o):
    if isinstance(o, Ref) and o.kind in ("dict", "set"):
        c, oc = it.get(("d", d.addr)), it.get(("d", o.addr))
        m = dict(c[1])
        m.update(oc[1])
        it.set(("d", d.addr), ((True if c[0] is True and oc[0] is True else False), m))
        return
    segs = it.iter_segs(o)
    if segs is not None:
        dict_from_pairs(it, d, segs)
        return
    c = it.get(("d", d.addr))
    it.set(("d", d.addr), (False, dict(c[1])))


def dict_from_pairs(it, d, segs):
    for s in segs:
        if isinstance(s, TupleV) and s.exact() and len(s.segs) == 2:
            setitem(it, d, s.segs[0], s.segs[1])
        else:
            c = it.get(("d", d.addr))
            m = dict(c[1])
            if isinstance(s, Fam):
                def walk(fs):
                    for z in fs:
                        if isinstance(z, Fam):
                            walk(z.segs)
                        elif isinstance(z, TupleV) and z.exact() and len(z.segs) == 2:
                            m.setdefault(WILD, [])
                            m[WILD] = it.join([(None, z.segs[1])] + ([(None, m[WILD])] if m[WILD] != [] else []))
                walk(s.segs)
                if m.get(WILD) == []:
                    m.pop(WILD)
            it.set(("d", d.addr), (False, m))


WILD = "\0wild"


def slice_value(it, k):
    if isinstance(k, tuple) and k and k[0] == "slice":
        return ObjT(k, "slice")
    return k


def getitem(it, o, k):
    if isinstance(k, ObjT) and k.type == "slice":
        k = k.term
    if isinstance(o, Ref) and o.kind == "dict":
        d = it.get(("d", o.addr))
        kk = key(k)
        if kk is not None or k is None:
            if kk in d[1]:
                v = d[1][kk]
                if d[0] is not True and WILD in d[1]:
                    v = it.join([(None, v), (None, d[1][WILD])])
                return v
            if d[0] is True and it.get(("dd", o.addr)) is not UNDEF:
                v = it.call(it.get(("dd", o.addr)), [], {})
                setitem(it, o, k, v)
                return v
            if d[0] is True:
                it.event("missing_key", ref=o, key=k)
                it.raise_("KeyError")
            return d[1].get(WILD, Top("dict item"))
        vals = [v for v in d[1].values()]
        if vals and isinstance(k, (StrT, Top, Num, TupleV, Phi)):
            if len(vals) <= 12:
                return it.join([(("opaque", f"key{o.addr}:{i}"), v) for i, v in enumerate(vals)])
        return Top("dict item")
    s = it.seq_of(o)
    if s is not None:
        segs = s[1]
        if isinstance(k, tuple) and k and k[0] == "slice":
            lo, hi, st = k[1:]
            exact = not any(isinstance(x, Fam) for x in segs)
            if all(z is None or (isinstance(z, int)) for z in (lo, hi, st)):
                if exact:
                    r = segs[lo:hi:st]
                    return TupleV(r) if s[0] == "tuple" else it.new_list(r)
                # prefix of exact elements
                n = 0
                for x in segs:
                    if isinstance(x, Fam):
                        break
                    n += 1
                if hi is None and st is None and (lo or 0) >= 0 and (lo or 0) <= n:
                    r = segs[lo or 0:]
                    return TupleV(r) if s[0] == "tuple" else it.new_list(r)
                if hi is not None and 0 <= hi <= n and (lo or 0) >= 0 and st is None:
                    r = segs[lo:hi]
                    return TupleV(r) if s[0] == "tuple" else it.new_list(r)
                if lo is None and hi is None and st == -1:
                    r = tuple(reversed(segs))
                    return TupleV(r) if s[0] == "tuple" else it.new_list(r)
            r = slice_fam(it, segs, lo, hi, st)
            return TupleV(r) if s[0] == "tuple" else it.new_list(r)
        if isinstance(k, Num) and k.r.is_const() and k.r.const_value().denominator == 1:
            k = int(k.r.const_value())
        if isinstance(k, int):
            k = int(k)
            exact = not any(isinstance(x, Fam) for x in segs)
            if exact:
                if -len(segs) <= k < len(segs):
                    return segs[k]
                it.event("index_error", seq=o, index=k)
                it.raise_("IndexError")
            if k >= 0:
                for i, x in enumerate(segs):
                    if isinstance(x, Fam):
                        break
                    if i == k:
                        return x
            else:
                for i, x in enumerate(reversed(segs)):
                    if isinstance(x, Fam):
                        break
                    if -1 - i == k:
                        return x
        if isinstance(k, (str, StrT, TupleV)) or k is None:
            it.event("type_error", op="getitem", a=o, b=k)
            it.raise_("TypeError")
        cands = []
        flat_items(segs, cands)
        if not cands:
            return Top("item")
        if len(cands) > 24:
            if all(is_num(c) for c in cands):
                ks = {kind_of(c) for c in cands}
                return fresh_num(ks.pop() if len(ks) == 1 else "num", "item")
            r = summarise_items(it, cands)
            return r
        kr = k.r if isinstance(k, Num) else None
        if kr is not None and not any(isinstance(x, Fam) for x in segs):
            return it.join([(b_cmp("==", kr, Rat.const(i)), c) for i, c in enumerate(segs)
                            if it.decide(b_cmp("==", kr, Rat.const(i))) is not False]) if segs else Top("item")
        return it.join([(("opaque", f"idx{i}"), c) for i, c in enumerate(cands)])
    if isinstance(o, (str,)):
        if isinstance(k, tuple) and k and k[0] == "slice":
            if all(z is None or isinstance(z, int) for z in k[1:]):
                return o[k[1]:k[2]:k[3]]
            return StrT([Top("slice")])
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                it.raise_("IndexError")
        return StrT([Top("char")])
    if isinstance(o, StrT):
        return StrT([Top("substr")])
    if isinstance(o, Ref) and o.kind == "mat":
        return mat_getitem(it, o, k)
    if isinstance(o, (Ext, ExtClass)):
        return o
    if isinstance(o, ClassV):
        return o
    if isinstance(o, ObjT):
        return ObjT(("item", o, k), "item")
    if is_num(o) or o is None or isinstance(o, (FuncV, BoundV, bool)):
        it.event("type_error", op="getitem", a=o, b=k)
        it.raise_("TypeError")
    return Top("item of " + type(o).__name__)


def summarise_items(it, cands):
    n = {len(c.segs) for c in cands if isinstance(c, TupleV) and c.exact()}
    if all(isinstance(c, TupleV) and c.exact() for c in cands) and len(n) == 1:
        return TupleV([summarise_items(it, [c.segs[i] for c in cands]) for i in range(n.pop())])
    if all(is_num(c) for c in cands):
        ks = {kind_of(c) for c in cands}
        return fresh_num(ks.pop() if len(ks) == 1 else "num", "item")
    if all(it.same(c, cands[0]) for c in cands):
        return cands[0]
    if all(isinstance(c, Ref) and c.kind == "inst" and c.cls is cands[0].cls for c in cands):
        return it.havoc(("v",), cands[0], cands[0])
    return Top("item")


def flat_items(segs, out):
    for s in segs:
        if isinstance(s, Fam):
            flat_items(s.segs, out)
        else:
            out.append(s)


def slice_fam(it, segs, lo, hi, st):
    """Slice with unknown bounds or over unknown lists: an unknown-length family of its items,
    with length known when it can be expressed."""
    cands = []
    flat_items(segs, cands)
    from .interp import SegsKey
    total = seg_len(it, segs)
    if st is None and total is not None:
        def norm(z, default):
            if z is None:
                return default
            if isinstance(z, int) and z < 0:
                return total + Rat.const(z)
            if is_num(z):
                return rat_of(z)
            return None
        l, h = norm(lo, R0), norm(hi, total)
        if l is not None and h is not None:
            ok_l = it.decide(b_cmp("<=", R0, l)) is True and it.decide(b_cmp("<=", l, total)) is not False
            # assume within range when 0 <= l
            if not any(isinstance(s, Fam) for s in segs) and l.is_const() and h.is_const():
                return segs[int(l.const_value()):int(h.const_value())]
            h2 = h
            if it.decide(b_cmp("<=", h, total)) is not True:
                h2 = Rat.atom("min", h, total)
            i = it.new_idx("s")
            item = it.join([(("opaque", f"s{j}"), c) for j, c in enumerate(cands)]) if 0 < len(cands) <= 16 else (
                summarise_items(it, cands) if cands else Top("slice"))
            return (Fam((("for", i, l, h2),), (item,)),)
    item = summarise_items(it, cands) if cands else Top("slice")
    return (Fam((("for?", "slice"),), (item,)),)


def seg_len(it, segs):
    """Length as a Rat."""
    from .interp import SegsKey
    n = sum(1 for s in segs if not isinstance(s, Fam))
    fams = tuple(s for s in segs if isinstance(s, Fam))
    r = Rat.const(n)
    for f in fams:
        # simple single range families
        if len(f.ctx) == 1 and f.ctx[0][0] == "for" and not any(isinstance(s, Fam) for s in f.segs):
            lo, hi = f.ctx[0][2], f.ctx[0][3]
            if it.decide(b_cmp("<=", lo, hi)) is True:
                r = r + (hi - lo) * Rat.const(len(f.segs))
                continue
        f2 = strip_items(f)
        r = r + Rat.atom("card", SegsKey((f2,)))
    return r


def strip_items(f):
    return Fam(f.ctx, tuple(strip_items(s) if isinstance(s, Fam) else 1 for s in f.segs))


def setitem(it, o, k, v):
    if isinstance(o, Ref) and o.kind == "dict":
        d = it.get(("d", o.addr))
        it.event("mutate", ref=o, how="setitem")
        kk = key(k)
        m = dict(d[1])
        if kk is None and k is not None:
            m[WILD] = v if WILD not in m else it.join([(None, m[WILD]), (None, v)])
            it.set(("d", o.addr), (False, m))
        else:
            m[kk] = v
            it.set(("d", o.addr), (d[0], m))
        return
    if isinstance(o, Ref) and o.kind == "list":
        segs = it.get(("l", o.addr))
        it.event("mutate", ref=o, how="setitem")
        exact = not any(isinstance(x, Fam) for x in segs)
        if isinstance(k, int) and exact:
            if -len(segs) <= k < len(segs):
                l = list(segs)
                l[k] = v
                it.set(("l", o.addr), tuple(l))
                return
            it.raise_("IndexError")
        if isinstance(k, int) and k >= 0 and not any(isinstance(x, Fam) for x in segs[:k + 1]) and k < len(segs):
            l = list(segs)
            l[k] = v
            it.set(("l", o.addr), tuple(l))
            return

        def weak(ss):
            return tuple(Fam(s.ctx, weak(s.segs)) if isinstance(s, Fam) else (
                it.join([(None, s), (None, v)])) for s in ss)
        if isinstance(k, tuple) and k[0] == "slice" and exact and all(z is None or isinstance(z, int) for z in k[1:]):
            new = it.try_exact(v)
            if new is not None:
                l = list(segs)
                try:
                    l[slice(*k[1:])] = list(new)
                except ValueError:
                    it.raise_("ValueError")
                it.set(("l", o.addr), tuple(l))
                return
        if isinstance(k, tuple):
            it.set(("l", o.addr), (Fam((("for?", "slice assign"),), (Top("slice"),)),))
        else:
            it.set(("l", o.addr), weak(segs))
        return
    if isinstance(o, Ref) and o.kind == "mat":
        it.event("mutate", ref=o, how="setitem")
        m = it.get(("m", o.addr))
        if m[0] != "top" and isinstance(k, TupleV) and len(k.segs) == 2 and all(isinstance(z, int) for z in k.segs):
            i, j = k.segs
            rows = [list(r) for r in m[0]]
            try:
                rows[i][j] = v
            except IndexError:
                it.raise_("IndexError")
            it.set(("m", o.addr), (tuple(map(tuple, rows)), m[1], m[2]))
            return
        it.set(("m", o.addr), ("top",) + tuple(m[1:3]))
        return
    if isinstance(o, TupleV) or isinstance(o, str):
        it.raise_("TypeError")
    it.note("setitem on " + type(o).__name__)


def delitem(it, o, k):
    if isinstance(o, Ref) and o.kind == "dict":
        d = it.get(("d", o.addr))
        kk = key(k)
        m = dict(d[1])
        it.event("mutate", ref=o, how="delitem")
        if kk in m:
            m.pop(kk)
            it.set(("d", o.addr), (d[0], m))
            return
        it.set(("d", o.addr), (False, m))
        return
    if isinstance(o, Ref) and o.kind == "list":
        segs = it.get(("l", o.addr))
        it.event("mutate", ref=o, how="delitem")
        if isinstance(k, int) and not any(isinstance(x, Fam) for x in segs):
            l = list(segs)
            try:
                del l[k]
            except IndexError:
                it.raise_("IndexError")
            it.set(("l", o.addr), tuple(l))
            return
        it.set(("l", o.addr), (Fam((("for?", "del"),), (Top("del"),)),))


def contains(it, c, v):
    """v in c"""
    if isinstance(c, Phi):
        return it.with_alts(c, lambda x: contains(it, x, v))
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: contains(it, c, x))
    if isinstance(c, Ref) and c.kind in ("dict", "set"):
        d = it.get(("d", c.addr))
        kk = key(v)
        if kk is None and v is not None:
            if d[0] is True and not d[1]:
                return False
            if isinstance(v, StrT) and d[0] is True and not any(isinstance(k, (str, StrT)) for k in d[1]):
                return False
            return BoolT(("opaque", f"{v!r} in d{c.addr}"))
        if kk in d[1]:
            return True if d[0] != "maybe" else BoolT(("opaque", f"{v!r} in d{c.addr}"))
        if d[0] is True:
            return False
        return BoolT(("opaque", f"{v!r} in d{c.addr}"))
    s = it.seq_of(c)
    if s is not None:
        t = False
        for x in s[1]:
            if isinstance(x, Fam):
                return BoolT(("opaque", f"{v!r} in {c!r}"))
            t = b_or(t, it.truth(it.equal(x, v)))
            if t is True:
                return True
        return t if isinstance(t, bool) else BoolT(t)
    if isinstance(c, str) and isinstance(v, str):
        return v in c
    if isinstance(c, Ref) and c.kind == "inst":
        f, _ = c.cls.lookup("__contains__")
        if f is not UNDEF:
            return it.call(BoundV(f, c), [v], {})
        segs = it.iter_segs(c)
        if segs is not None:
            return contains(it, TupleV(segs), v)
    return BoolT(("opaque", f"{v!r} in {c!r}"))


def is_same(it, a, b):
    for x, y in ((a, b), (b, a)):
        if x is None:
            if y is None:
                return True
            if isinstance(y, (Top, ObjT)):
                return None
            return False
        if x is NotImplemented:
            return y is NotImplemented
        if isinstance(x, bool):
            if isinstance(y, bool):
                return x == y
            if isinstance(y, (Top, BoolT)):
                return None
            return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.addr == b.addr
    if isinstance(a, (ClassV, ExtClass)) and isinstance(b, (ClassV, ExtClass)):
        return a is b
    if isinstance(a, (FuncV, ModuleV)) and isinstance(b, (FuncV, ModuleV)):
        return a is b
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return a == b
    if a is b:
        return True
    return None


def heap_equal(it, a, b):
    if a.addr == b.addr:
        return True
    if a.kind == "mat":
        ma, mb = it.get(("m", a.addr)), it.get(("m", b.addr))
        if ma[0] == "top" or mb[0] == "top":
            return None
        if ma[1:] != mb[1:]:
            return False
        t = True
        for r1, r2 in zip(ma[0], mb[0]):
            for x, y in zip(r1, r2):
                t = b_and(t, it.truth(it.equal(x, y)))
                if t is False:
                    return False
        return t if isinstance(t, bool) else BoolT(t)
    da, db = it.get(("d", a.addr)), it.get(("d", b.addr))
    if da[0] is True and db[0] is True:
        if set(da[1]) != set(db[1]):
            return False
        t = True
        for k in da[1]:
            t = b_and(t, it.truth(it.equal(da[1][k], db[1][k])))
            if t is False:
                return False
        return t if isinstance(t, bool) else BoolT(t)
    return None


def rename_fam(it, f, mp):
    def rv(v):
        if isinstance(v, Num):
            return mk(rsubs(v.r, mp), v.k)
        if isinstance(v, TupleV):
            return TupleV([rv(s) for s in v.segs])
        if isinstance(v, Fam):
            return rf(v)
        if isinstance(v, BoolT):
            from .interp import term_subs
            t = term_subs(v.t, mp)
            return t if isinstance(t, bool) else BoolT(t)
        return v

    def rf(f):
        from .interp import term_subs
        ctx = []
        for c in f.ctx:
            if c[0] == "for":
                na = c[1]
                if na in mp:
                    na = next(iter(mp[na].num.t))[0][0]
                ctx.append(("for", na, rsubs(c[2], mp), rsubs(c[3], mp)))
            elif c[0] == "if":
                t = term_subs(c[1], mp)
                if t is True:
                    continue
                ctx.append(("if", t if t is not False else ("cmp", "<", R1)))
            else:
                ctx.append(c)
        return Fam(ctx, [rv(s) for s in f.segs])
    return rf(f)


# ------------------------------------------------------------------ matrices

def new_mat(it, rows, nr=None, nc=None):
    a = it.alloc()
    rows = tuple(tuple(r) for r in rows)
    it.set(("m", a), (rows, len(rows) if nr is None else nr, (len(rows[0]) if rows else 0) if nc is None else nc))
    return Ref(a, "mat")


def top_mat(it, nr, nc):
    if isinstance(nr, int) and isinstance(nc, int) and nr * nc <= 36:
        return new_mat(it, [[fresh_num("sym", "mat") for _ in range(nc)] for _ in range(nr)])
    a = it.alloc()
    it.set(("m", a), ("top", nr, nc))
    return Ref(a, "mat")


def to_sym(it, v):
    """sympify a value."""
    if isinstance(v, Num):
        return Num(v.r, {"int": "sym", "float": "symf"}.get(v.k, v.k))
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return Num(Rat.const(v), "sym")
    if isinstance(v, float):
        return Num(rat_of(v), "symf")
    if isinstance(v, Ref) and v.kind == "inst":
        f, _ = v.cls.lookup("_sympy_")
        if f is not UNDEF:
            return to_sym(it, it.call(BoundV(f, v), [], {}))
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: to_sym(it, x))
    if isinstance(v, str):
        try:
            return Num(Rat.const(Fraction(v)), "symf" if "." in v else "sym")
        except Exception:
            if v.isidentifier():
                return Num(sym(v), "sym")
            return fresh_num("sym", "S")
    if isinstance(v, (StrT, Top, ObjT)):
        return fresh_num("sym", "S")
    return v


def make_matrix(it, args):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, Ref) and a.kind == "mat":
            m = it.get(("m", a.addr))
            n = it.alloc()
            it.set(("m", n), m)
            return Ref(n, "mat")
        rows = it.try_exact(a)
        if rows is None:
            segs = it.iter_segs(a)
            return top_mat(it, Top("rows"), Top("cols"))
        out = []
        for r in rows:
            if isinstance(r, Ref) and r.kind == "mat":
                q = it.try_exact(r)
            else:
                q = it.try_exact(r) if not is_num(r) else [r]
            if q is None:
                return top_mat(it, len(rows), Top("cols"))
            out.append([to_sym(it, z) for z in q])
        if len({len(r) for r in out}) > 1:
            it.event("ragged_matrix", rows=[len(r) for r in out])
            it.raise_("ValueError")
        return new_mat(it, out)
    if len(args) == 3 and isinstance(args[0], int) and isinstance(args[1], int):
        nr, nc = args[0], args[1]
        if isinstance(args[2], (FuncV, BoundV, Builtin)):
            return new_mat(it, [[to_sym(it, it.call(args[2], [i, j], {})) for j in range(nc)] for i in range(nr)])
        q = it.try_exact(args[2])
        if q is not None and len(q) == nr * nc:
            return new_mat(it, [[to_sym(it, q[i * nc + j]) for j in range(nc)] for i in range(nr)])
    return top_mat(it, args[0] if args else Top(), args[1] if len(args) > 1 else Top())


def mat_rows(it, m):
    c = it.get(("m", m.addr))
    return None if c[0] == "top" else c[0]


def mat_map(it, m, f):
    r = mat_rows(it, m)
    if r is None:
        c = it.get(("m", m.addr))
        return top_mat(it, c[1], c[2])
    return new_mat(it, [[f(z) for z in row] for row in r])


def mat_getitem(it, o, k):
    c = it.get(("m", o.addr))
    if c[0] == "top":
        if isinstance(k, TupleV) and not any(isinstance(z, tuple) for z in k.segs) or is_num(k):
            return fresh_num("sym", "mat")
        return top_mat(it, Top(), Top())
    rows, nr, nc = c

    def idx(z, n):
        if isinstance(z, int):
            if not -n <= z < n:
                it.event("index_error", seq=o, index=z)
                it.raise_("IndexError")
            return [z], True
        if isinstance(z, tuple) and z[0] == "slice" and all(q is None or isinstance(q, int) for q in z[1:]):
            return list(range(n))[z[1]:z[2]:z[3]], False
        return None, None
    if isinstance(k, TupleV) and len(k.segs) == 2:
        a, sa = idx(k.segs[0], nr)
        b, sb = idx(k.segs[1], nc)
        if a is None or b is None:
            return fresh_num("sym", "mat")
        if sa and sb:
            return rows[a[0]][b[0]]
        return new_mat(it, [[rows[i][j] for j in b] for i in a])
    if isinstance(k, int):
        flat = [z for r in rows for z in r]
        if -len(flat) <= k < len(flat):
            return flat[k]
        it.event("index_error", seq=o, index=k)
        it.raise_("IndexError")
    if isinstance(k, tuple):
        flat = [z for r in rows for z in r]
        q = idx(k, len(flat))[0]
        if q is not None:
            return it.new_list([flat[i] for i in q])
    return fresh_num("sym", "mat")


def mat_binop(it, op, a, b):
    am, bm = isinstance(a, Ref) and a.kind == "mat", isinstance(b, Ref) and b.kind == "mat"
    if am and bm:
        ra, rb = mat_rows(it, a), mat_rows(it, b)
        ca, cb = it.get(("m", a.addr)), it.get(("m", b.addr))
        if ra is None or rb is None:
            if op in ("Mult", "MatMult"):
                return top_mat(it, ca[1], cb[2])
            return top_mat(it, ca[1], ca[2])
        if op in ("Add", "Sub"):
            if ca[1:] != cb[1:]:
                it.event("shape_error", a=ca[1:], b=cb[1:])
                it.raise_("ShapeError")
            return new_mat(it, [[num_binop(it, op, x, y) if is_num(x) and is_num(y) else Top() for x, y in zip(p, q)]
                                for p, q in zip(ra, rb)])
        if op in ("Mult", "MatMult"):
            if ca[2] != cb[1]:
                it.event("shape_error", a=ca[1:], b=cb[1:])
                it.raise_("ShapeError")
            if ca[1] * cb[2] * ca[2] > 3000:
                return top_mat(it, ca[1], cb[2])
            out = []
            for i in range(ca[1]):
                row = []
                for j in range(cb[2]):
                    s = Num(R0, "sym")
                    for l in range(ca[2]):
                        s = it.binop(ast.Add(), s, it.binop(ast.Mult(), ra[i][l], rb[l][j]))
                    row.append(s)
                out.append(row)
            return new_mat(it, out, ca[1], cb[2])
        return top_mat(it, ca[1], ca[2])
    m, s = (a, b) if am else (b, a)
    if is_num(s):
        ops = {"Mult": ast.Mult(), "Div": ast.Div()}
        if op in ops:
            return mat_map(it, m, lambda z: it.binop(ops[op], z, s))
        if op == "Pow":
            r = rat_of(s)
            sh = it.get(("m", m.addr))[1:3]
            if am and r.is_const() and r.const_value().denominator == 1 and 0 < r.const_value() <= 4 and sh[0] == sh[1]:
                out = m
                for _ in range(int(r.const_value()) - 1):
                    out = mat_binop(it, "Mult", out, m)
                return out
            return top_mat(it, *sh)
    if isinstance(s, Ref) and s.kind == "inst" and s.cls.lookup("_sympy_")[0] is not UNDEF:
        sv = to_sym(it, s)
        return mat_binop(it, op, sv if not am else a, sv if am else b) if not (isinstance(sv, Ref) and sv.kind == "inst") else Top("mat")
    return Top("matop")


def mat_det(it, rows):
    n = len(rows)
    if any(not is_num(z) for r in rows for z in r):
        return fresh_num("sym", "det")
    r = [[rat_of(z) for z in row] for row in rows]

    def det(m):
        if len(m) == 0:
            return R1
        if len(m) == 1:
            return m[0][0]
        s = R0
        for j in range(len(m)):
            if m[0][j].is_zero():
                continue
            minor = [row[:j] + row[j + 1:] for row in m[1:]]
            t = m[0][j] * det(minor)
            s = s + t if j % 2 == 0 else s - t
        return s
    if n > 4:
        if not all(z.is_const() for row in r for z in row):
            return fresh_num("sym", "det")
        d = R1
        r = [list(row) for row in r]
        for i in range(n):
            pv = next((j for j in range(i, n) if not r[j][i].is_zero()), None)
            if pv is None:
                return Num(R0, "sym")
            if pv != i:
                r[i], r[pv] = r[pv], r[i]
                d = -d
            d = d * r[i][i]
            for j in range(i + 1, n):
                if not r[j][i].is_zero():
                    c = r[j][i] / r[i][i]
                    r[j] = [a - c * b for a, b in zip(r[j], r[i])]
        return Num(d, "sym")
    k = "symf" if any(kind_of(z) in ("symf", "float") for row in rows for z in row) else "sym"
    return Num(det(r), k)


def surd(r):
    """A rational expression in square roots of constants."""
    return r.is_const() or all(atom_of(a).kind == "sqrt" and atom_of(a).args[0].is_const() for a in r.deep_atoms())


def rationalise(r):
    """Remove a monomial in square roots from the denominator."""
    if r.is_const() or len(r.den.t) != 1:
        return r
    m = next(iter(r.den.t))
    for a, e in m:
        q = Rat(Poly.of_atom(a))
        r = (Rat(r.num) * q) / (Rat(r.den) * q)
    return r


def gauss_inv(rows):
    """Exact inverse of a constant matrix; None when singular."""
    n = len(rows)
    a = [list(r) + [R1 if i == j else R0 for j in range(n)] for i, r in enumerate(rows)]
    for i in range(n):
        pv = next((j for j in range(i, n) if not a[j][i].is_zero()), None)
        if pv is None:
            return None
        a[i], a[pv] = a[pv], a[i]
        c = R1 / a[i][i]
        a[i] = [c * z if z.is_const() else rationalise(c * z) for z in a[i]]
        for j in range(n):
            if j != i and not a[j][i].is_zero():
                c = a[j][i]
                a[j] = [p - c * q if q.is_const() and p.is_const() else rationalise(p - c * q) for p, q in zip(a[j], a[i])]
    return [r[n:] for r in a]


def mat_inv(it, m):
    c = it.get(("m", m.addr))
    if c[0] != "top" and c[1] == c[2] and c[1] > 3 and all(is_num(z) and surd(rat_of(z)) for r in c[0] for z in r):
        inv = gauss_inv([[rat_of(z) for z in r] for r in c[0]])
        if inv is None:
            it.raise_("NonInvertibleMatrixError")
        return new_mat(it, [[Num(z, "sym") for z in r] for r in inv])
    if c[0] == "top" or c[1] != c[2] or c[1] > 3 or any(not is_num(z) for r in c[0] for z in r):
        if c[0] != "top" and c[1] != c[2]:
            it.event("shape_error", a=c[1:], b=None)
            it.raise_("ShapeError")
        return top_mat(it, c[1], c[2])
    rows = c[0]
    n = c[1]
    d = mat_det(it, rows).r
    if d.is_zero():
        it.raise_("ValueError")
    r = [[rat_of(z) for z in row] for row in rows]
    if n == 0:
        return new_mat(it, [])

    def cof(i, j):
        sub = [[Num(r[a][b], "sym") for b in range(n) if b != j] for a in range(n) if a != i]
        x = mat_det(it, sub).r if sub else R1
        return x if (i + j) % 2 == 0 else -x
    return new_mat(it, [[Num(cof(j, i) / d, "sym") for j in range(n)] for i in range(n)])


# ------------------------------------------------------------------ attributes of built-in values

def value_attr(it, o, name, default=UNDEF):
    def M(fn):
        return Builtin(name, fn)
    if isinstance(o, Num) or isinstance(o, (int, float)) and not isinstance(o, bool):
        return num_attr(it, o, name, default)
    if isinstance(o, (str, StrT)):
        return str_attr(it, o, name)
    s = it.seq_of(o)
    if s is not None:
        return seq_attr(it, o, name, s, default)
    if isinstance(o, Ref) and o.kind in ("dict", "set"):
        return dict_attr(it, o, name, default)
    if isinstance(o, Ref) and o.kind == "mat":
        return mat_attr(it, o, name, default)
    if isinstance(o, ExtClass):
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        if o.name == "dict" and name == "fromkeys":
            def fk(it2, a, k):
                d = it2.new_dict()
                for x in it2.iter_segs(a[0], need=True):
                    setitem(it2, d, x if not isinstance(x, Fam) else Top(), a[1] if len(a) > 1 else None)
                return d
            return M(fk)
        if o.name == "object":
            return M(lambda i, a, k: None)
        return Ext(o.name + "." + name)
    if isinstance(o, ObjT):
        if name == "__class__":
            return Ext(o.type)
        if it.vfs is not None:
            r = vfs.obj_attr(it, o, name)
            if r is not NotImplemented:
                return r
        return Builtin("obj." + name, lambda i, a, k: obj_call(i, o, name, a, k))
    if o is None:
        if default is not UNDEF:
            return default
        if name == "__class__":
            return T_NONE
        it.event("none_attr", name=name)
        it.raise_("AttributeError")
    if isinstance(o, Top):
        return Top(f"{o.why}.{name}"[:60])
    if isinstance(o, (bool, BoolT)):
        return Top("bool attr")
    if default is not UNDEF:
        return default
    return Top(f"attr {name}")


def sy_poly(it, a, kw):
    """sympy.Poly(expr, *gens): kept as (expression, generators)."""
    if kw or len(a) < 2:
        return Top("Poly")
    g = a[1:]
    if len(g) == 1 and it.try_exact(g[0]) is not None:
        g = it.try_exact(g[0])
    e = to_sym(it, a[0])
    if not is_num(e) or any(not is_num(z) for z in g):
        return Top("Poly")
    return ObjT(("sympy.Poly", rat_of(e), tuple(rat_of(z) for z in g)), "sympy.Poly")


def poly_degree(it, o, name, args):
    _, e, gens = o.term
    ids = [next(iter(g.atoms())) for g in gens]
    if not set(Rat(e.den).deep_atoms()).isdisjoint(ids) or any(
            atom_of(a).kind != "sym" and not (atom_of(a).kind == "sqrt" and set(Rat(Poly.of_atom(a)).deep_atoms()).isdisjoint(ids))
            for a in Rat(e.num).atoms()):
        return fresh_num("int", "degree")
    if e.is_zero():
        return ObjT(("-oo",), "sympy")
    use = ids
    if name == "degree":
        k = 0
        if args:
            g = args[0]
            if is_num(g) and rat_of(g) in gens:
                k = gens.index(rat_of(g))
            elif isinstance(g, int):
                k = g
            else:
                return fresh_num("int", "degree")
        use = [ids[k]]
    return max(sum(x for at, x in m if at in use) for m in e.num.t)


def sy_degree(it, a, kw):
    g = a[1] if len(a) > 1 else kw.get("gen")
    if g is None or sym_id(g) is None or set(kw) - {"gen"}:
        return fresh_num("int", "degree")
    p = sy_poly(it, (a[0], g), {})
    return poly_degree(it, p, "degree", ()) if isinstance(p, ObjT) else fresh_num("int", "degree")


def sy_total_degree(it, a, kw):
    if kw or len(a) < 2 or any(sym_id(g) is None for g in a[1:]):
        return fresh_num("int", "degree")
    p = sy_poly(it, a, {})
    return poly_degree(it, p, "total_degree", ()) if isinstance(p, ObjT) else fresh_num("int", "degree")


def poly_terms(it, o, name):
    """Monomials (and coefficients) of a polynomial in the generators, in lexicographically decreasing order."""
    _, e, gens = o.term
    ids = [next(iter(g.atoms())) for g in gens]
    if not set(Rat(e.den).deep_atoms()).isdisjoint(ids):
        return Top(name)
    out = {}
    for m, c in e.num.t.items():
        rest = []
        ex = dict.fromkeys(ids, 0)
        for a, k in m:
            if a in ex:
                ex[a] = k
            elif not set(Rat(Poly.of_atom(a)).deep_atoms()).isdisjoint(ids) or atom_of(a).kind in ("top", "app"):
                return Top(name)
            else:
                rest.append((a, k))
        key = tuple(ex[i] for i in ids)
        out[key] = out.get(key, R0) + Rat(Poly({tuple(rest): c})) / Rat(e.den)
    out = {k: v for k, v in out.items() if not v.is_zero()} or {(0,) * len(ids): R0}
    keys = sorted(out, reverse=True)
    if name == "monoms":
        return it.new_list([TupleV(tuple(k)) for k in keys])
    if name == "coeffs":
        return it.new_list([Num(out[k], "sym") for k in keys])
    return it.new_list([TupleV((TupleV(tuple(k)), Num(out[k], "sym"))) for k in keys])


def obj_call(it, o, name, args, kwargs):
    if it.vfs is not None:
        r = vfs.obj_call(it, o, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if o.type == "sympy.Poly" and name in ("monoms", "coeffs", "terms") and not args and not kwargs:
        return poly_terms(it, o, name)
    if o.type == "sympy.Poly" and name in ("degree", "total_degree"):
        return poly_degree(it, o, name, args)
    it.event("objcall", obj=o, name=name, args=args, kwargs=kwargs)
    if it.try_stack:
        it.record_raise(None, None, may=True)
    if o.type == "file" and name == "read":
        return ObjT(("read", o.term), "str")
    if name in ("encode", "hexdigest", "digest", "strip", "decode", "lower", "format", "replace"):
        return ObjT((name, o.term) + tuple(args), "str")
    if name in ("__enter__",):
        return o
    return ObjT(("call", name, o.term, tuple(map(repr, args))), "")


def _subs_pairs(it, args):
    """List of (from, to) pairs and whether simultaneous."""
    if len(args) == 2:
        return [(args[0], args[1])]
    a = args[0]
    if isinstance(a, Ref) and a.kind == "dict":
        d = it.get(("d", a.addr))
        if d[0] is True:
            return [(k, v) for k, v in d[1].items()]
        return None
    q = it.try_exact(a)
    if q is None:
        return None
    out = []
    for p in q:
        z = it.try_exact(p)
        if z is None or len(z) != 2:
            return None
        out.append((z[0], z[1]))
    return out


def sym_id(v):
    if isinstance(v, Num) and v.r.den == R1.num and len(v.r.num.t) == 1:
        (m, c), = v.r.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def num_subs_all(it, o, pairs):
    """Simultaneous substitution, by way of fresh symbols."""
    mid = [Num(sym(f"subs\0{n}"), "sym") for n in range(len(pairs))]
    v = num_subs(it, o, [(f, m) for (f, _), m in zip(pairs, mid)])
    return num_subs(it, v, [(m, t) for (_, t), m in zip(pairs, mid)]) if is_num(v) else v


def num_subs(it, o, pairs):
    r, k = rat_of(o), kind_of(o)
    if k in ("int", "float"):
        it.event("type_error", op="subs", a=o, b=None)
        it.raise_("AttributeError")
    for f, t in pairs:
        fid = sym_id(f)
        t = to_sym(it, t)
        if isinstance(t, Phi):
            return it.with_alts(t, lambda x: num_subs(it, Num(r, k), [(f, x)]))
        if not is_num(t):
            if fid is None or fid in r.deep_atoms():
                r = fresh_num("sym", "subs").r
            continue
        if fid is None:
            r = Rat.atom("app", "subs", r, rat_of(f) if is_num(f) else R0, rat_of(t))
            continue
        try:
            r = rsubs(r, {fid: rat_of(t)})
        except ZeroDivisionError:
            r = fresh_num("sym", "subs").r
        if kind_of(t) in ("symf", "float"):
            k = "symf"
    return Num(r, k)


def num_attr(it, o, name, default):
    k = kind_of(o)
    issym = k in ("sym", "symf", "num")

    def M(fn):
        return Builtin("Expr." + name, fn)
    if name == "__class__":
        return type_of(it, o)
    if not issym:
        if name in ("real", "numerator"):
            return o
        if name == "denominator":
            return 1
        if name in ("is_integer",):
            return M(lambda i, a, kw: Top("is_integer"))
        if default is not UNDEF:
            return default
        if name in ("subs", "diff", "integrate", "expand", "simplify", "as_coefficients_dict", "is_constant", "evalf",
                    "__iter__", "__len__", "append", "as_sympy", "coeff"):
            it.event("type_error", op="attr", a=o, b=name)
            it.raise_("AttributeError", name)
        return Top(f"int.{name}")
    if name == "diff":
        def f(i, a, kw):
            r, kk = rat_of(o), k
            n = 0
            while n < len(a):
                s = sym_id(a[n])
                times = 1
                if s is None:
                    return fresh_num("sym", "diff")
                if n + 1 < len(a) and isinstance(a[n + 1], int):
                    times = a[n + 1]
                    n += 1
                for _ in range(times):
                    r = rdiff(r, s)
                n += 1
            return Num(r, kk)
        return M(f)
    if name == "subs":
        def f(i, a, kw):
            p = _subs_pairs(i, a)
            if p is None:
                return fresh_num("sym", "subs")
            if kw.get("simultaneous", False) is not False:
                return num_subs_all(i, o, p)
            return num_subs(i, o, p)
        return M(f)
    if name == "integrate":
        def f(i, a, kw):
            return num_integrate(i, o, a)
        return M(f)
    if name in ("expand", "simplify", "factor", "doit", "together", "cancel", "collect", "apart", "radsimp", "ratsimp",
                "trigsimp", "powsimp", "nsimplify", "conjugate"):
        if name == "nsimplify" and k == "symf":
            return M(lambda i, a, kw: fresh_num("sym", "nsimplify"))
        if name in ("simplify", "trigsimp"):
            return M(lambda i, a, kw: simplified(o))
        return M(lambda i, a, kw: o)
    if name in ("evalf", "n"):
        return M(lambda i, a, kw: Num(rat_of(o), "symf"))
    if name == "is_constant":
        def f(i, a, kw):
            ks = {atom_of(x).kind for x in rat_of(o).deep_atoms()}
            if ks & {"top", "app", "D", "int"}:
                return BoolT(("opaque", f"const {rat_of(o)!r}"[:120]))
            bound = set()
            if "sym" in ks:
                return BoolT(("opaque", f"const {rat_of(o)!r}"[:120])) if "int" in ks else False
            return True
        return M(f)
    if name == "free_symbols":
        r = rat_of(o)
        ks = {atom_of(x).kind for x in r.deep_atoms()}
        if ks <= {"sym", "pow", "sqrt", "const", "abs"}:
            return new_set(it, [Num(Rat(Poly.of_atom(x)), "sym") for x in sorted(r.deep_atoms()) if atom_of(x).kind == "sym"])
        return Top("free_symbols")
    if name in ("is_integer", "is_real", "is_positive", "is_negative", "is_number", "is_zero", "is_Integer",
                "is_Rational", "is_Float", "is_Symbol", "is_Add", "is_Mul", "is_Pow", "is_polynomial", "is_nonnegative"):
        r = rat_of(o)
        if r.is_const():
            c = r.const_value()
            return {"is_integer": c.denominator == 1, "is_real": True, "is_positive": c > 0, "is_negative": c < 0,
                    "is_number": True, "is_zero": c == 0, "is_Integer": c.denominator == 1, "is_Rational": True,
                    "is_nonnegative": c >= 0}.get(name, False)
        if name == "is_number":
            ks = {atom_of(x).kind for x in r.deep_atoms()}
            if ks <= {"sym", "sqrt", "const", "abs", "pow", "fn"}:
                # an opaque function of no variables is a number
                return "sym" not in ks and all(atom_of(x).kind != "fn" or not atom_of(x).args[2] for x in r.deep_atoms())
        return BoolT(("opaque", f"{name} {r!r}"[:120]))
    if name == "as_coefficients_dict":
        def f(i, a, kw):
            # the sum of coefficient times term is the expression, whatever the grouping
            d = i.new_dict()
            r = rat_of(o)
            ks = {atom_of(x).kind for x in r.deep_atoms()}
            if ks & {"top", "app"}:
                i.set(("d", d.addr), (False, {}))
                return d
            out = {}
            if Rat(r.den).is_const():
                c0 = Rat(r.den).const_value()
                for m, c in r.num.t.items():
                    t = Rat(Poly({m: 1}))
                    out[1 if t.is_const() else Num(t, "sym")] = Num(Rat.const(c / c0 if not isinstance(c, int) else Fraction(c) / c0), "sym")
            else:
                out[Num(r, "sym")] = Num(R1, "sym")
            i.set(("d", d.addr), (True, out))
            return d
        return M(f)
    if name == "name":
        s = sym_id(o)
        if s is not None and atom_of(s).kind == "sym":
            return atom_of(s).args[0]
        return StrT([Top("name")])
    if name in ("p", "q", "numerator", "denominator"):
        r = rat_of(o)
        if r.is_const():
            c = r.const_value()
            return c.numerator if name in ("p", "numerator") else c.denominator
        return fresh_num("int", name)
    if name in ("append", "as_sympy", "rows", "cols", "is_scalar", "is_vector", "is_matrix", "dot", "vertices", "_f",
                "items", "keys", "dofs", "__iter__", "__len__", "__getitem__", "pieces", "integral_domain"):
        if default is not UNDEF:
            return default
        it.event("type_error", op="attr", a=o, b=name)
        it.raise_("AttributeError", name)
    if name == "__iter__" and default is not UNDEF:
        return default

    def generic(i, a, kw):
        if name == "as_expr":
            return o
        if name == "xreplace":
            p = _subs_pairs(i, a)
            return num_subs_all(i, o, p) if p is not None else fresh_num("sym", "xreplace")
        return Top(f"Expr.{name}")
    return Builtin("Expr." + name, generic)


def num_integrate(it, o, limits):
    lims = []
    if not limits:
        return fresh_num(kind_of(o), "indef")
    for l in limits:
        if isinstance(l, Num):
            return fresh_num(kind_of(o), "indef")
        q = it.try_exact(l)
        if q is None or len(q) != 3 or sym_id(q[0]) is None:
            return fresh_num("sym", "integrate")
        lo, hi = to_sym(it, q[1]), to_sym(it, q[2])
        if not (is_num(lo) and is_num(hi)):
            return fresh_num("sym", "integrate")
        lims.append((sym_id(q[0]), rat_of(lo), rat_of(hi)))
    it.event("integrate", value=o, limits=lims)
    return Num(rint(rat_of(o), tuple(lims)), kind_of(o))


def str_attr(it, o, name):
    def f(i, a, kw):
        if isinstance(o, str) and name == "join":
            segs = i.iter_segs(a[0], need=True)
            if not any(isinstance(s, Fam) for s in segs):
                parts = []
                for n, s in enumerate(segs):
                    if n:
                        parts.append(o)
                    parts.append(s if isinstance(s, (str, StrT)) else StrT([s]))
                return mkstr(parts)
            return StrT([("join", o, tuple(segs))])
        if name == "format" and isinstance(o, str):
            if all(isinstance(z, (str, int)) for z in list(a) + list(kw.values())):
                try:
                    return o.format(*a, **kw)
                except Exception:
                    pass
            return StrT([o] + list(a) + list(kw.values()))
        if isinstance(o, str) and all(isinstance(z, (str, int, type(None))) for z in a) and not kw:
            try:
                r = getattr(o, name)(*a)
            except (ValueError, IndexError):
                i.raise_("ValueError")
            except AttributeError:
                i.raise_("AttributeError")
            if isinstance(r, list):
                return i.new_list(r)
            if isinstance(r, tuple):
                return TupleV(r)
            if isinstance(r, bytes):
                return ObjT(("bytes", o), "bytes")
            return r
        if isinstance(o, str) and name in ("startswith", "endswith") and len(a) == 1:
            q = i.try_exact(a[0])
            if q is not None and all(isinstance(z, str) for z in q):
                return getattr(o, name)(tuple(q))
        if isinstance(o, StrT) and name in ("startswith",) and a and isinstance(a[0], str):
            p = o.parts[0] if o.parts else ""
            if isinstance(p, str):
                if p.startswith(a[0]):
                    return True
                if not a[0].startswith(p):
                    return False
            return BoolT(("opaque", f"{o!r}.startswith({a[0]!r})"))
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isidentifier"):
            return BoolT(("opaque", f"{o!r}.{name}{a!r}"))
        if name == "split":
            q = vfs.split(i, o, a) if isinstance(o, StrT) else None
            if q is not None:
                return q
            return i.new_list((Fam((("for?", "split"),), (StrT([Top("part")]),)),))
        if name in ("count", "find", "index"):
            return fresh_num("int", name)
        if name == "encode":
            return ObjT(("encode", o), "bytes")
        return StrT([(name, o) + tuple(a)])
    return Builtin("str." + name, f)


def seq_attr(it, o, name, s, default):
    segs = s[1]
    exact = not any(isinstance(x, Fam) for x in segs)

    def M(fn):
        return Builtin(s[0] + "." + name, fn)

    def cur():
        return it.get(("l", o.addr)) if isinstance(o, Ref) else o.segs
    if name == "__class__":
        return T_TUPLE if s[0] == "tuple" else T_LIST
    if name == "index":
        def f(i, a, kw):
            sg = cur()
            if any(isinstance(x, Fam) for x in sg):
                return fresh_num("int", "index")
            alts = []
            for n, x in enumerate(sg):
                t = i.truth(i.equal(x, a[0]))
                d = i.decide(t)
                if d is True:
                    if not alts:
                        return n
                    alts.append((None, n))
                    return i.join(alts)
                if d is None:
                    alts.append((t, n))
            if not alts:
                i.raise_("ValueError")
            return i.join(alts)
        return M(f)
    if name == "count":
        def f(i, a, kw):
            sg = cur()
            n = 0
            for x in sg:
                if isinstance(x, Fam):
                    return fresh_num("int", "count")
                d = i.decide(i.truth(i.equal(x, a[0])))
                if d is None:
                    return fresh_num("int", "count")
                n += d
            return n
        return M(f)
    if s[0] == "list":
        if name == "append":
            return M(lambda i, a, kw: i.list_append(o, a[0]))
        if name == "extend":
            return M(lambda i, a, kw: i.list_extend(o, a[0]))
        if name == "insert":
            def f(i, a, kw):
                sg = list(cur())
                i.event("mutate", ref=o, how="insert")
                if isinstance(a[0], int) and not any(isinstance(x, Fam) for x in sg):
                    sg.insert(a[0], a[1])
                elif a[0] == 0:
                    sg.insert(0, a[1])
                else:
                    sg.append(a[1])
                i.set(("l", o.addr), tuple(sg))
            return M(f)
        if name == "pop":
            def f(i, a, kw):
                sg = list(cur())
                i.event("mutate", ref=o, how="pop")
                n = a[0] if a else -1
                if isinstance(n, int) and not any(isinstance(x, Fam) for x in sg):
                    try:
                        v = sg.pop(n)
                    except IndexError:
                        i.raise_("IndexError")
                    i.set(("l", o.addr), tuple(sg))
                    return v
                v = Top("pop")
                i.set(("l", o.addr), (Fam((("for?", "pop"),), (Top("pop"),)),))
                return v
            return M(f)
        if name in ("sort", "reverse", "remove", "clear"):
            def f(i, a, kw):
                sg = cur()
                i.event("mutate", ref=o, how=name)
                if name == "clear":
                    i.set(("l", o.addr), ())
                elif name == "reverse":
                    i.set(("l", o.addr), tuple(reversed(sg)))
                elif name == "sort":
                    r = b_sorted(i, [o], kw)
                    i.set(("l", o.addr), i.get(("l", r.addr)))
                else:
                    if not any(isinstance(x, Fam) for x in sg):
                        for n, x in enumerate(sg):
                            if i.decide(i.truth(i.equal(x, a[0]))) is True:
                                i.set(("l", o.addr), sg[:n] + sg[n + 1:])
                                return None
                    i.set(("l", o.addr), (Fam((("for?", "remove"),), (summarise_items(i, [z for z in sg if not isinstance(z, Fam)]) if sg else Top(),)),))
                return None
            return M(f)
        if name == "copy":
            return M(lambda i, a, kw: i.new_list(cur()))
    if name in ("__iter__", "__len__", "__getitem__", "__contains__", "__add__"):
        if name == "__len__":
            return M(lambda i, a, kw: b_len(i, [o], {}))
        if name == "__iter__":
            return M(lambda i, a, kw: o)
        if name == "__getitem__":
            return M(lambda i, a, kw: i.getitem(o, a[0]))
        return M(lambda i, a, kw: Top(name))
    if default is not UNDEF:
        return default
    it.event("type_error", op="attr", a=o, b=name)
    it.raise_("AttributeError", name)


def dict_attr(it, o, name, default):
    def M(fn):
        return Builtin(o.kind + "." + name, fn)

    def pairs(i, which):
        d = i.get(("d", o.addr))
        out = []
        for n, (k, v) in enumerate(d[1].items()):
            x = {"items": TupleV([Top("key") if k == WILD else unkey(k), v]), "keys": Top("key") if k == WILD else unkey(k), "values": v}[which]
            if d[0] is True:
                out.append(x)
            else:
                out.append(Fam((("for?", "dict"),), (x,)))
        if d[0] is not True and not out:
            out.append(Fam((("for?", "dict"),), (Top("dict") if which != "items" else TupleV([Top("k"), Top("v")]),)))
        return tuple(out)
    if name in ("items", "keys", "values"):
        return M(lambda i, a, kw: i.new_list(pairs(i, name)))
    if name == "get":
        def f(i, a, kw):
            d = i.get(("d", o.addr))
            kk = key(a[0])
            dv = a[1] if len(a) > 1 else None
            if (kk is not None or a[0] is None) and kk in d[1]:
                return d[1][kk] if d[0] is True else i.join([(("opaque", f"has{o.addr}"), d[1][kk]), (("not", ("opaque", f"has{o.addr}")), dv)])
            if d[0] is True and (kk is not None or a[0] is None):
                return dv
            if isinstance(a[0], Phi):
                return i.with_alts(a[0], lambda x: f(i, [x] + list(a[1:]), kw))
            vals = list(d[1].values())
            if len(vals) <= 12:
                return i.join([(("opaque", f"get{o.addr}.{n}"), v) for n, v in enumerate(vals)] + [(("opaque", f"get{o.addr}"), dv)])
            return Top("dict.get")
        return M(f)
    if name == "setdefault":
        def f(i, a, kw):
            d = i.get(("d", o.addr))
            kk = key(a[0])
            if kk is not None and kk in d[1]:
                return d[1][kk]
            setitem(i, o, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return M(f)
    if name == "update":
        def f(i, a, kw):
            i.event("mutate", ref=o, how="update")
            for x in a:
                dict_update(i, o, x)
            for k, v in kw.items():
                setitem(i, o, k, v)
        return M(f)
    if name == "pop":
        def f(i, a, kw):
            d = i.get(("d", o.addr))
            i.event("mutate", ref=o, how="pop")
            if not a:
                i.set(("d", o.addr), (False, d[1]))
                return Top("pop")
            kk = key(a[0])
            if kk is not None and kk in d[1]:
                m = dict(d[1])
                v = m.pop(kk)
                i.set(("d", o.addr), (d[0], m))
                return v
            if d[0] is True and kk is not None:
                if len(a) > 1:
                    return a[1]
                i.raise_("KeyError")
            return Top("pop")
        return M(f)
    if name == "copy":
        def f(i, a, kw):
            n = i.alloc()
            i.set(("d", n), i.get(("d", o.addr)))
            return Ref(n, o.kind)
        return M(f)
    if name in ("add", "discard", "remove"):
        def f(i, a, kw):
            d = i.get(("d", o.addr))
            i.event("mutate", ref=o, how=name)
            kk = key(a[0])
            m = dict(d[1])
            if name == "add":
                if kk is None and a[0] is not None:
                    i.set(("d", o.addr), (False, m))
                else:
                    m[kk] = True
                    i.set(("d", o.addr), (d[0], m))
            else:
                m.pop(kk, None)
                i.set(("d", o.addr), (d[0], m))
        return M(f)
    if name in ("union", "intersection", "difference", "issubset", "issuperset"):
        def f(i, a, kw):
            b = a[0]
            if not (isinstance(b, Ref) and b.kind == "set"):
                b = new_set(i, i.iter_segs(b, need=True))
            if name in ("issubset", "issuperset"):
                da, db = i.get(("d", o.addr)), i.get(("d", b.addr))
                if da[0] is True and db[0] is True:
                    return set(da[1]) <= set(db[1]) if name == "issubset" else set(da[1]) >= set(db[1])
                return BoolT(("opaque", name))
            return other_binop(i, {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name], o, b)
        return M(f)
    if name == "clear":
        def f(i, a, kw):
            i.event("mutate", ref=o, how="clear")
            i.set(("d", o.addr), (True, {}))
        return M(f)
    if default is not UNDEF:
        return default
    return Top(f"dict.{name}")


def mat_attr(it, o, name, default):
    c = it.get(("m", o.addr))

    def M(fn):
        return Builtin("Matrix." + name, fn)
    if not isinstance(c, tuple) or len(c) < 3:
        return Top(f"matrix.{name}")
    nr, nc = c[1], c[2]
    if name == "rows":
        return nr if isinstance(nr, int) else fresh_num("int", "rows")
    if name == "cols":
        return nc if isinstance(nc, int) else fresh_num("int", "cols")
    if name == "shape":
        return TupleV([nr, nc])
    rows = None if c[0] == "top" else c[0]
    if name in ("T", "transpose"):
        def f(i, a, kw):
            if rows is None:
                return top_mat(i, nc, nr)
            return new_mat(i, [[rows[a_][b_] for a_ in range(nr)] for b_ in range(nc)], nc, nr)
        return f(it, [], {}) if name == "T" else M(f)
    if name == "row":
        def f(i, a, kw):
            if rows is None or not isinstance(a[0], int):
                return top_mat(i, 1, nc)
            if not -nr <= a[0] < nr:
                i.event("index_error", seq=o, index=a[0])
                i.raise_("IndexError")
            return new_mat(i, [rows[a[0]]])
        return M(f)
    if name == "col":
        def f(i, a, kw):
            if rows is None or not isinstance(a[0], int):
                return top_mat(i, nr, 1)
            if not -nc <= a[0] < nc:
                i.event("index_error", seq=o, index=a[0])
                i.raise_("IndexError")
            return new_mat(i, [[r[a[0]]] for r in rows])
        return M(f)
    if name == "det":
        def f(i, a, kw):
            if rows is None:
                return fresh_num("sym", "det")
            if nr != nc:
                i.event("shape_error", a=(nr, nc), b=None)
                i.raise_("NonSquareMatrixError")
            return mat_det(i, rows)
        return M(f)
    if name in ("inv", "inverse"):
        return M(lambda i, a, kw: mat_inv(i, o))
    if name == "tolist":
        def f(i, a, kw):
            if rows is None:
                return i.new_list((Fam((("for?", "mat"),), (Top("row"),)),))
            return i.new_list([i.new_list(r) for r in rows])
        return M(f)
    if name == "dot":
        def f(i, a, kw):
            x, y = i.try_exact(o), i.try_exact(a[0])
            if x is None or y is None or len(x) != len(y):
                return fresh_num("sym", "dot")
            s = Num(R0, "sym")
            for p, q in zip(x, y):
                s = i.binop(ast.Add(), s, i.binop(ast.Mult(), p, q))
            return s
        return M(f)
    if name == "cross":
        def f(i, a, kw):
            x, y = i.try_exact(o), i.try_exact(a[0])
            if x is None or y is None or len(x) != 3 or len(y) != 3:
                return top_mat(i, 3, 1)
            m = lambda p, q: i.binop(ast.Mult(), p, q)
            s = lambda p, q: i.binop(ast.Sub(), p, q)
            v = [s(m(x[1], y[2]), m(x[2], y[1])), s(m(x[2], y[0]), m(x[0], y[2])), s(m(x[0], y[1]), m(x[1], y[0]))]
            return new_mat(i, [v] if nr == 1 else [[z] for z in v])
        return M(f)
    if name in ("applyfunc",):
        return M(lambda i, a, kw: mat_map(i, o, lambda z: i.call(a[0], [z], {})))
    if name in ("simplify", "expand", "copy", "doit"):
        def f(i, a, kw):
            if name == "simplify" and False:
                return None
            n = i.alloc()
            i.set(("m", n), i.get(("m", o.addr)))
            return Ref(n, "mat")
        return M(f)
    if name == "subs":
        def f(i, a, kw):
            p = _subs_pairs(i, a)
            if p is None or rows is None:
                return top_mat(i, nr, nc)
            return mat_map(i, o, lambda z: num_subs(i, z, p) if is_num(z) else z)
        return M(f)
    if name == "diff":
        return M(lambda i, a, kw: mat_map(i, o, lambda z: i.call(num_attr(i, z, "diff", UNDEF), a, {})))
    if name == "norm":
        def f(i, a, kw):
            x = i.try_exact(o)
            if x is None or not all(is_num(z) for z in x):
                return fresh_num("sym", "norm")
            s = R0
            for z in x:
                s = s + rat_of(z) * rat_of(z)
            return Num(rsqrt(s), "sym")
        return M(f)
    if name == "reshape":
        def f(i, a, kw):
            x = i.try_exact(o)
            if x is None or not all(isinstance(z, int) for z in a[:2]):
                return top_mat(i, a[0], a[1])
            return new_mat(i, [x[r * a[1]:(r + 1) * a[1]] for r in range(a[0])], a[0], a[1])
        return M(f)
    if name == "rank":
        return M(lambda i, a, kw: fresh_num("int", "rank"))
    if name == "__class__":
        return T_MATRIX
    if name in ("LUsolve", "solve", "gauss_jordan_solve", "QRsolve"):
        def f(i, a, kw):
            b = a[0]
            cb = i.get(("m", b.addr)) if isinstance(b, Ref) and b.kind == "mat" else (None, Top(), 1)
            return top_mat(i, nc, cb[2])
        return M(f)
    if name == "nullspace":
        return M(lambda i, a, kw: i.new_list((Fam((("for?", "nullspace"),), (top_mat(i, nc, 1),)),)))
    if default is not UNDEF and name.startswith("_"):
        return default
    return Builtin("Matrix." + name, lambda i, a, kw: Top("Matrix." + name))


def ext_inst_attr(it, o, name):
    return UNDEF


def lazy_global(it, mod, name):
    """Import of a name from a module still being loaded (cycle)."""
    t = it.tree(mod)
    return LazyGlobal(mod, name) if False else it.models_lazy(mod, name) if hasattr(it, "models_lazy") else Top(f"{mod}.{name}")


# ------------------------------------------------------------------ types

def type_of(it, v):
    if isinstance(v, bool) or isinstance(v, BoolT):
        return T_BOOL
    if isinstance(v, int):
        return T_INT
    if isinstance(v, float):
        return T_FLOAT
    if isinstance(v, (str, StrT)):
        return T_STR
    if v is None:
        return T_NONE
    if isinstance(v, Num):
        if v.k == "int":
            return T_INT
        if v.k == "float":
            return T_FLOAT
        if v.k == "num":
            return None
        if v.k == "symf" and v.r.is_const():
            return T_SFLOAT
        if v.r.is_const():
            return T_INTEGER if v.r.const_value().denominator == 1 else T_RATIONAL
        s = sym_id(v)
        if s is not None and atom_of(s).kind == "sym":
            return T_SYMBOL
        return T_EXPR
    if isinstance(v, TupleV):
        return T_TUPLE
    if isinstance(v, Ref):
        return {"list": T_LIST, "dict": T_DICT, "set": T_SET, "mat": T_MATRIX, "inst": v.cls}[v.kind]
    if isinstance(v, (ClassV, ExtClass)):
        return T_TYPE
    if isinstance(v, (FuncV, BoundV, Builtin)):
        return T_FUNC
    return None


def isinstance_(it, v, c):
    """True/False/None"""
    if isinstance(c, TupleV) or (isinstance(c, Ref) and c.kind == "list"):
        res = False
        for x in it.iter_segs(c):
            r = isinstance_(it, v, x)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if isinstance(c, Builtin):
        c = ExtClass(c.name)
    if isinstance(c, Ext):
        c = ExtClass(c.path)
    if not isinstance(c, (ClassV, ExtClass)):
        return None
    if c.name == "object":
        return True
    if isinstance(v, (Top,)):
        return None
    if isinstance(v, ObjT):
        return None
    if c is T_TYPE:
        return isinstance(v, (ClassV, ExtClass))
    if c.name.startswith("sympy") and c not in KNOWN_SYMPY and (is_num(v) and kind_of(v) not in ("int", "float") or isinstance(v, Ref) and v.kind == "mat"):
        return None
    t = type_of(it, v)
    if t is None:
        if isinstance(v, Num) and v.k == "num":
            if c in (T_EXPR, T_BASIC, T_INT, T_FLOAT, T_INTEGER, T_RATIONAL, T_SYMBOL, T_SFLOAT, T_NUMBER):
                return None
            return False
        return None
    if isinstance(v, Num) and v.k in ("sym", "symf") and c in (T_SYMBOL, T_INTEGER, T_RATIONAL, T_SFLOAT, T_NUMBER):
        if t.is_subclass(c):
            return True
        if any(atom_of(a).kind in ("top", "var", "app", "fn", "idx", "int", "D") for a in v.r.deep_atoms()):
            return None
        return False
    if c is T_MATRIX or t is T_MATRIX:
        return t is c
    return t.is_subclass(c)


# ------------------------------------------------------------------ builtins

def b_len(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_len(it, [x], {}))
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Ref) and v.kind == "inst":
        f, _ = v.cls.lookup("__len__")
        if f is not UNDEF:
            return it.call(BoundV(f, v), [], {})
        it.raise_("TypeError")
    if isinstance(v, Ref) and v.kind in ("dict", "set"):
        d = it.get(("d", v.addr))
        return len(d[1]) if d[0] is True else fresh_num("int", "len")
    if isinstance(v, Ref) and v.kind == "mat":
        m = it.get(("m", v.addr))
        if isinstance(m[1], int) and isinstance(m[2], int):
            return m[1] * m[2]
        return fresh_num("int", "len")
    s = it.seq_of(v)
    if s is not None:
        if not any(isinstance(x, Fam) for x in s[1]):
            return len(s[1])
        return mk(seg_len(it, s[1]), "int")
    if is_num(v) or v is None:
        it.event("type_error", op="len", a=v, b=None)
        it.raise_("TypeError")
    return fresh_num("int", "len")


def b_range(it, a, kw):
    a = list(a)
    for n, z in enumerate(a):
        if isinstance(z, Phi):
            return it.with_alts(z, lambda x: b_range(it, a[:n] + [x] + a[n + 1:], kw))
    a = [int(z.r.const_value()) if isinstance(z, Num) and z.r.is_const() and z.r.const_value().denominator == 1 else z for z in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(z, int) for z in (lo, hi, st)):
        r = range(lo, hi, st)
        if len(r) <= 4000:
            return TupleV(tuple(r))
    if not (is_num(lo) and is_num(hi) and isinstance(st, int) and st != 0):
        if isinstance(lo, (Top,)) or isinstance(hi, (Top,)) or isinstance(st, (Top, Num)):
            return it.new_list((Fam((("for?", "range"),), (fresh_num("int", "range"),)),))
        it.event("type_error", op="range", a=lo, b=hi)
        it.raise_("TypeError")
    for z in (lo, hi):
        if kind_of(z) in ("float", "symf"):
            it.event("type_error", op="range", a=lo, b=hi)
            it.raise_("TypeError")
    rl, rh = rat_of(lo), rat_of(hi)
    if it.decide(b_cmp("<=", rh, rl) if st > 0 else b_cmp("<=", rl, rh)) is True:
        return TupleV(())
    d = rh - rl
    if d.is_const() and d.const_value().denominator == 1 and abs(d.const_value()) <= 200:
        return TupleV([mk(rl + Rat.const(j), "int") for j in range(0, int(d.const_value()), st)])
    i = it.new_idx()
    ri = Rat(Poly.of_atom(i))
    if st == 1:
        return TupleV((Fam((("for", i, rl, rh),), (Num(ri, "int"),)),))
    if st == -1:
        return TupleV((Fam((("for", i, R0, rl - rh),), (mk(rl - ri, "int"),)),))
    n = Rat.atom("ceildiv", (rh - rl) if st > 0 else (rl - rh), Rat.const(abs(st)))
    return TupleV((Fam((("for", i, R0, n),), (mk(rl + ri * Rat.const(st), "int"),)),))


def b_enumerate(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_enumerate(it, [x] + list(a[1:]), kw))
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    off = rat_of(start) if is_num(start) else fresh_num("int").r
    segs = it.iter_segs(v, need=True)
    out = []
    for s in segs:
        if isinstance(s, Fam):
            def inner(f, off):
                if len(f.ctx) == 1 and f.ctx[0][0] == "for" and len(f.segs) == 1 and not isinstance(f.segs[0], Fam):
                    pos = mk(off + Rat(Poly.of_atom(f.ctx[0][1])) - f.ctx[0][2], "int")
                else:
                    pos = None
                return Fam(f.ctx, [inner(x, None) if isinstance(x, Fam) else
                                   TupleV([pos if pos is not None else fresh_num("int", "pos"), x]) for x in f.segs])
            if off is not None:
                out.append(inner(s, off))
                off = off + seg_len(it, (s,))
        else:
            out.append(TupleV([mk(off, "int"), s]))
            off = off + R1
    return it.new_list(out)


def b_zip(it, a, kw):
    for n, z in enumerate(a):
        if isinstance(z, Phi):
            return it.with_alts(z, lambda x: b_zip(it, list(a[:n]) + [x] + list(a[n + 1:]), kw))
        if isinstance(z, Fam):
            return it.new_list((Fam((("for?", "zip*"),), (Top("zip*"),)),))
    if not a:
        return it.new_list(())
    ls = [it.iter_segs(z, need=True) for z in a]
    out = []
    pos = 0
    while True:
        if any(pos >= len(l) for l in ls):
            break
        heads = [l[pos] for l in ls]
        fams = [h for h in heads if isinstance(h, Fam)]
        if not fams:
            out.append(TupleV(heads))
            pos += 1
            continue
        if len(fams) == len(heads):
            f0 = fams[0]
            if all(len(f.ctx) == len(f0.ctx) and len(f.segs) == len(f0.segs) == 1 and not isinstance(f.segs[0], Fam)
                   for f in fams):
                # align index variables
                ok = True
                items = []
                for f in fams:
                    mp = {}
                    for c0, c in zip(f0.ctx, f.ctx):
                        if c0[0] != c[0]:
                            ok = False
                            break
                        if c0[0] == "for":
                            lo0, hi0 = c0[2], c0[3]
                            lo, hi = rsubs(c[2], mp), rsubs(c[3], mp)
                            if not (hi0 - lo0).same(hi - lo):
                                ok = False
                                break
                            mp[c[1]] = Rat(Poly.of_atom(c0[1])) - lo0 + lo
                    if not ok:
                        break
                    g = rename_value(it, f.segs[0], mp)
                    items.append(g)
                if ok:
                    out.append(Fam(f0.ctx, (TupleV(items),)))
                    pos += 1
                    continue
        # give up precisely: unknown pairing, length of the shortest known
        rests = [l[pos:] for l in ls]
        items = []
        for r in rests:
            c = []
            flat_items(r, c)
            items.append(c[0] if len(c) == 1 else (summarise_items(it, c) if c else Top("zip")))
        lens = [seg_len(it, r) for r in rests]
        ctx = None
        if all(x.same(lens[0]) for x in lens[1:]):
            i = it.new_idx("z")
            ctx = (("for", i, R0, lens[0]),)
        else:
            m = lens[0]
            for x in lens[1:]:
                m = m if it.decide(b_cmp("<=", m, x)) is True else (x if it.decide(b_cmp("<=", x, m)) is True else Rat.atom("min", m, x))
            i = it.new_idx("z")
            if m.is_const() and m.const_value() <= 64:
                for _ in range(int(m.const_value())):
                    out.append(TupleV(items))
                return it.new_list(out)
            ctx = (("for", i, R0, m),)
        out.append(Fam(ctx, (TupleV(items),)))
        break
    return it.new_list(out)


def rename_value(it, v, mp):
    if not mp:
        return v
    if isinstance(v, Num):
        return mk(rsubs(v.r, mp), v.k)
    if isinstance(v, TupleV):
        return TupleV([rename_value(it, s, mp) if not isinstance(s, Fam) else rename_fam(it, s, mp) for s in v.segs])
    return v


def b_sorted(it, a, kw):
    segs = it.iter_segs(a[0], need=True)
    if any(isinstance(s, Fam) for s in segs):
        return it.new_list(segs)
    vals = list(segs)
    kf = kw.get("key")
    keys = vals if kf is None else [it.call(kf, [v], {}) for v in vals]
    try:
        ks = [pyconst(k) for k in keys]
        order = sorted(range(len(vals)), key=lambda i: ks[i], reverse=kw.get("reverse") is True)
        return it.new_list([vals[i] for i in order])
    except (TypeError, ValueError):
        if len(vals) < 2:
            return it.new_list(vals)
        return it.new_list((Fam((("for?", "sorted"),), tuple(vals)),))


def b_minmax(which):
    def f(it, a, kw):
        vals = it.try_exact(a[0]) if len(a) == 1 else list(a)
        if len(a) == 1 and isinstance(a[0], Phi):
            return it.with_alts(a[0], lambda x: f(it, [x], kw))
        if vals is None:
            segs = it.iter_segs(a[0], need=True)
            c = []
            flat_items(segs, c)
            if all(is_num(x) for x in c):
                ks = {kind_of(x) for x in c}
                return fresh_num(ks.pop() if len(ks) == 1 else "num", which)
            return Top(which)
        if not vals:
            if "default" in kw:
                return kw["default"]
            it.raise_("ValueError")
        if any(isinstance(v, Phi) for v in vals):
            for n, v in enumerate(vals):
                if isinstance(v, Phi):
                    return it.with_alts(v, lambda x: f(it, vals[:n] + [x] + vals[n + 1:] if len(vals) > 1 else [TupleV([x])], kw))
        if kw.get("key") is not None:
            ks = [it.call(kw["key"], [v], {}) for v in vals]
            if all(is_num(k) and rat_of(k).is_const() for k in ks):
                g = max if which == "max" else min
                return vals[g(range(len(vals)), key=lambda i: rat_of(ks[i]).const_value())]
            return it.join([(("opaque", f"{which}{i}"), v) for i, v in enumerate(vals)])
        if all(is_num(v) for v in vals):
            if all(rat_of(v).is_const() for v in vals):
                g = max if which == "max" else min
                return g(vals, key=lambda v: rat_of(v).const_value())
            best = vals[0]
            for v in vals[1:]:
                t = b_cmp("<=", rat_of(best), rat_of(v))
                d = it.decide(t)
                if d is None:
                    k = num_join_kind(kind_of(best), kind_of(v)) if kind_of(best) != kind_of(v) else kind_of(v)
                    best = Num(Rat.atom(which, rat_of(best), rat_of(v)), k)
                elif (d is True) == (which == "max"):
                    best = v
            return best
        if all(isinstance(v, str) for v in vals):
            return max(vals) if which == "max" else min(vals)
        try:
            ks = [pyconst(v) for v in vals]
            g = max if which == "max" else min
            return vals[g(range(len(vals)), key=lambda i: ks[i])]
        except (TypeError, ValueError):
            return Top(which)
    return f


def b_sum(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_sum(it, [x] + list(a[1:]), kw))
    segs = it.iter_segs(v, need=True)
    acc = a[1] if len(a) > 1 else kw.get("start", 0)
    from .interp import SegsKey
    for s in segs:
        if isinstance(s, Fam):
            c = []
            flat_items((s,), c)
            if all(is_num(x) for x in c) and is_num(acc):
                ks = {kind_of(x) for x in c} | {kind_of(acc)}
                k = "sym" if ks <= {"int", "sym"} and "sym" in ks else (ks.pop() if len(ks) == 1 else "num")
                acc = mk(rat_of(acc) + Rat.atom("sum", SegsKey((s,))), k)
            else:
                acc = Top("sum")
        else:
            acc = it.binop(ast.Add(), acc, s)
    return acc


def b_anyall(which):
    def f(it, a, kw):
        segs = it.iter_segs(a[0], need=True)
        t = which == "all"
        for s in segs:
            if isinstance(s, Fam):
                return BoolT(("opaque", which + repr(a[0])))
            u = it.truth(s)
            t = b_and(t, u) if which == "all" else b_or(t, u)
        return t if isinstance(t, bool) else BoolT(t)
    return f


def b_abs(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_abs(it, [x], kw))
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Num):
        d = it.decide(b_cmp("<=", R0, v.r))
        if d is True:
            return v
        return mk(rabs(v.r), v.k)
    if isinstance(v, Ref) and v.kind == "inst":
        f, _ = v.cls.lookup("__abs__")
        if f is not UNDEF:
            return it.call(BoundV(f, v), [], {})
        it.raise_("TypeError")
    return Top("abs")


def b_int(it, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_int(it, [x], kw))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.raise_("ValueError")
    if isinstance(v, (int, float)):
        try:
            return int(v)
        except Exception:
            return fresh_num("int")
    if isinstance(v, Num):
        if v.r.is_const():
            c = v.r.const_value()
            return int(c)
        if v.k == "int":
            return v
        return Num(Rat.atom("trunc", v.r), "int")
    return fresh_num("int", "int()")


def b_float(it, a, kw):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_float(it, [x], kw))
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Num):
        return Num(v.r, "float")
    if isinstance(v, Ref) and v.kind == "inst":
        f, _ = v.cls.lookup("__float__")
        if f is not UNDEF:
            return it.call(BoundV(f, v), [], {})
    return fresh_num("float", "float()")


def b_str(it, a, kw):
    return to_str(it, a[0]) if a else ""


def b_tuple(it, a, kw):
    if not a:
        return TupleV(())
    if isinstance(a[0], Phi):
        return it.with_alts(a[0], lambda x: b_tuple(it, [x], kw))
    return TupleV(it.iter_segs(a[0], need=True))


def b_list(it, a, kw):
    if not a:
        return it.new_list(())
    if isinstance(a[0], Phi):
        return it.with_alts(a[0], lambda x: b_list(it, [x], kw))
    return it.new_list(it.iter_segs(a[0], need=True))


def b_dict(it, a, kw):
    d = it.new_dict()
    for x in a:
        dict_update(it, d, x)
    for k, v in kw.items():
        setitem(it, d, k, v)
    return d


def b_set(it, a, kw):
    return new_set(it, it.iter_segs(a[0], need=True) if a else ())


def b_isinstance(it, a, kw):
    v, c = a
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_isinstance(it, [x, c], kw))
    r = isinstance_(it, v, c)
    if r is None:
        return BoolT(("opaque", f"isinstance({v!r},{c!r})"))
    return r


def b_issubclass(it, a, kw):
    c, d = a
    ds = it.iter_segs(d) if isinstance(d, TupleV) else [d]
    if isinstance(c, (ClassV, ExtClass)):
        for x in ds:
            if isinstance(x, (ClassV, ExtClass)):
                if c.is_subclass(x) or x is OBJECT:
                    return True
            elif not isinstance(x, Ext):
                return BoolT(("opaque", "issubclass"))
        return False
    return BoolT(("opaque", "issubclass"))


def b_type(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: b_type(it, [x], kw))
    t = type_of(it, v)
    return t if t is not None else Top("type")


def b_hasattr(it, a, kw):
    o, n = a
    if isinstance(o, Phi):
        return it.with_alts(o, lambda x: b_hasattr(it, [x, n], kw))
    if not isinstance(n, str):
        if isinstance(n, StrT) and isinstance(o, ModuleV):
            return BoolT(("opaque", f"hasattr({o!r},{n!r})"))
        return BoolT(("opaque", f"hasattr({n!r})"))
    if isinstance(o, Ref) and o.kind == "inst":
        if it.get(("a", o.addr, n)) is not UNDEF:
            return True
        v, _ = o.cls.lookup(n)
        if isinstance(v, PropV):
            # evaluating the property may raise AttributeError
            return True
        return v is not UNDEF
    if isinstance(o, ClassV):
        return o.lookup(n)[0] is not UNDEF or it.get(("c", o.cid, n)) is not UNDEF
    if isinstance(o, ModuleV):
        return it.get(("g", o.name, n)) is not UNDEF
    if isinstance(o, TupleV) or isinstance(o, Ref):
        if n == "__iter__":
            return True
        if o.kind == "mat" if isinstance(o, Ref) else False:
            return n in ("rows", "cols", "T", "shape", "det", "inv", "subs")
        return hasattr(tuple if isinstance(o, TupleV) else list, n)
    if is_num(o):
        if n in ("__iter__", "__len__", "__getitem__", "as_sympy"):
            return False
        return BoolT(("opaque", f"hasattr num {n}"))
    if isinstance(o, (str, StrT)):
        return hasattr("", n)
    if o is None:
        return False
    return BoolT(("opaque", f"hasattr({o!r},{n})"))


def b_getattr(it, a, kw):
    o, n = a[0], a[1]
    if isinstance(n, Phi):
        return it.with_alts(n, lambda x: b_getattr(it, [o, x] + list(a[2:]), kw))
    if not isinstance(n, str):
        return Top(f"getattr {n!r}"[:60])
    return it.getattr(o, n, a[2] if len(a) > 2 else UNDEF)


def b_setattr(it, a, kw):
    if isinstance(a[1], str):
        it.setattr(a[0], a[1], a[2])
    else:
        it.note("setattr dynamic")


def b_dir(it, a, kw):
    o = a[0] if a else None
    if isinstance(o, ModuleV):
        names = sorted(k[2] for k in it.store if k[0] == "g" and k[1] == o.name)
        return it.new_list(names)
    if isinstance(o, ClassV):
        names = set()
        for c in o.mro():
            names.update(getattr(c, "attrs", {}))
        return it.new_list(sorted(names))
    return it.new_list((Fam((("for?", "dir"),), (StrT([Top("name")]),)),))


def b_globals(it, a, kw):
    mod = it.frames[-1].module
    d = it.new_dict()
    m = {k[2]: v for k, v in it.store.items() if k[0] == "g" and k[1] == mod}
    it.set(("d", d.addr), (True, m))
    return d


def b_map(it, a, kw):
    out = []
    lists = b_zip(it, a[1:], {})
    def ap(s):
        if isinstance(s, Fam):
            return Fam(s.ctx, [ap(x) for x in s.segs])
        return it.call(a[0], list(s.segs), {})
    return it.new_list([ap(s) for s in it.iter_segs(lists)])


def b_filter(it, a, kw):
    out = []
    for s in it.iter_segs(a[1], need=True):
        if isinstance(s, Fam):
            out.append(Fam(tuple(s.ctx) + (("for?", "filter"),), s.segs))
            continue
        t = it.truth(s if a[0] is None else it.call(a[0], [s], {}))
        d = it.decide(t)
        if d is True:
            out.append(s)
        elif d is None:
            out.append(Fam((("if", t),), (s,)))
    return it.new_list(out)


def b_reversed(it, a, kw):
    return it.new_list(tuple(reversed(it.iter_segs(a[0], need=True))))


def b_next(it, a, kw):
    v = a[0]
    if isinstance(v, Ref) and v.kind == "inst":
        f, _ = v.cls.lookup("__next__")
        if f is not UNDEF:
            return it.call(BoundV(f, v), [], {})
    if isinstance(v, Ref) and v.kind == "list":
        segs = it.get(("l", v.addr))
        if segs and not isinstance(segs[0], Fam):
            it.set(("l", v.addr), segs[1:])
            return segs[0]
        if not segs:
            if len(a) > 1:
                return a[1]
            it.raise_("StopIteration")
        c = []
        flat_items(segs, c)
        return it.join([(("opaque", f"n{i}"), x) for i, x in enumerate(c)] + ([(("opaque", "nd"), a[1])] if len(a) > 1 else [])) if c else Top("next")
    return Top("next")


def b_iter(it, a, kw):
    v = a[0]
    segs = it.iter_segs(v, need=True)
    return it.new_list(segs)


def b_print(it, a, kw):
    it.event("extcall", path="print", args=a, kwargs=kw)
    return None


def b_open(it, a, kw):
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if it.vfs is not None:
        f = it.vfs.open(a[0] if a else kw.get("file"), mode)
        return Top("open") if f is None else f
    it.event("open", path=a[0], mode=mode)
    it.event("extcall", path="open", args=a, kwargs=kw)
    if it.try_stack:
        it.record_raise("FileNotFoundError", None, may=True)
    return ObjT(("file", a[0], mode), "file")


def b_hash(it, a, kw):
    v = a[0] if a else None
    if isinstance(v, Ref) and v.kind == "inst" and v.cls.lookup("__hash__")[0] is not UNDEF:
        return it.call(it.getattr(v, "__hash__"), [], {})

    def text(v):
        if v is None or isinstance(v, (bool, str)):
            return repr(v)
        if isinstance(v, TupleV):
            q = it.try_exact(v)
            return None if q is None or any(text(z) is None for z in q) else "(" + ",".join(text(z) for z in q) + ")"
        if is_num(v):
            r = rat_of(v)
            return None if any(atom_of(x).kind in ("top", "var", "app") for x in r.deep_atoms()) else repr(r)
        return None
    h = text(v)
    if h is not None:
        # equal values hash alike
        return Num(Rat.atom("const", "hash " + h), "int")
    return fresh_num("int", "hash")


def b_pow(it, a, kw):
    r = it.binop(ast.Pow(), a[0], a[1])
    return it.binop(ast.Mod(), r, a[2]) if len(a) > 2 and a[2] is not None else r


def b_slice(it, a, kw):
    return ObjT(("slice",) + tuple(([None] + list(a) + [None])[:3] if len(a) == 1 else (list(a) + [None])[:3]), "slice")


def b_round(it, a, kw):
    return fresh_num("int" if len(a) == 1 else "num", "round")


def b_divmod(it, a, kw):
    return TupleV([it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1])])


def b_callable(it, a, kw):
    return isinstance(a[0], (FuncV, BoundV, ClassV, ExtClass, Builtin, Ext)) or not isinstance(a[0], Top)


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "sorted": b_sorted,
    "max": b_minmax("max"), "min": b_minmax("min"), "sum": b_sum, "any": b_anyall("any"), "all": b_anyall("all"),
    "abs": b_abs, "isinstance": b_isinstance, "issubclass": b_issubclass, "hasattr": b_hasattr,
    "getattr": b_getattr, "setattr": b_setattr, "dir": b_dir, "globals": b_globals, "map": b_map, "filter": b_filter,
    "reversed": b_reversed, "next": b_next, "iter": b_iter, "print": b_print, "open": b_open, "hash": b_hash,
    "repr": lambda it, a, kw: to_str(it, a[0], True), "id": lambda it, a, kw: fresh_num("int", "id"),
    "slice": b_slice, "pow": b_pow, "round": b_round, "divmod": b_divmod, "callable": b_callable,
    "vars": lambda it, a, kw: it.getattr(a[0], "__dict__") if a else Top("vars"),
    "chr": lambda it, a, kw: chr(a[0]) if isinstance(a[0], int) else StrT([Top()]),
    "ord": lambda it, a, kw: ord(a[0]) if isinstance(a[0], str) else fresh_num("int"),
    "locals": lambda it, a, kw: Top("locals"),
    "delattr": lambda it, a, kw: it.set(("a", a[0].addr, a[1]), UNDEF) if isinstance(a[0], Ref) and isinstance(a[1], str) else None,
    "input": lambda it, a, kw: (it.event("extcall", path="input", args=a, kwargs=kw), StrT([Top("input")]))[1],
}
BUILTINS = {k: Builtin(k, v) for k, v in BUILTINS.items()}
for _n, _c in (("int", T_INT), ("bool", T_BOOL), ("float", T_FLOAT), ("str", T_STR), ("list", T_LIST), ("tuple", T_TUPLE),
               ("dict", T_DICT), ("set", T_SET), ("type", T_TYPE), ("object", OBJECT), ("complex", T_COMPLEX),
               ("bytes", T_BYTES), ("frozenset", T_SET)):
    BUILTINS[_n] = _c
BUILTINS["NotImplemented"] = NotImplemented
BUILTINS["Ellipsis"] = Top("...")
BUILTINS["__name__"] = "__main__"
BUILTINS["__debug__"] = True


def _install_exc():
    from . import interp
    for n in interp.EXC_NAMES:
        base = [ExtClass("Exception")] if n not in ("Exception", "BaseException") else []
        bs = []
        for p in interp.EXC_PARENTS.get(n, ()):
            bs.append(ExtClass(p))
        BUILTINS[n] = ExtClass(n, tuple(bs or base))


# ------------------------------------------------------------------ external calls

CTOR = {"int": b_int, "float": b_float, "str": b_str, "list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set,
        "type": b_type, "bool": lambda it, a, kw: _mkbool(it.truth(a[0])) if a else False,
        "object": lambda it, a, kw: ObjT(("object",), "object")}


def _mkbool(t):
    return t if isinstance(t, bool) else BoolT(t)


def itertools_product(it, a, kw):
    rep = kw.get("repeat", 1)
    if isinstance(rep, Phi):
        return it.with_alts(rep, lambda x: itertools_product(it, a, {"repeat": x}))
    if not isinstance(rep, int):
        return it.new_list((Fam((("for?", "product"),), (Top("product"),)),))
    for n, z in enumerate(a):
        if isinstance(z, Phi):
            return it.with_alts(z, lambda x: itertools_product(it, list(a[:n]) + [x] + list(a[n + 1:]), kw))
    ls = [it.iter_segs(z, need=True) if not isinstance(z, Fam) else (Fam((("for?", "product*"),), (Top(),)),) for z in a] * rep

    def rec(i, prefix, used):
        if i == len(ls):
            return (TupleV(prefix),)
        out = []
        for s in ls[i]:
            out.extend(expand(s, i, prefix, used))
        return tuple(out)

    def expand(s, i, prefix, used):
        if isinstance(s, Fam):
            mine = [c[1] for c in s.ctx if c[0] == "for"]
            mp = {m: Rat(Poly.of_atom(it.new_idx())) for m in mine if m in used}
            if mp:
                s = rename_fam(it, s, mp)
                mine = [c[1] for c in s.ctx if c[0] == "for"]
            inner = []
            for x in s.segs:
                inner.extend(expand(x, i, prefix, used | set(mine)))
            return (Fam(s.ctx, inner),)
        return rec(i + 1, prefix + (s,), used)
    n = 1
    for l in ls:
        n *= max(1, len(l))
    if n > 20000:
        return it.new_list((Fam((("for?", "product"),), (Top("product"),)),))
    return it.new_list(rec(0, (), set()))


def itertools_generic(name):
    def f(it, a, kw):
        import itertools
        q = it.try_exact(a[0])
        r = a[1] if len(a) > 1 else kw.get("r")
        if q is not None and (r is None or isinstance(r, int)):
            fn = getattr(itertools, name)
            args = (q,) if r is None else (q, r)
            out = []
            for z in fn(*args):
                out.append(TupleV(z))
                if len(out) > 20000:
                    return it.new_list((Fam((("for?", name),), (Top(name),)),))
            return it.new_list(out)
        return it.new_list((Fam((("for?", name),), (Top(name),)),))
    return f


def itertools_chain(it, a, kw):
    segs = []
    for z in a:
        segs.extend(it.iter_segs(z, need=True))
    return it.new_list(segs)


def sy_rational(it, a, kw):
    if any(isinstance(z, Phi) for z in a):
        for n, z in enumerate(a):
            if isinstance(z, Phi):
                return it.with_alts(z, lambda x: sy_rational(it, list(a[:n]) + [x] + list(a[n + 1:]), kw))
    if len(a) == 1:
        if isinstance(a[0], (float,)) or kind_of(a[0]) in ("float", "symf"):
            it.event("float_to_rational", value=a[0])
        v = to_sym(it, a[0])
        return Num(v.r, "sym") if is_num(v) else v
    p, q = to_sym(it, a[0]), to_sym(it, a[1])
    if is_num(p) and is_num(q):
        for z in (a[0], a[1]):
            if kind_of(z) in ("float", "symf"):
                it.event("float_to_rational", value=z)
        if rat_of(q).is_zero():
            return fresh_num("sym", "zoo")
        return Num(rat_of(p) / rat_of(q), "sym")
    return fresh_num("sym", "Rational")


def sy_sym1(fn):
    def f(it, a, kw):
        v = to_sym(it, a[0])
        if isinstance(v, Phi):
            return it.with_alts(v, lambda x: f(it, [x], kw))
        if is_num(v):
            return Num(fn(rat_of(v)), kind_of(v))
        return fresh_num("sym", "fn")
    return f


def _factorial(r):
    if r.is_const() and r.const_value().denominator == 1 and 0 <= r.const_value() <= 200:
        import math
        return Rat.const(math.factorial(int(r.const_value())))
    return Rat.atom("app", "factorial", r)


def sy_binomial(it, a, kw):
    x, y = to_sym(it, a[0]), to_sym(it, a[1])
    if is_num(x) and is_num(y):
        rx, ry = rat_of(x), rat_of(y)
        if rx.is_const() and ry.is_const() and rx.const_value().denominator == ry.const_value().denominator == 1:
            import math
            n, k = int(rx.const_value()), int(ry.const_value())
            if 0 <= n <= 400:
                return Num(Rat.const(math.comb(n, k) if k >= 0 else 0), "sym")
        return Num(Rat.atom("app", "binomial", rx, ry), "sym")
    return fresh_num("sym", "binomial")


def sy_symbol(it, a, kw):
    if isinstance(a[0], str):
        return Num(sym(a[0]), "sym")
    return fresh_num("sym", "Symbol")


def sy_symbols(it, a, kw):
    if isinstance(a[0], str):
        names = a[0].replace(",", " ").split()
        if len(names) == 1:
            return Num(sym(names[0]), "sym")
        return TupleV([Num(sym(n), "sym") for n in names])
    return Top("symbols")


def simplified(o):
    """sin(x)^2 + cos(x)^2 = 1 is used by simplify only."""
    r = rat_of(o)
    if not r.atoms() & TRIG:
        return o
    sn, cs = TRIG_SIN, TRIG_COS

    def red(p):
        out = R0
        for m, c in p.t.items():
            term = Rat.const(c)
            for a, e in m:
                if a == sn:
                    term = term * (R1 - Rat(Poly.of_atom(cs)).ipow(2)).ipow(e // 2) * Rat(Poly.of_atom(sn)).ipow(e % 2)
                else:
                    term = term * Rat(Poly.of_atom(a)).ipow(e)
            out = out + term
        return out
    return Num(red(r.num) / red(r.den), o.k if isinstance(o, Num) else "sym")


def sy_simplify(it, a, kw):
    o = sy_identity(it, a, kw)
    return simplified(o) if is_num(o) else o


def sy_identity(it, a, kw):
    if isinstance(a[0], (str, StrT)) and it.vfs is not None:
        return vfs.parse(it, a[0])
    return to_sym(it, a[0])


def sy_diff(it, a, kw):
    v = to_sym(it, a[0])
    if is_num(v):
        return it.call(num_attr(it, v, "diff", UNDEF), a[1:], {})
    return it.call(it.getattr(v, "diff"), a[1:], {})


def sy_integrate(it, a, kw):
    v = to_sym(it, a[0])
    if is_num(v):
        return num_integrate(it, v, a[1:])
    return Top("integrate")


def sy_zeros(it, a, kw):
    n = a[0]
    m = a[1] if len(a) > 1 else n
    if isinstance(n, int) and isinstance(m, int) and n * m <= 10000:
        return new_mat(it, [[Num(R0, "sym")] * m for _ in range(n)], n, m)
    return top_mat(it, n, m)


def sy_eye(it, a, kw):
    n = a[0]
    if isinstance(n, int):
        return new_mat(it, [[Num(R1 if i == j else R0, "sym") for j in range(n)] for i in range(n)])
    return top_mat(it, n, n)


def sy_integer(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: sy_integer(it, [x], kw))
    if isinstance(v, int):
        return Num(Rat.const(int(v)), "sym")
    if isinstance(v, Num):
        if v.k in ("float", "symf"):
            it.event("float_to_rational", value=v)
            return fresh_num("sym", "Integer")
        return Num(v.r, "sym")
    return fresh_num("sym", "Integer")


def sy_float(it, a, kw):
    v = a[0]
    if isinstance(v, Phi):
        return it.with_alts(v, lambda x: sy_float(it, [x], kw))
    if is_num(v):
        return Num(rat_of(v), "symf")
    return fresh_num("symf", "Float")


def math_fn(name, kind):
    def f(it, a, kw):
        if name == "comb" and all(isinstance(z, int) for z in a):
            import math
            return math.comb(*a)
        if name == "factorial" and isinstance(a[0], int):
            import math
            return math.factorial(a[0])
        if name in ("floor", "ceil") and isinstance(a[0], (int, float)):
            import math
            return getattr(math, name)(a[0])
        return fresh_num(kind, "math." + name)
    return f


def os_listdir(it, a, kw):
    it.event("extcall", path="os.listdir", args=a, kwargs=kw)
    if a and isinstance(a[0], str):
        p = a[0]
        if os.path.isdir(p) and os.path.realpath(p).startswith(os.path.realpath(it.root)):
            return it.new_list(sorted(x for x in os.listdir(p) if x != "__pycache__"))
    return it.new_list((Fam((("for?", "listdir"),), (StrT([Top("file")]),)),))


def os_path(name):
    def f(it, a, kw):
        if name in ("isfile", "isdir", "exists", "islink"):
            it.event("fscheck", path=a[0], name=name)
            return BoolT(("opaque", f"{name}({a[0]!r})@{len(it.events)}"))
        if all(isinstance(z, str) for z in a):
            r = getattr(os.path, name)(*a)
            if isinstance(r, tuple):
                return TupleV(r)
            return r
        if name == "join":
            return StrT([("join",) + tuple(a)])
        return StrT([(name,) + tuple(a)])
    return f


def import_module(it, a, kw):
    if a and isinstance(a[0], str):
        n = a[0]
        if n.startswith("."):
            pkg = a[1] if len(a) > 1 else kw.get("package")
            if isinstance(pkg, str):
                n = pkg + n
        if it.is_internal(n):
            return it.load(n)
        return Ext(n)
    return Top("import")


def functools_reduce(it, a, kw):
    segs = it.try_exact(a[1])
    if segs is None:
        return Top("reduce")
    segs = list(segs)
    acc = a[2] if len(a) > 2 else segs.pop(0)
    for s in segs:
        acc = it.call(a[0], [acc, s], {})
    return acc


def chain_from(it, a, kw):
    outer = it.iter_segs(a[0], need=True)
    if any(isinstance(z, Fam) for z in outer):
        return it.new_list((Fam((("for?", "chain"),), (Top("chain"),)),))
    return itertools_chain(it, list(outer), kw)


def exact_tool(fn):
    """An iterator tool on sequences of known length; anything else gives a sequence of unknown length."""
    def f(it, a, kw):
        try:
            out = fn(it, a, kw)
        except _NotExact:
            out = (Fam((("for?", "tool"),), (Top("tool"),)),)
        return it.new_list(out)
    return f


class _NotExact(Exception):
    pass


def seq(it, v):
    q = it.try_exact(v)
    if q is None:
        raise _NotExact
    return list(q)


def _accumulate(it, a, kw):
    vals = seq(it, a[0])
    fn = a[1] if len(a) > 1 else kw.get("func")
    if kw.get("initial") is not None:
        vals.insert(0, kw["initial"])
    out = []
    for v in vals:
        out.append(v if not out else it.binop(ast.Add(), out[-1], v) if fn is None else it.call(fn, [out[-1], v], {}))
    return out


def _pairwise(it, a, kw):
    v = seq(it, a[0])
    return [TupleV(q) for q in zip(v, v[1:])]


def _zip_longest(it, a, kw):
    ls = [seq(it, v) for v in a]
    n = max(map(len, ls), default=0)
    return [TupleV([l[i] if i < len(l) else kw.get("fillvalue") for l in ls]) for i in range(n)]


def _islice(it, a, kw):
    q = list(a[1:])
    if not all(z is None or isinstance(z, int) for z in q):
        raise _NotExact
    return seq(it, a[0])[slice(*q)]


def _repeat(it, a, kw):
    n = a[1] if len(a) > 1 else kw.get("times")
    if not isinstance(n, int):
        raise _NotExact
    return [a[0]] * n


def _starmap(it, a, kw):
    return [it.call(a[0], seq(it, v), {}) for v in seq(it, a[1])]


def _while(take):
    def f(it, a, kw):
        out, on = [], True
        for v in seq(it, a[1]):
            if on or not take:
                t = it.truth(it.call(a[0], [v], {})) if on else False
                if not isinstance(t, bool):
                    raise _NotExact
                on = on and t
            if on == take:
                out.append(v)
        return out
    return f


def _filterfalse(it, a, kw):
    out = []
    for v in seq(it, a[1]):
        t = it.truth(v if a[0] is None else it.call(a[0], [v], {}))
        if not isinstance(t, bool):
            raise _NotExact
        if not t:
            out.append(v)
    return out


def fn_partial(it, a, kw):
    return Builtin("partial", lambda i, b, k: i.call(a[0], list(a[1:]) + list(b), {**kw, **k}))


def fn_prod(it, a, kw):
    acc = a[1] if len(a) > 1 else kw.get("start", 1)
    q = it.try_exact(a[0])
    if q is None:
        return Top("prod")
    for v in q:
        acc = it.binop(ast.Mult(), acc, v)
    return acc


def op_bin(o):
    return lambda it, a, kw: it.binop(o(), a[0], a[1])


def op_cmp(o):
    return lambda it, a, kw: it.compare(o(), a[0], a[1])


def itemgetter(it, a, kw):
    return Builtin("itemgetter", lambda i, b, k: i.getitem(b[0], a[0]) if len(a) == 1 else TupleV([i.getitem(b[0], q) for q in a]))


def attrgetter(it, a, kw):
    if not all(isinstance(q, str) for q in a):
        return Top("attrgetter")

    def one(i, o, n):
        for q in n.split("."):
            o = i.getattr(o, q)
        return o
    return Builtin("attrgetter", lambda i, b, k: one(i, b[0], a[0]) if len(a) == 1 else TupleV([one(i, b[0], q) for q in a]))


def methodcaller(it, a, kw):
    return Builtin("methodcaller", lambda i, b, k: i.call(i.getattr(b[0], a[0]), list(a[1:]), kw))


def default_dict(it, a, kw):
    d = b_dict(it, list(a[1:]), kw) if len(a) > 1 or kw else it.new_dict()
    if a and a[0] is not None:
        it.set(("dd", d.addr), a[0])
    return d


def int_fn(name):
    def f(it, a, kw):
        if all(isinstance(z, int) for z in a):
            import math
            return getattr(math, name)(*a)
        return fresh_num("int", "math." + name)
    return f


def sy_fold(op, unit):
    def f(it, a, kw):
        acc = Num(Rat.const(unit), "sym")
        for v in a:
            acc = it.binop(op(), acc, to_sym(it, v))
        return acc
    return f


def sy_power(it, a, kw):
    return it.binop(ast.Pow(), to_sym(it, a[0]), to_sym(it, a[1]))


def sy_root(n=None):
    def f(it, a, kw):
        v, m = to_sym(it, a[0]), (n if n is not None else a[1])
        if is_num(v) and m == 2:
            return Num(rsqrt(rat_of(v)), kind_of(v))
        return fresh_num("sym", "root")
    return f


def sy_const(fn):
    """A function folded on numbers only."""
    def f(it, a, kw):
        vs = [to_sym(it, v) for v in a]
        if vs and all(is_num(v) and rat_of(v).is_const() for v in vs):
            return Num(Rat.const(fn(*[rat_of(v).const_value() for v in vs])), "sym")
        return fresh_num("sym", "number function")
    return f


def sy_maxmin(which):
    g = b_minmax(which)
    return lambda it, a, kw: g(it, [to_sym(it, v) for v in a], {}) if len(a) > 1 else to_sym(it, a[0]) if a else fresh_num("sym", which)


EXT_CALLS = {
    "sympy.Add": sy_fold(ast.Add, 0), "sympy.Mul": sy_fold(ast.Mult, 1), "sympy.Pow": sy_power,
    "sympy.root": sy_root(), "sympy.cbrt": sy_root(3),
    "sympy.floor": sy_const(lambda v: v.numerator // v.denominator), "sympy.ceiling": sy_const(lambda v: -(-v.numerator // v.denominator)),
    "sympy.sign": sy_const(lambda v: (v > 0) - (v < 0)), "sympy.Max": sy_maxmin("max"), "sympy.Min": sy_maxmin("min"),
        **{"sympy." + q: (lambda it, a, kw: sy_identity(it, a, kw)) for q in ("cancel", "together", "collect", "apart", "radsimp", "ratsimp",
                                                                        "powsimp", "expand_mul", "expand_power_base", "factor_terms", "powdenest", "logcombine", "sqrtdenest", "gcd_terms")},
    "sympy.trigsimp": lambda it, a, kw: sy_simplify(it, a, kw),
    "itertools.chain.from_iterable": chain_from, "itertools.accumulate": exact_tool(_accumulate),
    "itertools.pairwise": exact_tool(_pairwise), "itertools.zip_longest": exact_tool(_zip_longest),
    "itertools.islice": exact_tool(_islice), "itertools.repeat": exact_tool(_repeat), "itertools.starmap": exact_tool(_starmap),
    "itertools.takewhile": exact_tool(_while(True)), "itertools.dropwhile": exact_tool(_while(False)),
    "itertools.filterfalse": exact_tool(_filterfalse),
    "functools.partial": fn_partial, "math.prod": fn_prod, "sympy.prod": fn_prod,
    "math.gcd": int_fn("gcd"), "math.lcm": int_fn("lcm"), "math.isqrt": int_fn("isqrt"), "math.perm": int_fn("perm"),
    "operator.add": op_bin(ast.Add), "operator.sub": op_bin(ast.Sub), "operator.mul": op_bin(ast.Mult),
    "operator.truediv": op_bin(ast.Div), "operator.floordiv": op_bin(ast.FloorDiv), "operator.mod": op_bin(ast.Mod),
    "operator.pow": op_bin(ast.Pow), "operator.matmul": op_bin(ast.MatMult),
    "operator.and_": op_bin(ast.BitAnd), "operator.or_": op_bin(ast.BitOr), "operator.xor": op_bin(ast.BitXor),
    "operator.neg": lambda it, a, kw: it.binop(ast.Mult(), -1, a[0]) if is_num(a[0]) else it.call(it.getattr(a[0], "__neg__"), [], {}),
    "operator.eq": op_cmp(ast.Eq), "operator.ne": op_cmp(ast.NotEq), "operator.lt": op_cmp(ast.Lt), "operator.le": op_cmp(ast.LtE),
    "operator.gt": op_cmp(ast.Gt), "operator.ge": op_cmp(ast.GtE),
    "operator.itemgetter": itemgetter, "operator.attrgetter": attrgetter, "operator.methodcaller": methodcaller,
    "operator.getitem": lambda it, a, kw: it.getitem(a[0], a[1]),
    "itertools.product": itertools_product,
    "itertools.permutations": itertools_generic("permutations"),
    "itertools.combinations": itertools_generic("combinations"),
    "itertools.combinations_with_replacement": itertools_generic("combinations_with_replacement"),
    "itertools.chain": itertools_chain,
    "functools.reduce": functools_reduce,
    "sympy.Rational": sy_rational, "sympy.Integer": sy_integer, "sympy.Float": sy_float,
    "sympy.S": sy_identity, "sympy.sympify": sy_identity,
    "sympy.sqrt": sy_sym1(rsqrt), "sympy.Abs": sy_sym1(rabs), "sympy.factorial": sy_sym1(_factorial),
    "sympy.binomial": sy_binomial,
    "sympy.Symbol": sy_symbol, "sympy.symbols": sy_symbols, "sympy.Dummy": lambda it, a, kw: fresh_num("sym", "Dummy"),
    "sympy.expand": sy_identity, "sympy.simplify": sy_simplify, "sympy.factor": sy_identity, "sympy.nsimplify": sy_identity,
    "sympy.diff": sy_diff, "sympy.integrate": sy_integrate,
    "sympy.Matrix": lambda it, a, kw: make_matrix(it, a),
    "sympy.Poly": sy_poly,
    "sympy.zeros": sy_zeros, "sympy.eye": sy_eye,
    "sympy.latex": lambda it, a, kw: StrT([("latex",) + tuple(a)]),
    "sympy.degree": lambda it, a, kw: sy_degree(it, a, kw),
    "sympy.total_degree": lambda it, a, kw: sy_total_degree(it, a, kw),
    "sympy.total_degree": lambda it, a, kw: fresh_num("int", "degree"),
    "math.sqrt": math_fn("sqrt", "float"), "math.floor": math_fn("floor", "int"), "math.ceil": math_fn("ceil", "int"),
    "math.factorial": math_fn("factorial", "int"), "math.comb": math_fn("comb", "int"),
    "math.isnan": lambda it, a, kw: BoolT(("opaque", "isnan")),
    "math.cos": math_fn("cos", "float"), "math.sin": math_fn("sin", "float"),
    "os.listdir": os_listdir, "importlib.import_module": import_module,
    "typing.cast": lambda it, a, kw: a[1],
    "copy.copy": lambda it, a, kw: shallow_copy(it, a[0]), "copy.deepcopy": lambda it, a, kw: shallow_copy(it, a[0]),
    "warnings.warn": lambda it, a, kw: None,
    "typing.TypeVar": lambda it, a, kw: Top("typevar"),
    "collections.defaultdict": default_dict,
    "collections.OrderedDict": b_dict,
}
for _n in ("join", "isfile", "isdir", "exists", "dirname", "basename", "realpath", "abspath", "splitext", "split", "expanduser", "islink"):
    EXT_CALLS["os.path." + _n] = os_path(_n)


def shallow_copy(it, v):
    if isinstance(v, Ref):
        n = it.alloc()
        for kd in ("l", "d", "m"):
            x = it.get((kd, v.addr))
            if x is not UNDEF:
                it.set((kd, n), x)
        if v.kind == "inst":
            for k, x in list(it.store.items()):
                if k[0] == "a" and k[1] == v.addr:
                    it.set(("a", n, k[2]), x)
            r = Ref(n, "inst", v.cls)
            it.set(("inst", n), r)
            return r
        return Ref(n, v.kind, v.cls)
    return v


# functions whose applications are distinct exact terms; everything else sympy offers is not modelled unless listed above
AT_ZERO = {"sympy.sin": 0, "sympy.cos": 1, "sympy.tan": 0, "sympy.exp": 1, "sympy.sinh": 0, "sympy.cosh": 1, "sympy.atan": 0, "sympy.asin": 0}
UNINTERPRETED = set(AT_ZERO)


def call_ext(it, path, args, kwargs):
    if it.vfs is not None:
        r = vfs.call(it, path, args, kwargs)
        if r is not NotImplemented:
            return r
    f = CTOR.get(path)
    if f:
        return f(it, args, kwargs)
    f = EXT_CALLS.get(path)
    if f:
        return f(it, args, kwargs)
    it.event("extcall", path=path, args=args, kwargs=kwargs)
    root = path.split(".")[0]
    if root == "sympy":
        vals = [to_sym(it, a) for a in args]
        if vals and all(is_num(v) for v in vals) and not kwargs and path in UNINTERPRETED:
            z = rat_of(vals[0])
            if z.is_zero() and path in AT_ZERO:
                return Num(Rat.const(AT_ZERO[path]), "sym")
            k = "symf" if any(kind_of(v) == "symf" for v in vals) else "sym"
            return Num(Rat.atom("app", path, *[rat_of(v) for v in vals]), k)
        it.note("ext " + path)
        return Top(path)
    if path in ("typing.Union", "typing.Optional", "typing.NewType"):
        return Top(path)
    from .interp import EXC_NAMES
    if path in EXC_NAMES:
        return ObjT(("exc", path), path)
    if it.try_stack:
        it.record_raise(None, None, may=True)
    if root in ("math", "cmath"):
        return fresh_num("float", path)
    if path.endswith("user_cache_dir") or path.startswith("os.environ"):
        return StrT([(path,) + tuple(args)])
    it.note("ext " + path)
    return ObjT((path,) + tuple(args), path)


from . import vfs  # noqa: E402  (needs the definitions above)
