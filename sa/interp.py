"""Abstract interpreter over the Python syntax tree of the analysed package.

Dataflow with joins at control-flow merges; loops whose trip count depends on unknown
quantities are summarised (each appended element becomes an indexed family); calls to
functions of the package are followed.  Nothing is executed.
"""
import ast
import os
from fractions import Fraction

from . import desugar
from .poly import (Rat, Poly, R0, R1, rsubs, rdiff, rpow, rabs, rsqrt, rint, atom, atom_of, sym, var)
from .values import *
from . import values as V


PLAIN_BASES = {"object", "ABC", "Generic", "Protocol", "type", "ABCMeta"}
AXIS = {"x", "y", "z", "t0", "t1", "t2"}


class Dead(Exception):
    """The current program point is unreachable."""


class Budget(Exception):
    """Analysis budget exhausted."""


class Exit:
    __slots__ = ("kind", "val", "guard", "diff", "node", "inline", "loc")

    def __init__(self, kind, val, guard, diff, node, inline, loc=None):
        self.kind, self.val, self.guard, self.diff = kind, val, guard, diff
        self.node, self.inline, self.loc = node, inline, loc


class Frame:
    _n = 0

    def __init__(self, module, func, parent, locs, cls_attrs=None):
        Frame._n += 1
        self.id = Frame._n
        self.module, self.func, self.parent, self.locs = module, func, parent, locs
        self.exits = []
        self.base = 0
        self.depth0 = 0
        self.loops = []
        self.cls_attrs = cls_attrs
        self.globals_ = set()
        self.nonlocals = set()
        self.self_ = None
        self.node = None
        self.yields = None
        self.npc = 0


BOTTOM = object()
MAX_UNROLL = 4000
MAX_PHI = 16


def _assigned(fn):
    """Names bound in a function body (not nested scopes)."""
    cached = getattr(fn, "_sa_locs", None)
    if cached is not None:
        return cached
    names, globs, nonl = set(), set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gen = False

    def walk(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus not used; only the first iterable is in this scope - no bindings
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        walk(s)
    fn._sa_locs = (names - globs - nonl, globs, nonl, gen)
    return fn._sa_locs


class Interp:
    def __init__(self, root="/repo", package="symfem", max_steps=20_000_000):
        self.root, self.package = root, package
        self.store = {}
        self.trail = []
        self.pc = []
        self.bounds = {}
        self.frames = []
        self.branch_depth = 0
        self.try_stack = []
        self.structural = False
        self.modules = {}
        self.mod_path_extra = {}
        self.trees = {}
        self.naddr = 0
        self.steps = 0
        self.max_steps = max_steps
        self.events = []
        self.event_kinds = set()
        self.hooks = {}
        self.vfs = None
        self.watch = None          # effect threshold
        self.effects = []
        self.unmodelled = {}
        self.funcs_seen = set()
        self.curnode = None
        self.alloc_loop = {}
        self.uncaught = []
        self.max_depth = 60
        self.undecided = []
        self.consulted = set()
        self.overrides = {}        # qualified function name -> python callable(interp, args, kwargs)
        from . import models
        self.models = models
        models.install(self)

    # ---------------------------------------------------------------- store
    def set(self, key, val):
        st = self.store
        old = st.get(key, UNDEF)
        if old is val:
            return
        self.trail.append((key, old))
        st[key] = val
        if self.watch is not None and key[0] != "v" and key[0] != "inst":
            self._effect(key, old, val)

    def _effect(self, key, old, val):
        if key[0] in ("a", "l", "d", "s", "m"):
            if key[1] < self.watch:
                self.effects.append((key, self.loc(), old, val))
        elif key[0] in ("g", "c"):
            if not (key[0] == "g" and self.modules.get(key[1]) != "done"):
                self.effects.append((key, self.loc(), old, val))

    def get(self, key):
        return self.store.get(key, UNDEF)

    def undo(self, mark):
        t, st = self.trail, self.store
        while len(t) > mark:
            k, old = t.pop()
            if old is UNDEF:
                st.pop(k, None)
            else:
                st[k] = old

    def diff(self, mark):
        st = self.store
        return {k: st.get(k, UNDEF) for k, _ in self.trail[mark:]}

    def apply(self, d):
        w = self.watch
        self.watch = None
        for k, v in d.items():
            self.set(k, v)
        self.watch = w

    def alloc(self):
        self.naddr += 1
        return self.naddr

    # ---------------------------------------------------------------- locations
    def loc(self):
        f = self.frames[-1] if self.frames else None
        n = self.curnode
        return (f.module if f else "?", f.func.qual if f and f.func else "<module>", getattr(n, "lineno", 0))

    def stackstr(self):
        return " < ".join(f"{f.module}.{f.func.qual if f.func else '<module>'}" for f in reversed(self.frames[-6:]))

    def event(self, kind, **data):
        if kind in self.event_kinds:
            self.events.append((kind, self.loc(), data))
        h = self.hooks.get(kind)
        if h:
            h(self, data)

    def note(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    # ---------------------------------------------------------------- joins
    def join(self, alts):
        """alts: [(guard, value)] -> value."""
        flat = []
        for g, v in alts:
            if isinstance(v, Phi):
                for g2, v2 in v.alts:
                    gg = self._gand(g, g2)
                    if gg is not False:
                        flat.append((gg, v2))
            else:
                flat.append((g, v))
        out = []
        for g, v in flat:
            for i, (g2, v2) in enumerate(out):
                if self.same(v, v2):
                    out[i] = (None if g is None or g2 is None else b_or(g, g2), v2)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        if all(isinstance(v, (bool, BoolT)) for _, v in out) and all(g is not None for g, _ in out):
            t = b_or(*[b_and(self._t(g), self._t(v)) for g, v in out])
            return t if isinstance(t, bool) else BoolT(t)
        if all(isinstance(v, TupleV) for _, v in out):
            n = {len(v.segs) for _, v in out if v.exact()}
            if len(n) == 1 and all(v.exact() for _, v in out):
                return TupleV([self.join([(g, v.segs[i]) for g, v in out]) for i in range(n.pop())])
            s = self.join_segs([(g, v.segs) for g, v in out])
            if s is not None:
                return TupleV(s)
        if len(out) > MAX_PHI:
            if all(is_num(v) for _, v in out):
                ks = {kind_of(v) for _, v in out}
                return fresh_num(ks.pop() if len(ks) == 1 else "num", "join")
            return Top("join")
        return Phi(out)

    @staticmethod
    def _t(v):
        if v is None:
            return ("opaque", "?")
        return v.t if isinstance(v, BoolT) else v

    @staticmethod
    def _gand(a, b):
        if a is None or b is None:
            return None
        r = b_and(a, b)
        if r is not True and r is not False and r[0] == "and":
            s = set(r[1])
            for t in r[1]:
                if b_not(t) in s:
                    return False
        return r

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    def join_segs(self, alts):
        """Join of list contents: common prefix + guarded suffixes."""
        lists = [s for _, s in alts]
        n = min(map(len, lists))
        p = 0
        while p < n and all(self.same(l[p], lists[0][p]) for l in lists[1:]):
            p += 1
        out = list(lists[0][:p])
        for g, s in alts:
            suf = s[p:]
            if suf:
                if g is True:
                    out.extend(suf)
                else:
                    out.append(Fam((("if", g if g is not None else ("opaque", "?")),), suf))
        return tuple(out)

    def join_key(self, key, alts):
        vals = [v for _, v in alts]
        if all(self.same(v, vals[0]) for v in vals[1:]):
            return vals[0]
        if key[0] == "l" and all(isinstance(v, tuple) for v in vals):
            n = {len(v) for v in vals}
            if len(n) == 1 and not any(isinstance(s, Fam) for v in vals for s in v):
                # same length: element-wise join keeps lengths exact
                return tuple(self.join([(g, v[i]) for g, v in alts]) for i in range(n.pop()))
            return self.join_segs(alts)
        if key[0] in ("d", "s"):
            return self._join_dict(alts)
        if key[0] == "inst":
            return next(v for v in vals if v is not UNDEF)
        if key[0] == "m":
            return ("top",)
        live = [(g, v) for g, v in alts if v is not UNDEF]
        if len(live) < len(alts):
            if key[0] in ("l",):
                return live[0][1]
            return self.join(live) if live else UNDEF
        return self.join(live)

    def _join_dict(self, alts):
        vals = [v for _, v in alts if v is not UNDEF]
        keys = []
        exact = True
        for v in vals:
            if v[0] is not True:
                exact = False
            for k in v[1]:
                if k not in keys:
                    keys.append(k)
        out = {}
        for k in keys:
            pres = [(g, v[1][k]) for g, v in alts if v is not UNDEF and k in v[1]]
            if len(pres) < len(vals):
                exact = False
            out[k] = self.join(pres)
        return (exact if exact else ("maybe" if all(v[0] is not False for v in vals) else False), out)

    def branch(self, arms):
        """arms: [(guard term or None, thunk)]; runs each from the same state, joins. Returns joined value."""
        base = len(self.trail)
        npc = len(self.pc)
        res = []
        self.branch_depth += 1
        try:
            for g, fn in arms:
                if g is False:
                    continue
                if isinstance(g, tuple):
                    self.assume(g)
                try:
                    v = fn()
                    ok = True
                except Dead:
                    ok = False
                if ok:
                    extra = b_and(*self.pc[npc:]) if g is not None else None
                    if extra is False:
                        ok = False
                if ok:
                    res.append((extra, v, self.diff(base)))
                self.undo(base)
                del self.pc[npc:]
        finally:
            self.branch_depth -= 1
        if not res:
            raise Dead()
        if len(res) == 1:
            g, v, d = res[0]
            if isinstance(g, tuple):
                for t in (g[1] if g[0] == "and" else (g,)):
                    self.pc.append(t)
            self.apply(d)
            return v
        keys = []
        seen = set()
        for _, _, d in res:
            for k in d:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        w = self.watch
        self.watch = None
        for k in keys:
            old = self.store.get(k, UNDEF)
            self.set(k, self.join_key(k, [(g, d.get(k, old)) for g, _, d in res]))
        self.watch = w
        return self.join([(g, v) for g, v, _ in res])

    def with_alts(self, v, fn):
        if isinstance(v, Phi):
            return self.branch([(g if g is not None else ("opaque", f"alt{id(v)}.{i}"), (lambda x=x: fn(x)))
                                for i, (g, x) in enumerate(v.alts)])
        return fn(v)

    # ---------------------------------------------------------------- facts
    def assume(self, t):
        if t is True or t is False:
            return
        if t[0] == "and":
            for x in t[1]:
                self.assume(x)
            return
        self.pc.append(t)

    def decide(self, t):
        if isinstance(t, bool):
            return t
        k = t[0]
        if k == "and":
            r = True
            for x in t[1]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if k == "not":
            d = self.decide(t[1])
            if d is not None:
                return not d
        if t in self.pc:
            return True
        nt = b_not(t)
        if nt in self.pc:
            return False
        for p in self.pc:
            if p == nt:
                return False
        if k == "cmp":
            return self.decide_cmp(t[1], t[2])
        return None

    def decide_cmp(self, op, r):
        if r.den != R1.num:
            return None
        if self.structural and op in ("==", "!=") and not r.is_const():
            # expressions: a polynomial in the axis variables alone equals a constant only if it is one
            if all(atom_of(a).kind == "sym" and atom_of(a).args[0] in AXIS for a in r.atoms()):
                return op == "!="
        lo, hi = self.range_of(r)
        if op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op in ("==", "!="):
            out = False if ((lo is not None and lo > 0) or (hi is not None and hi < 0)) else None
            if out is None and lo is not None and lo == hi == 0:
                out = True
            if out is not None:
                return out if op == "==" else not out
        return None

    def range_of(self, r):
        return self._bound(r, False), self._bound(r, True)

    def _pc_bounds(self):
        """Bounds on atoms implied by linear facts of shape +-a + c (op) 0."""
        out = {}
        for t in self.pc:
            if t[0] != "cmp" or t[2].den != R1.num:
                continue
            p = t[2].num.t
            ats = [m for m in p if m]
            if len(ats) != 1 or len(ats[0]) != 1 or ats[0][0][1] != 1:
                continue
            a = ats[0][0][0]
            c, k = p[ats[0]], p.get((), Fraction(0))
            op = t[1]
            if op == "==":
                out.setdefault(a, []).append(("eq", -k / c))
            elif op in ("<", "<="):
                strict = op == "<"
                b = -k / c
                isint = atom_of(a).kind in ("idx", "var", "card")
                if c > 0:
                    if strict and isint:
                        b = b - 1 if b.denominator == 1 else Fraction(b.numerator // b.denominator)
                    out.setdefault(a, []).append(("hi", b))
                else:
                    if strict and isint:
                        b = b + 1 if b.denominator == 1 else -Fraction(-b.numerator // b.denominator)
                    out.setdefault(a, []).append(("lo", b))
        # disequalities sharpen integer bounds
        for t in self.pc:
            if t[0] == "cmp" and t[1] == "!=" and t[2].den == R1.num:
                p = t[2].num.t
                ats = [m for m in p if m]
                if len(ats) == 1 and len(ats[0]) == 1 and ats[0][0][1] == 1:
                    out.setdefault(ats[0][0][0], []).append(("ne", -p.get((), Fraction(0)) / p[ats[0]]))
        return out

    def atom_bounds(self, a, pcb):
        lo, hi = self.bounds.get(a, (None, None))
        for k, b in pcb.get(a, ()):
            rb = Rat.const(b)
            if k == "eq":
                return rb, rb
            if k == "lo" and (lo is None or (lo.is_const() and lo.const_value() < b)):
                lo = rb
            if k == "hi" and (hi is None or (hi.is_const() and hi.const_value() > b)):
                hi = rb
        for _ in range(3):
            for k, b in pcb.get(a, ()):
                if k == "ne":
                    if lo is not None and lo.is_const() and lo.const_value() == b:
                        lo = Rat.const(b + 1)
                    if hi is not None and hi.is_const() and hi.const_value() == b:
                        hi = Rat.const(b - 1)
        return lo, hi

    def _bound(self, r, upper):
        if r.den != R1.num:
            return None
        pcb = self._pc_bounds()
        p = r
        for _ in range(40):
            if p.den != R1.num:
                return None
            if p.num.is_const():
                return p.num.const_value()
            # innermost atom first = largest idx creation; substitute bound
            cands = sorted(p.num.atoms(), reverse=True)
            done = False
            for a in cands:
                coefs = [(m, c) for m, c in p.num.t.items() if any(x == a for x, _ in m)]
                if any(dict(m)[a] != 1 or len(m) != 1 for m, _ in coefs):
                    continue
                lo, hi = self.atom_bounds(a, pcb)
                c = coefs[0][1]
                b = (hi if c > 0 else lo) if upper else (lo if c > 0 else hi)
                if b is None or a in b.deep_atoms():
                    continue
                p = rsubs(p, {a: b})
                done = True
                break
            if not done:
                # products of atoms all known nonnegative
                if not upper:
                    tot = Fraction(0)
                    for m, c in p.num.t.items():
                        if not m:
                            tot += c
                            continue
                        if c < 0:
                            return None
                        for a, _ in m:
                            lo, _h = self.atom_bounds(a, pcb)
                            if lo is None or not lo.is_const() or lo.const_value() < 0:
                                return None
                        # lower bound of the product: product of lower bounds
                        t = c
                        for a, e in m:
                            t *= self.atom_bounds(a, pcb)[0].const_value() ** e
                        tot += t
                    return tot
                return None
        return None

    # ---------------------------------------------------------------- modules
    def mod_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        return None

    def is_internal(self, name):
        return name.split(".")[0] == self.package and self.mod_path(name) is not None

    def tree(self, name):
        if name not in self.trees:
            with open(self.mod_path(name), encoding="utf-8") as f:
                src = f.read()
            self.trees[name] = desugar.parse(src)
            self.consulted.add(name)
        return self.trees[name]

    def load(self, name):
        if name in self.modules:
            return ModuleV(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        if name in self.modules:
            return ModuleV(name)
        self.modules[name] = "loading"
        self.set(("g", name, "__name__"), name)
        self.set(("g", name, "__file__"), "probe" if name in self.mod_path_extra else self.mod_path(name))
        t = self.tree(name)
        saved_pc, self.pc = self.pc, []
        saved_try, self.try_stack = self.try_stack, []
        fr = Frame(name, None, None, None)
        fr.base = len(self.trail)
        fr.depth0 = self.branch_depth
        self.frames.append(fr)
        try:
            self.exec_block(t.body)
        finally:
            self.frames.pop()
            self.pc = saved_pc
            self.try_stack = saved_try
        self.modules[name] = "done"
        if "." in name:
            par, ch = name.rsplit(".", 1)
            if self.get(("g", par, ch)) is UNDEF:
                self.set(("g", par, ch), ModuleV(name))
        return ModuleV(name)

    # ---------------------------------------------------------------- names
    def lookup(self, name, frame=None):
        f = frame or self.frames[-1]
        g = f
        first = True
        while g is not None:
            if g.cls_attrs is not None:
                if first and name in g.cls_attrs:
                    return g.cls_attrs[name]
            elif g.locs is not None and name in g.locs:
                v = self.store.get(("v", g.id, name), UNDEF)
                if v is not UNDEF:
                    return v
                if first:
                    return self.raise_("UnboundLocalError", name)
                return Top(f"unbound {name}")
            first = False
            g = g.parent
        v = self.store.get(("g", f.module, name), UNDEF)
        if v is not UNDEF:
            return v
        if name in self.models.BUILTINS:
            return self.models.BUILTINS[name]
        if self.modules.get(f.module) == "loading":
            return Top(f"undefined {name}")
        return self.raise_("NameError", name)

    def bind(self, name, val):
        f = self.frames[-1]
        if f.cls_attrs is not None:
            f.cls_attrs[name] = val
            return
        if f.locs is None or name in f.globals_:
            self.set(("g", f.module, name), val)
            return
        if name in f.nonlocals or name not in f.locs:
            g = f.parent
            while g is not None:
                if g.locs is not None and name in g.locs:
                    self.set(("v", g.id, name), val)
                    return
                g = g.parent
        self.set(("v", f.id, name), val)

    # ---------------------------------------------------------------- exceptions
    def raise_(self, exc, msg="", node=None, val=None):
        """exc: exception class name or ClassV."""
        self.record_raise(exc, val)
        raise Dead()

    def record_raise(self, exc, val=None, may=False):
        self.event("raise", exc=exc, val=val, may=may)
        if self.try_stack:
            tr = self.try_stack[-1]
            tr["raised"].append((exc, val, b_and(*self.pc[tr["npc"]:]) if not may else ("opaque", f"may{len(tr['raised'])}"),
                                 self.diff(tr["base"]), may))
        else:
            self.uncaught.append((exc, self.loc(), tuple(self.pc), may))

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        self.curnode = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("stmt " + type(s).__name__)
            raise Budget()
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_TypeAlias(self, s):
        self.bind(s.name.id, Top("type alias"))

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            if self.is_internal(a.name):
                self.load(a.name)
                top = a.name.split(".")[0]
                self.bind(a.asname or top, ModuleV(a.name if a.asname else top))
            else:
                if a.asname:
                    self.bind(a.asname, Ext(a.name))
                else:
                    self.bind(a.name.split(".")[0], Ext(a.name.split(".")[0]))

    def x_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.frames[-1].module.split(".")
            if not self.mod_path(self.frames[-1].module).endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        internal = self.is_internal(mod)
        if internal:
            self.load(mod)
        for a in s.names:
            if internal:
                if a.name == "*":
                    for k, v in list(self.store.items()):
                        if k[0] == "g" and k[1] == mod and not k[2].startswith("_"):
                            self.bind(k[2], v)
                    continue
                v = self.get(("g", mod, a.name))
                if v is UNDEF and self.is_internal(mod + "." + a.name):
                    v = self.load(mod + "." + a.name)
                if v is UNDEF:
                    v = self.models.lazy_global(self, mod, a.name)
                self.bind(a.asname or a.name, v)
            else:
                self.bind(a.asname or a.name, self.ext(mod + "." + a.name))

    def ext(self, path):
        v = self.models.EXT_VALUES.get(path, UNDEF)
        if v is not UNDEF:
            return v
        return Ext(path)

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.bind(s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, v):
        name = ast.unparse(d)
        last = name.split("(")[0].split(".")[-1]
        if last == "property":
            return PropV(v)
        if last in ("abstractmethod",):
            if isinstance(v, FuncV):
                v.abstract = True
            elif isinstance(v, PropV) and isinstance(v.fget, FuncV):
                v.fget.abstract = True
            return v
        if last == "abstractproperty":
            v.abstract = True
            return PropV(v)
        if last == "staticmethod":
            return StaticV(v, "static")
        if last == "classmethod":
            return StaticV(v, "class")
        if last in ("wraps", "overload", "final", "override", "no_type_check"):
            return v
        if last in ("cached_property",):
            return PropV(v)
        if last in ("lru_cache", "cache"):
            if isinstance(v, FuncV):
                v.decos = v.decos + (last,)
                self.event("memo_decorator", func=v)
            return v
        if last in ("setter", "getter", "deleter"):
            return v
        try:
            dv = self.ev(d)
        except Dead:
            return Top("decorator")
        if isinstance(dv, (FuncV, BoundV)):
            return self.call(dv, [v], {})
        self.note("decorator " + name)
        return Top("decorator " + name)

    def make_func(self, s):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [UNDEF if d is None else self.ev(d) for d in a.kw_defaults]
        name = getattr(s, "name", "<lambda>")
        parent = fr if fr.locs is not None or fr.cls_attrs is not None else None
        qual = name
        if fr.cls_attrs is not None:
            qual = fr.cls_attrs.get("__qual__", "") + "." + name
        elif fr.func is not None:
            qual = fr.func.qual + ".<locals>." + name
        f = FuncV(s, name, fr.module, parent, defaults, kwd, None, qual)
        f.is_gen = _assigned(s)[3]
        return f

    def x_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.ev(b)
            if isinstance(v, Ext):
                v = ExtClass(v.path)
            bases.append(v if isinstance(v, (ClassV, ExtClass)) else ExtClass("object"))
        fr = self.frames[-1]
        self.naddr += 1
        c = ClassV(s.name, fr.module, bases, s, self.naddr)
        outer = fr.cls_attrs.get("__qual__", "") + "." if fr.cls_attrs is not None else (
            fr.func.qual + ".<locals>." if fr.func else "")
        cf = Frame(fr.module, fr.func, fr if (fr.locs is not None or fr.cls_attrs is not None) else None, None,
                   cls_attrs={"__qual__": outer + s.name})
        cf.exits = fr.exits
        self.frames.append(cf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        c.attrs = cf.cls_attrs
        c.attrs.pop("__qual__", None)
        for v in c.attrs.values():
            w = v.fget if isinstance(v, PropV) else v.func if isinstance(v, StaticV) else v
            if isinstance(w, FuncV) and w.cls is None:
                w.cls = c
        v = c
        for d in reversed(s.decorator_list):
            self.note("class decorator")
        self.bind(s.name, v)

    def x_Return(self, s):
        v = None if s.value is None else self.ev(s.value)
        self.do_exit("return", v, s)

    def do_exit(self, kind, v, s):
        fr = self.frames[-1]
        if kind == "return":
            base, depth0, npc = fr.base, fr.depth0, fr.npc
        else:
            lp = fr.loops[-1]
            if kind == "break":
                base, depth0, npc = lp["base"], lp["depth0"], lp["npc"]
            else:
                base, depth0, npc = lp["ibase"], lp["depth0"], lp["inpc"]
        inline = self.branch_depth == depth0
        fr.exits.append(Exit(kind, v, b_and(*self.pc[npc:]), None if inline else self.diff(base), s, inline, self.loc()))
        raise Dead()

    def x_Break(self, s):
        self.do_exit("break", None, s)

    def x_Continue(self, s):
        self.do_exit("continue", None, s)

    def x_Raise(self, s):
        v = None
        if s.exc is not None:
            v = self.ev(s.exc)
        exc = v
        if isinstance(v, Ref) and v.cls is not None:
            exc = v.cls
        elif isinstance(v, ObjT):
            exc = v.type
        elif isinstance(v, ExtClass):
            exc = v.name
        elif isinstance(v, Builtin):
            exc = v.name
        self.record_raise(exc if exc is not None else "reraise", v)
        raise Dead()

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        d = self.decide(c)
        self.event("assert", node=s, term=c, decided=d)
        if d is False:
            self.raise_("AssertionError")
        if d is None:
            self.assume(c)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.frames[-1]
                if f.locs is not None:
                    self.set(("v", f.id, t.id), UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_slice(t.slice)
                self.models.delitem(self, o, k)

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            put = lambda v: self.bind(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value)
            k = self.ev_slice(t.slice)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        rhs = self.ev(s.value)
        put(self.inplace(s.op, cur, rhs))

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(op, ast.Add):
            self.list_extend(cur, rhs)
            return cur
        if isinstance(cur, Ref) and cur.kind == "inst":
            nm = "__i" + OPS[type(op)][2:]
            f, _ = cur.cls.lookup(nm)
            if f is not UNDEF:
                return self.call(BoundV(f, cur), [rhs], {})
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(op, ast.Mult):
            r = self.binop(op, cur, rhs)
            if isinstance(r, Ref) and r.kind == "list":
                self.set(("l", cur.addr), self.get(("l", r.addr)))
                return cur
        if isinstance(cur, Phi):
            return self.with_alts(cur, lambda c: self.inplace(op, c, rhs))
        if isinstance(cur, Ref) and cur.kind in ("dict", "set") and isinstance(op, ast.BitOr):
            self.models.dict_update(self, cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Phi):
                # element-wise join when all alternatives unpack
                seqs = [(g, self.try_exact(x)) for g, x in v.alts]
                if all(q is not None and len(q) == len(t.elts) for _, q in seqs) and not any(
                        isinstance(e, ast.Starred) for e in t.elts):
                    for i, e in enumerate(t.elts):
                        self.assign(e, self.join([(g, q[i]) for g, q in seqs]))
                    return
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"))
                return
            q = self.try_exact(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if q is None:
                segs = self.iter_segs(v)
                if segs and not st and len(segs) == 1 and isinstance(segs[0], Fam) and False:
                    pass
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"))
                return
            if st:
                i = st[0]
                n = len(q) - (len(t.elts) - 1)
                if n < 0:
                    self.raise_("ValueError")
                for e, x in zip(t.elts[:i], q[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new_list(q[i:i + n]))
                for e, x in zip(t.elts[i + 1:], q[i + n:]):
                    self.assign(e, x)
                return
            if len(q) != len(t.elts):
                self.event("unpack_mismatch", have=len(q), want=len(t.elts))
                self.raise_("ValueError")
            for e, x in zip(t.elts, q):
                self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        d = self.decide(c)
        self.event("if", node=s, term=c, decided=d)
        if d is True:
            self.exec_block(s.body)
        elif d is False:
            self.exec_block(s.orelse)
        else:
            self.branch([(c, lambda: self.exec_block(s.body)), (b_not(c), lambda: self.exec_block(s.orelse))])

    def x_With(self, s):
        objs = []
        for it in s.items:
            o = self.ev(it.context_expr)
            self.event("with_enter", obj=o)
            r = self.with_enter(o)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
            objs.append(o)
        try:
            self.exec_block(s.body)
        finally:
            for o in reversed(objs):
                self.event("with_exit", obj=o)
                if isinstance(o, ObjT) and o.type == "vfile":
                    self.vfs.call(o, "close", [], {})
                if isinstance(o, Ref) and o.kind == "inst":
                    f, _ = o.cls.lookup("__exit__")
                    if f is not UNDEF:
                        try:
                            self.call(BoundV(f, o), [None, None, None], {})
                        except Dead:
                            pass

    def with_enter(self, o):
        if isinstance(o, Ref) and o.kind == "inst":
            f, _ = o.cls.lookup("__enter__")
            if f is not UNDEF:
                return self.call(BoundV(f, o), [], {})
        return o

    def x_Try(self, s):
        base, npc = len(self.trail), len(self.pc)
        tr = {"base": base, "npc": npc, "raised": []}
        self.try_stack.append(tr)
        self.branch_depth += 1
        normal = None
        try:
            try:
                self.exec_block(s.body)
                ok = True
            except Dead:
                ok = False
        finally:
            self.branch_depth -= 1
            self.try_stack.pop()
        if ok:
            normal = (b_and(*self.pc[npc:]), self.diff(base))
        self.undo(base)
        del self.pc[npc:]
        arms = []
        if normal is not None:
            def run_normal():
                self.apply(normal[1])
                self.exec_block(s.orelse)
            arms.append((None, run_normal))
        for exc, val, guard, d, may in tr["raised"]:
            matched = False
            for h in s.handlers:
                mt = self.exc_match(exc, h)
                if mt is False:
                    continue

                def run_handler(h=h, d=d, exc=exc, val=val):
                    self.apply(d)
                    if h.name:
                        self.bind(h.name, val if val is not None else ObjT(("exc", str(exc)), "exception"))
                    self.exec_block(h.body)
                arms.append((None, run_handler))
                if mt is True:
                    matched = True
                    break
            if not matched:
                def rer(d=d, exc=exc, val=val, may=may):
                    self.apply(d)
                    if s.finalbody:
                        self.exec_block(s.finalbody)
                    self.record_raise(exc, val, may)
                    raise Dead()
                arms.append((None, rer))
        self.event("try", node=s, raised=[(r[0], r[4]) for r in tr["raised"]])
        n_exits = len(self.frames[-1].exits)
        if not arms:
            if s.finalbody:
                self.exec_block(s.finalbody)
            raise Dead()
        try:
            self.branch(arms)
        except Dead:
            if s.finalbody:
                try:
                    self.exec_block(s.finalbody)
                except Dead:
                    pass
            raise
        if s.finalbody:
            self.exec_block(s.finalbody)

    def exc_match(self, exc, h):
        if h.type is None:
            return True
        try:
            tv = self.ev(h.type)
        except Dead:
            return None
        ts = self.try_exact(tv) if isinstance(tv, (TupleV,)) else [tv]
        if ts is None:
            return None
        res = False
        for t in ts:
            tn = t.name if isinstance(t, (ClassV, ExtClass, Builtin)) else (t.path.split(".")[-1] if isinstance(t, Ext) else None)
            if tn is None:
                return None
            if tn in ("Exception", "BaseException"):
                return True
            if exc is None or isinstance(exc, (Top, Phi)):
                res = None
                continue
            if isinstance(exc, ClassV):
                if any(getattr(c, "name", None) == tn for c in exc.mro()):
                    return True
                continue
            en = exc if isinstance(exc, str) else getattr(exc, "name", None)
            if en is None:
                res = None
                continue
            if en == tn or tn in EXC_PARENTS.get(en, ()):
                return True
            if en == "?":
                res = None
        return res

    # ---------------------------------------------------------------- loops
    def x_While(self, s):
        fr = self.frames[-1]
        n = 0
        lp = self.loop_begin()
        try:
            while True:
                c = self.truth(self.ev(s.test))
                d = self.decide(c)
                if d is False:
                    break
                if d is True and n < MAX_UNROLL:
                    n += 1
                    if not self.iteration(s.body, lp):
                        raise _LoopDead()
                    continue
                # unknown trip count: summarise
                self.summarise([("for?", "while")], lambda: self.exec_block(s.body), lp, pre=lambda: self._assume_t(self.truth(self.ev(s.test))))
                try:
                    self._assume_t(b_not(self.truth(self.ev(s.test))))
                except Dead:
                    pass
                break
            if s.orelse:
                self.exec_block(s.orelse)
            alive = True
        except (_LoopDead,):
            alive = False
        except Dead:
            alive = False
        self.loop_end(lp, alive)

    def _assume_t(self, t):
        d = self.decide(t)
        if d is False:
            raise Dead()
        self.assume(t)

    def loop_begin(self):
        fr = self.frames[-1]
        lp = {"base": len(self.trail), "npc": len(self.pc), "depth0": self.branch_depth,
              "ibase": len(self.trail), "inpc": len(self.pc), "nexit": len(fr.exits), "breaks": []}
        fr.loops.append(lp)
        return lp

    def loop_end(self, lp, alive):
        fr = self.frames[-1]
        fr.loops.pop()
        if not lp["breaks"]:
            if not alive:
                raise Dead()
            return
        base = lp["base"]
        arms = []
        for e in lp["breaks"]:
            if e.inline and e.diff is None:
                e.diff = self.diff(base)
        cur = self.diff(base) if alive else None
        self.undo(base)
        del self.pc[lp["npc"]:]
        if cur is not None:
            arms.append((None, lambda: self.apply(cur)))
        for e in lp["breaks"]:
            arms.append((e.guard if isinstance(e.guard, tuple) else None, lambda e=e: self.apply(e.diff)))
        self.branch(arms)

    def iteration(self, body_stmts, lp, body=None):
        """One concrete iteration; returns False if everything after is dead."""
        fr = self.frames[-1]
        n0 = len(fr.exits)
        lp["ibase"], lp["inpc"] = len(self.trail), len(self.pc)
        try:
            if body is not None:
                body()
            else:
                self.exec_block(body_stmts)
            alive = True
        except Dead:
            alive = False
        new = fr.exits[n0:]
        conts = [e for e in new if e.kind == "continue"]
        brks = [e for e in new if e.kind == "break"]
        fr.exits[n0:] = [e for e in new if e.kind not in ("continue", "break")]
        if brks:
            for e in brks:
                if e.inline:
                    e.diff = self.diff(lp["base"])
                    e.inline = False
            lp["breaks"].extend(brks)
        if not conts:
            if not alive:
                del self.pc[lp["inpc"]:]
            return alive
        for e in conts:
            if e.inline:
                e.diff = self.diff(lp["ibase"])
        if not alive and len(conts) == 1 and conts[0].inline:
            return True
        cur = self.diff(lp["ibase"]) if alive else None
        curg = b_and(*self.pc[lp["inpc"]:])
        self.undo(lp["ibase"])
        del self.pc[lp["inpc"]:]
        arms = []
        if cur is not None:
            arms.append((curg if isinstance(curg, tuple) else None, lambda: self.apply(cur)))
        for e in conts:
            arms.append((e.guard if isinstance(e.guard, tuple) else None, lambda e=e: self.apply(e.diff)))
        self.branch(arms)
        return True

    def x_For(self, s):
        it = self.ev(s.iter)
        lp = self.loop_begin()
        alive = True
        try:
            def each(v):
                self.assign(s.target, v)
                self.exec_block(s.body)
            self.with_alts(it, lambda q: self.for_segs(self.iter_segs(q, need=True), each, lp))
            if s.orelse:
                self.exec_block(s.orelse)
        except Dead:
            alive = False
        self.curnode = s
        self.loop_end(lp, alive)

    def for_segs(self, segs, each, lp):
        for g in segs:
            if isinstance(g, Fam):
                g = self.fresh_if_active(g)
                self.summarise(list(g.ctx), lambda: self._fam_inner(g, each, lp), lp)
            else:
                if not self.iteration(None, lp, lambda: each(g)):
                    raise Dead()

    def _fam_inner(self, g, each, lp):
        # several segments inside a family: iterate them in turn
        self.for_segs(g.segs, each, lp)

    def fresh_if_active(self, fam):
        active = getattr(self, "active_idx", [])
        mine = [c[1] for c in fam.ctx if c[0] == "for"]
        if any(a in active for a in mine):
            mp = {}
            for a in mine:
                mp[a] = Rat(Poly.of_atom(self.new_idx()))
            return self.models.rename_fam(self, fam, mp)
        return fam

    _idx = 0

    def new_idx(self, name="i"):
        Interp._idx += 1
        return atom("idx", f"{name}{Interp._idx}")

    def push_ctx(self, ctx):
        act = getattr(self, "active_idx", [])
        self.active_idx = act + [c[1] for c in ctx if c[0] == "for"]
        for c in ctx:
            if c[0] == "for":
                self.bounds[c[1]] = (c[2], c[3] - R1)
                # non-emptiness is a fact inside the body
                self.assume(b_cmp("<", c[2], c[3]))
            elif c[0] == "if":
                self.assume(c[1])
        return act

    def summarise(self, ctx, body, lp, pre=None):
        """Execute a loop body once for an indexed family of iterations."""
        fr = self.frames[-1]
        for c in ctx:
            if c[0] == "for" and self.decide(b_cmp("<", c[2], c[3])) is False:
                return
            if c[0] == "if" and self.decide(c[1]) is False:
                return
        base = len(self.trail)
        npc = len(self.pc)
        havoc = {}
        result = None
        for round_ in range(3):
            self.branch_depth += 1
            act = self.push_ctx(ctx)
            n0 = len(fr.exits)
            nb = len(lp["breaks"])
            sv = (lp["ibase"], lp["inpc"], lp["depth0"])
            lp["ibase"], lp["inpc"], lp["depth0"] = len(self.trail), len(self.pc), self.branch_depth
            alive = True
            if havoc:
                self.apply(havoc)
            try:
                if pre:
                    pre()
                alive = self.iteration(None, lp, body)
            except Dead:
                alive = False
            lp["ibase"], lp["inpc"], lp["depth0"] = sv
            self.active_idx = act
            self.branch_depth -= 1
            d = self.diff(base)
            self.undo(base)
            del self.pc[npc:]
            last = round_ == 2
            carried = {}
            for k, v in d.items():
                old = self.store.get(k, UNDEF)
                if old is UNDEF or k[0] == "inst":
                    continue
                start = havoc.get(k, old)
                if v is start or self.same(v, start):
                    continue
                if k[0] == "l" and isinstance(v, tuple) and isinstance(start, tuple) and v[:len(start)] == start:
                    continue
                if k in havoc:
                    continue
                carried[k] = (old, v)
            if not carried or last:
                result = (d, alive)
                break
            # loop-carried: restart with unknown values
            if not last:
                fr.exits[n0:] = []
                lp["breaks"][nb:] = []
                for k, (old, v) in carried.items():
                    havoc[k] = self.havoc(k, old, v)
        d, alive = result
        brk = len(lp["breaks"]) > nb
        if brk:
            ctx = list(ctx) + [("for?", "break")]
        w = self.watch
        self.watch = None
        for k, v in d.items():
            old = self.store.get(k, UNDEF)
            if old is UNDEF or k[0] == "inst":
                self.set(k, v)
                continue
            start = havoc.get(k, old)
            if v is start or self.same(v, start):
                if k in havoc:
                    self.set(k, havoc[k])
                continue
            if k[0] == "l":
                if isinstance(v, tuple) and isinstance(start, tuple) and v[:len(start)] == start:
                    suf = v[len(start):]
                    if suf:
                        self.set(k, tuple(start) + (Fam(ctx, suf),))
                    continue
                self.set(k, (Fam((("for?", "loop"),), (Top("loop"),)),))
                continue
            if k[0] in ("d", "s"):
                o = v if isinstance(v, tuple) else (False, {})
                merged = dict(old[1]) if isinstance(old, tuple) else {}
                for kk, vv in o[1].items():
                    merged[kk] = vv if kk not in merged else self.join([(None, merged[kk]), (None, vv)])
                extra = o[2] if len(o) > 2 else ()
                self.set(k, (False, merged))
                continue
            if k[0] == "m":
                self.set(k, ("top",) if len(v) < 3 else ("top", v[1], v[2]))
                continue
            if k in havoc and is_num(v) and is_num(start) and not isinstance(v, bool):
                delta = rat_of(v) - rat_of(start)
                if not (rat_of(start).atoms() & delta.deep_atoms()):
                    cc = tuple((c[0], c[1]) + tuple(c[2:]) for c in ctx)
                    if delta.is_const() and delta.const_value() == 1:
                        tot = Rat.atom("card", SegsKey((Fam(ctx, (1,)),)))
                    else:
                        tot = Rat.atom("sum", SegsKey((Fam(ctx, (mk(delta, kind_of(v)),)),)))
                    self.set(k, mk(rat_of(old) + tot, kind_of(v) if kind_of(v) == kind_of(old) or kind_of(old) == "int" else "num"))
                    continue
            self.set(k, self.join([(None, old), (None, self.havoc(k, old, v))]) if not is_num(v) or not is_num(old)
                     else fresh_num(kind_of(v) if kind_of(v) == kind_of(old) else "num", "loop"))
        self.watch = w

    def havoc(self, key, old, new, depth=0):
        """An unknown value of the same shape as both."""
        if is_num(old) and is_num(new):
            k1, k2 = kind_of(old), kind_of(new)
            return fresh_num(k1 if k1 == k2 else (k2 if k1 == "int" else "num"), "havoc")
        if isinstance(new, Ref) and new.kind == "inst" and depth < 4:
            o = self.new_inst(new.cls)
            for k, v in list(self.store.items()):
                if k[0] == "a" and k[1] == new.addr:
                    self.set(("a", o.addr, k[2]), self.havoc(k, v, v, depth + 1))
            return o
        if isinstance(new, TupleV):
            return TupleV([s if isinstance(s, Fam) else self.havoc(key, s, s, depth + 1) for s in new.segs])
        if isinstance(new, (bool, BoolT)):
            return BoolT(("opaque", f"havoc{V._topn[0]}"))
        if isinstance(new, Ref) and new.kind == "mat":
            return new
        if isinstance(new, (FuncV, BoundV, ClassV, ModuleV, Builtin)) or new is None:
            return new
        if key[0] == "l":
            return (Fam((("for?", "havoc"),), (Top("havoc"),)),)
        if key[0] in ("d", "s"):
            return (False, new[1] if isinstance(new, tuple) else {})
        if key[0] == "m":
            return ("top",) + tuple(new[1:3])
        return Top("havoc")

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("expr " + type(e).__name__)
            return Top(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.curnode = e
        return self.getattr(o, e.attr)

    def e_Tuple(self, e):
        return TupleV(self._elts(e.elts))

    def e_List(self, e):
        return self.new_list(self._elts(e.elts))

    def e_Set(self, e):
        return self.models.new_set(self, self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_segs(self.ev(x.value), need=True))
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, d, self.ev(v))
            else:
                self.setitem(d, self.ev(k), self.ev(v))
        return d

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        d = self.decide(c)
        if d is True:
            return self.ev(e.body)
        if d is False:
            return self.ev(e.orelse)
        return self.branch([(c, lambda: self.ev(e.body)), (b_not(c), lambda: self.ev(e.orelse))])

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        return self._boolop(e.values, is_and)

    def _boolop(self, vals, is_and):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        t = self.truth(v)
        d = self.decide(t)
        if d is not None:
            if d is is_and:
                return self._boolop(vals[1:], is_and)
            return v if not isinstance(v, BoolT) else d
        if isinstance(v, (bool, BoolT)):
            short = False if is_and else True
            return self.branch([(t if is_and else b_not(t), lambda: self._boolop(vals[1:], is_and)),
                                (b_not(t) if is_and else t, lambda: short)])
        return self.branch([(t if is_and else b_not(t), lambda: self._boolop(vals[1:], is_and)),
                            (b_not(t) if is_and else t, lambda: v)])

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            t = b_not(self.truth(v))
            return t if isinstance(t, bool) else BoolT(t)
        if isinstance(v, Phi):
            return self.with_alts(v, lambda x: self.unop(op, x))
        if is_num(v):
            if isinstance(op, ast.USub):
                if isinstance(v, float):
                    return -v
                return mk(-rat_of(v), kind_of(v))
            if isinstance(op, ast.UAdd):
                return v
        if isinstance(v, Ref) and v.kind == "inst":
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(op).__name__]
            f, _ = v.cls.lookup(nm)
            if f is not UNDEF:
                return self.call(BoundV(f, v), [], {})
        if isinstance(v, Ref) and v.kind == "mat":
            return self.models.mat_map(self, v, lambda z: self.unop(op, z))
        return Top("unop")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.curnode = e
        return self.binop(e.op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = True
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            self.curnode = e
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            d = self.decide(t)
            if d is False:
                return False
            if d is None:
                out = b_and(out, t)
                if out is False:
                    return False
            left = right
        return out if isinstance(out, bool) else BoolT(out)

    def compare(self, op, a, b):
        if isinstance(a, Phi):
            return self.with_alts(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Phi):
            return self.with_alts(b, lambda x: self.compare(op, a, x))
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            r = self.models.is_same(self, a, b)
            if r is None:
                return BoolT(("opaque", f"is({a!r},{b!r})" if n == "Is" else f"isnot({a!r},{b!r})"))
            return r if n == "Is" else not r
        if n in ("In", "NotIn"):
            r = self.models.contains(self, b, a)
            t = self.truth(r)
            if n == "NotIn":
                t = b_not(t)
            return t if isinstance(t, bool) else BoolT(t)
        if n in ("Eq", "NotEq"):
            r = self.equal(a, b)
            t = self.truth(r)
            if n == "NotEq":
                if isinstance(a, Ref) and a.kind == "inst":
                    f, c = a.cls.lookup("__ne__")
                    if isinstance(f, FuncV):
                        return self.call(BoundV(f, a), [b], {})
                t = b_not(t)
            return t if isinstance(t, bool) else BoolT(t)
        sop = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[n]
        if is_num(a) and is_num(b):
            t = b_cmp(sop, rat_of(a), rat_of(b))
            return t if isinstance(t, bool) else BoolT(t)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sop]
        if isinstance(a, TupleV) and isinstance(b, TupleV) and a.exact() and b.exact():
            try:
                xa = tuple(self.models.pyconst(x) for x in a.segs)
                xb = tuple(self.models.pyconst(x) for x in b.segs)
                return {"<": xa < xb, "<=": xa <= xb, ">": xa > xb, ">=": xa >= xb}[sop]
            except Exception:
                pass
        for x, y, nm in ((a, b, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[sop]),
                         (b, a, {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[sop])):
            if isinstance(x, Ref) and x.kind == "inst":
                f, _ = x.cls.lookup(nm)
                if f is not UNDEF:
                    return self.call(BoundV(f, x), [y], {})
        return BoolT(("opaque", f"{a!r}{sop}{b!r}"))

    def equal(self, a, b):
        """a == b as a value (bool/BoolT/other)."""
        if isinstance(a, Phi):
            return self.with_alts(a, lambda x: self.equal(x, b))
        if isinstance(b, Phi):
            return self.with_alts(b, lambda x: self.equal(a, x))
        if a is b and not isinstance(a, (Top,)) and not (isinstance(a, Ref) and a.kind == "inst"):
            return True
        if is_num(a) and is_num(b):
            t = b_cmp("==", rat_of(a), rat_of(b))
            return t if isinstance(t, bool) else BoolT(t)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and x.kind == "inst":
                f, c = x.cls.lookup("__eq__")
                if isinstance(f, FuncV):
                    r = self.call(BoundV(f, x), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "inst":
            return a.addr == b.addr
        if isinstance(a, (str, bytes, type(None))) and isinstance(b, (str, bytes, type(None), int, float, Num, TupleV)):
            return a == b if type(a) is type(b) else False
        if isinstance(b, (str, type(None))) and isinstance(a, (int, float, Num, TupleV, Ref, ClassV, FuncV, ModuleV)):
            return False
        if isinstance(a, (str, type(None))) and isinstance(b, (Ref, ClassV, FuncV, ModuleV)):
            return False
        if isinstance(a, StrT) or isinstance(b, StrT):
            if isinstance(a, StrT) and isinstance(b, StrT) and a == b:
                return True
            if not isinstance(a, (StrT, str, Top)) or not isinstance(b, (StrT, str, Top)):
                return False
            return BoolT(("opaque", f"{a!r}=={b!r}"))
        sa, sb = self.seq_of(a), self.seq_of(b)
        if sa is not None and sb is not None:
            if sa[0] != sb[0]:
                return False
            x, y = sa[1], sb[1]
            if not any(isinstance(s, Fam) for s in x + y):
                if len(x) != len(y):
                    return False
                t = True
                for p, q in zip(x, y):
                    t = b_and(t, self.truth(self.equal(p, q)))
                    if t is False:
                        return False
                return t if isinstance(t, bool) else BoolT(t)
            if x == y:
                return True
            return BoolT(("opaque", f"{a!r}=={b!r}"))
        if (sa is None) != (sb is None) and (is_num(a) or is_num(b)):
            return False
        if isinstance(a, (ClassV, ExtClass, ModuleV, FuncV, Ext)) and isinstance(b, (ClassV, ExtClass, ModuleV, FuncV, Ext)):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a == b
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("dict", "mat", "set"):
            r = self.models.heap_equal(self, a, b)
            if r is not None:
                return r
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind != b.kind:
            return False
        if isinstance(a, BoolT) and isinstance(b, bool):
            return a if b else BoolT(b_not(a.t))
        if isinstance(b, BoolT) and isinstance(a, bool):
            return b if a else BoolT(b_not(b.t))
        if isinstance(a, TupleV) and isinstance(b, Ref) or isinstance(b, TupleV) and isinstance(a, Ref):
            return False
        return BoolT(("opaque", f"{a!r}=={b!r}"))

    def seq_of(self, v):
        if isinstance(v, TupleV):
            return ("tuple", v.segs)
        if isinstance(v, Ref) and v.kind == "list":
            return ("list", self.get(("l", v.addr)))
        return None

    def truth(self, v):
        """Boolean term of v (True/False/term)."""
        if isinstance(v, bool):
            return v
        if isinstance(v, BoolT):
            return v.t
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, (str, bytes)):
            return len(v) > 0
        if isinstance(v, Num):
            return b_cmp("!=", v.r, R0)
        if isinstance(v, TupleV):
            return self._nonempty(v.segs)
        if isinstance(v, Ref):
            if v.kind == "list":
                return self._nonempty(self.get(("l", v.addr)))
            if v.kind in ("dict", "set"):
                d = self.get(("d", v.addr))
                if d[0] is True:
                    return len(d[1]) > 0
                return ("opaque", f"nonempty{v.addr}")
            if v.kind == "inst":
                f, _ = v.cls.lookup("__bool__")
                if f is not UNDEF:
                    return self.truth(self.call(BoundV(f, v), [], {}))
                f, _ = v.cls.lookup("__len__")
                if f is not UNDEF:
                    return self.truth(self.call(BoundV(f, v), [], {}))
                return True
            return True
        if isinstance(v, (FuncV, ClassV, ModuleV, BoundV, Builtin)):
            return True
        if isinstance(v, Phi):
            terms = []
            for g, x in v.alts:
                t = self.truth(x)
                terms.append(b_and(g if g is not None else ("opaque", f"alt{id(v)}"), t))
            if all(self.truth(x) is True for _, x in v.alts):
                return True
            if all(self.truth(x) is False for _, x in v.alts):
                return False
            return b_or(*terms)
        return ("opaque", repr(v) if not isinstance(v, Top) else f"top{v.n}")

    def _nonempty(self, segs):
        if any(not isinstance(s, Fam) for s in segs):
            return True
        if not segs:
            return False
        return b_cmp("<", R0, Rat.atom("card", SegsKey(segs)))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_slice(e.slice)
        self.curnode = e
        return self.getitem(o, k)

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return ("slice", None if s.lower is None else self.ev(s.lower),
                    None if s.upper is None else self.ev(s.upper),
                    None if s.step is None else self.ev(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return TupleV([self.ev_slice(x) for x in s.elts])
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_slice(e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.models.format_value(self, self.ev(v.value), v.conversion,
                                                      v.format_spec))
        return self.models.mkstr(parts)

    def e_FormattedValue(self, e):
        return self.models.format_value(self, self.ev(e.value), e.conversion, e.format_spec)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target.id, v)
        return v

    def e_Yield(self, e):
        v = None if e.value is None else self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.list_append(fr.yields, v)
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.list_extend(fr.yields, v)
        return None

    def e_ListComp(self, e):
        return self.new_list(self._comp(e.generators, lambda: self.ev(e.elt)))

    def e_GeneratorExp(self, e):
        return self.new_list(self._comp(e.generators, lambda: self.ev(e.elt)), gen=True)

    def e_SetComp(self, e):
        return self.models.new_set(self, self._comp(e.generators, lambda: self.ev(e.elt)))

    def e_DictComp(self, e):
        segs = self._comp(e.generators, lambda: TupleV([self.ev(e.key), self.ev(e.value)]))
        d = self.new_dict()
        self.models.dict_from_pairs(self, d, segs)
        return d

    def _comp(self, gens, elt):
        """Evaluate a comprehension in its own scope; returns segs."""
        fr = self.frames[-1]
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        it0 = self.ev(gens[0].iter)
        cf = Frame(fr.module, fr.func, fr if (fr.locs is not None or fr.cls_attrs is not None) else None, names)
        cf.base, cf.depth0, cf.npc = len(self.trail), self.branch_depth, len(self.pc)
        acc = self.new_list(())
        self.frames.append(cf)
        try:
            def level(i, it):
                lp = self.loop_begin()
                alive = True

                def each(v):
                    g = gens[i]
                    self.assign(g.target, v)
                    for c in g.ifs:
                        t = self.truth(self.ev(c))
                        d = self.decide(t)
                        if d is True:
                            continue
                        if d is False:
                            self.do_exit("continue", None, c)
                        self.branch([(t, lambda: None), (b_not(t), lambda: self.do_exit("continue", None, c))])
                    if i + 1 < len(gens):
                        level(i + 1, self.ev(gens[i + 1].iter))
                    else:
                        self.list_append(acc, elt())
                try:
                    self.with_alts(it, lambda q: self.for_segs(self.iter_segs(q, need=True), each, lp))
                except Dead:
                    alive = False
                self.loop_end(lp, alive)
            level(0, it0)
        finally:
            self.frames.pop()
        return self.get(("l", acc.addr))

    # ---------------------------------------------------------------- heap objects
    def new_list(self, segs, gen=False):
        a = self.alloc()
        self.set(("l", a), tuple(segs))
        return Ref(a, "list")

    def new_dict(self):
        a = self.alloc()
        self.set(("d", a), (True, {}))
        return Ref(a, "dict")

    def new_inst(self, cls):
        a = self.alloc()
        r = Ref(a, "inst", cls)
        self.set(("inst", a), r)
        self.event("new", ref=r)
        return r

    def list_append(self, l, v):
        self.set(("l", l.addr), self.get(("l", l.addr)) + (v,))
        self.event("mutate", ref=l, how="append")

    def list_extend(self, l, it):
        if isinstance(it, Phi):
            self.with_alts(it, lambda x: self.list_extend(l, x))
            return
        self.set(("l", l.addr), self.get(("l", l.addr)) + tuple(self.iter_segs(it, need=True)))
        self.event("mutate", ref=l, how="extend")

    def try_exact(self, v):
        """Python list of element values if the iterable has exactly known elements, else None."""
        s = self.iter_segs(v)
        if s is None or any(isinstance(x, Fam) for x in s):
            return None
        return list(s)

    def iter_segs(self, v, need=False):
        """Segments of an iterable; None (or an unknown family when need) if not known."""
        if isinstance(v, TupleV):
            return v.segs
        if isinstance(v, Ref):
            if v.kind == "list":
                return self.get(("l", v.addr))
            if v.kind == "dict":
                d = self.get(("d", v.addr))
                if d[0] is True:
                    return tuple(self.models.unkey(k) for k in d[1])
                ks = tuple(self.models.unkey(k) for k in d[1])
                if d[0] == "maybe":
                    return tuple(Fam((("if", ("opaque", f"key{v.addr}.{i}")),), (k,)) for i, k in enumerate(ks))
                return (Fam((("for?", "dict"),), (Top("key"),)),)
            if v.kind == "set":
                d = self.get(("d", v.addr))
                if d[0] is True:
                    return tuple(self.models.unkey(k) for k in d[1])
                return (Fam((("for?", "set"),), (Top("elem"),)),)
            if v.kind == "inst":
                f, _ = v.cls.lookup("__iter__")
                if isinstance(f, FuncV):
                    r = self.call(BoundV(f, v), [], {})
                    if isinstance(r, Ref) and r.kind == "inst" and r.cls.lookup("__next__")[0] is not UNDEF:
                        return self.drain(r)
                    return self.iter_segs(r, need)
                g, _ = v.cls.lookup("__getitem__")
                n, _ = v.cls.lookup("__len__")
                if isinstance(g, FuncV) and isinstance(n, FuncV):
                    ln = self.call(BoundV(n, v), [], {})
                    if isinstance(ln, int):
                        return tuple(self.call(BoundV(g, v), [i], {}) for i in range(ln))
            if v.kind == "mat":
                m = self.get(("m", v.addr))
                if m[0] != "top":
                    return tuple(z for row in m[0] for z in row)
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Phi):
            segl = [(g, self.iter_segs(x, need)) for g, x in v.alts]
            if all(s is not None for _, s in segl):
                return self.join_segs(segl)
        if need:
            if is_num(v) or v is None:
                self.raise_("TypeError")
            return (Fam((("for?", f"iter {type(v).__name__}"),), (Top("elem"),)),)
        return None

    def drain(self, r):
        """Elements produced by an object implementing __next__ (bounded)."""
        f, _ = r.cls.lookup("__next__")
        out = []
        for _ in range(64):
            tr = {"base": len(self.trail), "npc": len(self.pc), "raised": []}
            self.try_stack.append(tr)
            try:
                v = self.call(BoundV(f, r), [], {})
                dead = False
            except Dead:
                dead = True
            finally:
                self.try_stack.pop()
            if dead:
                return tuple(out)
            if tr["raised"]:
                # may stop or continue: unknown length
                return (Fam((("for?", "iterator"),), (v,)),)
            out.append(v)
        return (Fam((("for?", "iterator"),), (Top("elem"),)),)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNDEF):
        if isinstance(o, Phi):
            alts = []
            for g, x in o.alts:
                try:
                    alts.append((g, x))
                except Dead:
                    pass
            return self.with_alts(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, Ref) and o.kind == "inst":
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = self.new_dict()
                for k, v in list(self.store.items()):
                    if k[0] == "a" and k[1] == o.addr:
                        self.setitem(d, k[2], v)
                return d
            v, c = o.cls.lookup(name)
            if isinstance(v, PropV):
                return self.call(BoundV(v.fget, o), [], {})
            iv = self.store.get(("a", o.addr, name), UNDEF)
            if iv is not UNDEF:
                return iv
            if v is not UNDEF:
                return self.bindm(v, o, o.cls)
            gv, _ = o.cls.lookup("__getattr__")
            if gv is not UNDEF:
                return self.call(BoundV(gv, o), [name], {})
            if any(isinstance(b, ExtClass) and b.name not in ("object", "abc.ABC") for b in o.cls.mro()):
                r = self.models.ext_inst_attr(self, o, name)
                if r is not UNDEF:
                    return r
            if default is not UNDEF:
                return default
            return self.raise_("AttributeError", name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.name
            if name == "__module__":
                return o.module
            if name == "__mro__":
                return TupleV(o.mro())
            if name == "__bases__":
                return TupleV(o.bases)
            if name == "__doc__":
                return StrT([Top("doc")])
            cv = self.store.get(("c", o.cid, name), UNDEF)
            if cv is not UNDEF:
                return cv
            v, c = o.lookup(name)
            if v is not UNDEF:
                if isinstance(v, StaticV):
                    return v.func if v.kind == "static" else BoundV(v.func, o)
                return v
            if default is not UNDEF:
                return default
            return self.raise_("AttributeError", name)
        if isinstance(o, ModuleV):
            v = self.get(("g", o.name, name))
            if v is not UNDEF:
                return v
            if self.is_internal(o.name + "." + name):
                return self.load(o.name + "." + name)
            if default is not UNDEF:
                return default
            if self.modules.get(o.name) == "loading":
                return self.models.lazy_global(self, o.name, name)
            return self.raise_("AttributeError", name)
        if isinstance(o, Ext):
            return self.ext(o.path + "." + name)
        if isinstance(o, FuncV):
            if name in ("__name__",):
                return o.name
            if name in ("__qualname__",):
                return o.qual
            if name == "__module__":
                return o.module
            return Top("func attr")
        if isinstance(o, SuperV):
            for c in o.after:
                if isinstance(c, ClassV) and name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, PropV):
                        return self.call(BoundV(v.fget, o.self_), [], {})
                    return self.bindm(v, o.self_, o.cls)
            return Builtin("object." + name, lambda it, a, k: None)
        if isinstance(o, BoundV):
            if name == "__name__":
                return o.func.name if isinstance(o.func, FuncV) else Top("name")
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
        return self.models.value_attr(self, o, name, default)

    def bindm(self, v, o, cls):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, StaticV):
            return v.func if v.kind == "static" else BoundV(v.func, cls)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Phi):
            self.with_alts(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref) and o.kind == "inst":
            self.event("setattr", ref=o, name=name, val=v)
            self.set(("a", o.addr, name), v)
            return
        if isinstance(o, ClassV):
            self.set(("c", o.cid, name), v)
            return
        if isinstance(o, ModuleV):
            self.set(("g", o.name, name), v)
            return
        self.event("setattr_other", obj=o, name=name, val=v)
        self.note(f"setattr on {type(o).__name__}")

    def getitem(self, o, k):
        if isinstance(o, Phi):
            return self.with_alts(o, lambda x: self.getitem(x, k))
        if isinstance(k, Phi):
            return self.with_alts(k, lambda x: self.getitem(o, x))
        if isinstance(o, Ref) and o.kind == "inst":
            f, _ = o.cls.lookup("__getitem__")
            if f is not UNDEF:
                return self.call(BoundV(f, o), [self.models.slice_value(self, k)], {})
            return self.raise_("TypeError")
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Phi):
            self.with_alts(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(o, Ref) and o.kind == "inst":
            f, _ = o.cls.lookup("__setitem__")
            if f is not UNDEF:
                self.call(BoundV(f, o), [k, v], {})
            return
        self.models.setitem(self, o, k, v)

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(a, Phi):
            return self.with_alts(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Phi):
            return self.with_alts(b, lambda x: self.binop(op, a, x))
        if is_num(a) and is_num(b):
            return self.models.num_binop(self, type(op).__name__, a, b)
        nm = OPS[type(op)]
        if isinstance(a, Ref) and a.kind == "inst":
            f, _ = a.cls.lookup(nm)
            if f is not UNDEF:
                # python: reflected method of a subclass first
                if isinstance(b, Ref) and b.kind == "inst" and b.cls is not a.cls and b.cls.is_subclass(a.cls):
                    g, _ = b.cls.lookup("__r" + nm[2:])
                    if g is not UNDEF and g is not a.cls.lookup("__r" + nm[2:])[0]:
                        r = self.call(BoundV(g, b), [a], {})
                        if r is not NotImplemented:
                            return r
                r = self.call(BoundV(f, a), [b], {})
                if isinstance(r, Phi) and any(x is NotImplemented for _, x in r.alts):
                    r2 = Phi([(g, x) for g, x in r.alts if x is not NotImplemented])
                    r = r2 if len(r2.alts) > 1 else r2.alts[0][1]
                if r is not NotImplemented:
                    return r
        if isinstance(b, Ref) and b.kind == "inst":
            if isinstance(a, Num) and a.k in ("sym", "symf", "num") and isinstance(a, Num):
                # sympy's arithmetic first converts the other operand
                f, _ = b.cls.lookup("_sympy_")
                if f is not UNDEF:
                    c = self.call(BoundV(f, b), [], {})
                    if isinstance(c, Phi):
                        return self.with_alts(c, lambda x: self.models.num_binop(self, type(op).__name__, a, x)
                                              if is_num(x) else self._rbinop(nm, a, b))
                    if is_num(c):
                        return self.models.num_binop(self, type(op).__name__, a, c)
            return self._rbinop(nm, a, b)
        if isinstance(a, Ref) and a.kind == "inst" and not isinstance(b, Top):
            self.event("no_operator", op=nm, a=a, b=b)
            return self.raise_("TypeError")
        return self.models.other_binop(self, type(op).__name__, a, b)

    def _rbinop(self, nm, a, b):
        f, _ = b.cls.lookup("__r" + nm[2:])
        if f is not UNDEF:
            r = self.call(BoundV(f, b), [a], {})
            if isinstance(r, Phi) and any(x is NotImplemented for _, x in r.alts):
                r2 = Phi([(g, x) for g, x in r.alts if x is not NotImplemented])
                r = r2 if len(r2.alts) > 1 else r2.alts[0][1]
            if r is not NotImplemented:
                return r
        if isinstance(a, Top):
            return Top("binop")
        self.event("no_operator", op=nm, a=a, b=b)
        return self.raise_("TypeError")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frames[-1]
            while fr is not None and (fr.func is None or fr.func.cls is None):
                fr = fr.parent
            if fr is None:
                return Top("super")
            if e.args:
                cls = self.ev(e.args[0])
                slf = self.ev(e.args[1]) if len(e.args) > 1 else fr.self_
            else:
                cls, slf = fr.func.cls, fr.self_
            c = slf.cls if isinstance(slf, Ref) else slf
            if not isinstance(c, ClassV) or not isinstance(cls, ClassV):
                return Top("super")
            mro = c.mro()
            after = mro[mro.index(cls) + 1:] if cls in mro else []
            return SuperV(slf, c, after)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.ev(a.value), need=True)
                args.extend(segs)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                self._kw_update(kwargs, d)
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.curnode = e
        self.event("call", func=f, args=args, kwargs=kwargs, node=e)
        r = self.call(f, args, kwargs, e)
        self.curnode = e
        return r

    def _kw_update(self, kwargs, d):
        if isinstance(d, Phi):
            # join of dicts: keep keys common; approximate
            for g, x in d.alts:
                self._kw_update(kwargs, x)
            return
        if isinstance(d, Ref) and d.kind == "dict":
            c = self.get(("d", d.addr))
            for k, v in c[1].items():
                kk = self.models.unkey(k)
                if isinstance(kk, str):
                    kwargs[kk] = v
            if c[0] is not True:
                kwargs.setdefault("**", Top("kwargs"))
        else:
            kwargs["**"] = Top("kwargs")

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Phi):
            return self.with_alts(f, lambda x: self.call(x, args, kwargs, node))
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self_] + list(args), kwargs, node)
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.path, args, kwargs)
        if isinstance(f, ExtClass):
            return self.models.call_ext(self, f.name, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.func, args, kwargs, node)
        if isinstance(f, Ref) and f.kind == "inst":
            m, _ = f.cls.lookup("__call__")
            if m is not UNDEF:
                return self.call(BoundV(m, f), args, kwargs, node)
        if f is None or is_num(f) or isinstance(f, (str, TupleV)):
            return self.raise_("TypeError")
        if isinstance(f, Top):
            self.event("unknown_call", func=f)
            if self.try_stack:
                self.record_raise(None, None, may=True)
            return Top(f"call {f.why}")
        self.note(f"call of {f!r}"[:80])
        return Top("call")

    def instantiate(self, c, args, kwargs, node=None):
        if any(isinstance(b, ExtClass) and b.name in EXC_NAMES for b in c.mro()):
            r = self.new_inst(c)
            init, _ = c.lookup("__init__")
            if isinstance(init, FuncV):
                self.call_func(init, [r] + list(args), kwargs, node)
            return r
        if any(isinstance(b, ExtClass) and b.name.split(".")[-1] not in PLAIN_BASES for b in c.mro()):
            self.note(f"instance of {c.name}, whose base class is outside the package")
            return Top(f"instance of {c.name}")
        self.event("instantiate", cls=c, args=args, kwargs=kwargs)
        if self.hooks.get("instantiate_override"):
            v = self.hooks["instantiate_override"](self, c, args, kwargs)
            if v is not None:
                return v
        new, nc = c.lookup("__new__")
        r = self.new_inst(c)
        init, _ = c.lookup("__init__")
        if isinstance(init, FuncV):
            self.call_func(init, [r] + list(args), kwargs, node)
        self.event("constructed", ref=r, cls=c, args=args, kwargs=kwargs)
        return r

    def bind_args(self, f, args, kwargs):
        """-> dict name -> value, or None on a definite arity error."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if any(isinstance(x, Fam) for x in args):
            # unknown number of positional arguments
            i = 0
            for x in args:
                if isinstance(x, Fam):
                    break
                if i < len(pos):
                    out[pos[i]] = x
                i += 1
            for p in pos[i:]:
                if p not in kwargs:
                    out[p] = Top("star-arg")
            if a.vararg:
                out[a.vararg.arg] = TupleV(args[len(pos):]) if len(args) > len(pos) else TupleV(tuple(args[i:]))
        else:
            n = len(pos)
            if len(args) > n and not a.vararg:
                return None
            for p, v in zip(pos, args):
                out[p] = v
            if a.vararg:
                out[a.vararg.arg] = TupleV(args[n:])
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        star = kwargs.get("**")
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names:
                if k in out and not any(isinstance(x, Fam) for x in args):
                    return None
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = f.defaults[j] if star is None else Top("kwargs")
                elif star is not None:
                    out[p] = Top("kwargs")
                else:
                    return None
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in out:
                if d is UNDEF:
                    if star is None:
                        return None
                    out[x.arg] = Top("kwargs")
                else:
                    out[x.arg] = d
        if a.kwarg:
            d = self.new_dict()
            for k, v in extra.items():
                self.setitem(d, k, v)
            out[a.kwarg.arg] = d
        return out

    def call_func(self, f, args, kwargs, node=None):
        ov = self.overrides.get(f"{f.module}.{f.qual}")
        if ov is not None:
            r = ov(self, args, kwargs)
            if r is not BOTTOM:
                return r
        if len(self.frames) > self.max_depth:
            self.note(f"depth {f.module}.{f.qual}")
            return Top("depth")
        rec = sum(1 for fr in self.frames if fr.func is f and fr.node is f.node)
        if rec > 24:
            self.note(f"recursion {f.module}.{f.qual}")
            return Top("recursion")
        self.funcs_seen.add((f.module, f.qual))
        binding = self.bind_args(f, args, kwargs)
        if binding is None:
            self.event("bad_call", func=f, args=args, kwargs=kwargs)
            return self.raise_("TypeError", f.qual)
        locs, globs, nonl, gen = _assigned(f.node)
        fr = Frame(f.module, f, f.frame, locs)
        fr.globals_, fr.nonlocals = globs, nonl
        fr.base, fr.depth0, fr.npc = len(self.trail), self.branch_depth, len(self.pc)
        fr.node = f.node
        if f.cls is not None and f.node.args.args:
            fr.self_ = binding.get(f.node.args.args[0].arg)
        self.frames.append(fr)
        saved = self.curnode
        for k, v in binding.items():
            self.set(("v", fr.id, k), v)
        if gen:
            fr.yields = self.new_list(())
        self.event("enter", func=f, binding=binding)
        normal = None
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                fr.exits.append(Exit("return", v, b_and(*self.pc[fr.npc:]), None, f.node, True, self.loc()))
            else:
                self.exec_block(f.node.body)
                fr.exits.append(Exit("return", None, b_and(*self.pc[fr.npc:]), None, f.node, True, self.loc()))
        except Dead:
            pass
        finally:
            self.frames.pop()
            self.curnode = saved
        rets = [e for e in fr.exits if e.kind == "return"]
        if not rets:
            del self.pc[fr.npc:]
            raise Dead()
        if len(rets) == 1 and rets[0].inline:
            val = rets[0].val
            # facts learned stay valid on this path
        else:
            for e in rets:
                if e.inline and e.diff is None:
                    e.diff = self.diff(fr.base)
            self.undo(fr.base)
            del self.pc[fr.npc:]

            def arm(e):
                def run():
                    self.apply(e.diff)
                    return e.val
                return run
            arms = [(e.guard if e.guard is not True else None, arm(e)) for e in rets]
            val = self.branch(arms)
        if gen:
            val = fr.yields
        self.event("leave", func=f, val=val, binding=binding)
        # drop the frame's variables is unnecessary (ids are unique)
        return val


class _LoopDead(Exception):
    pass


class SuperV:
    def __init__(self, self_, cls, after):
        self.self_, self.cls, self.after = self_, cls, after


class SegsKey:
    """Hashable wrapper: contents of a list, for cardinality/sum atoms."""
    __slots__ = ("segs", "_h")

    def __init__(self, segs):
        self.segs = tuple(segs)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, SegsKey) and self.segs == o.segs

    def __hash__(self):
        if self._h is None:
            self._h = hash(tuple(len(s.ctx) if isinstance(s, Fam) else 0 for s in self.segs))
        return self._h

    def __repr__(self):
        return f"#{list(self.segs)!r}"[:200]

    def deep_atoms(self):
        out = set()

        def walk(segs):
            for s in segs:
                if isinstance(s, Fam):
                    for c in s.ctx:
                        if c[0] == "for":
                            out.update(c[2].deep_atoms())
                            out.update(c[3].deep_atoms())
                        elif c[0] == "if":
                            out.update(term_atoms(c[1]))
                    walk(s.segs)
                elif isinstance(s, Num):
                    out.update(s.r.deep_atoms())
        walk(self.segs)
        return out

    def rsubs(self, mp):
        def walk(segs):
            o = []
            for s in segs:
                if isinstance(s, Fam):
                    ctx = []
                    for c in s.ctx:
                        if c[0] == "for":
                            ctx.append(("for", c[1], rsubs(c[2], mp), rsubs(c[3], mp)))
                        elif c[0] == "if":
                            t = term_subs(c[1], mp)
                            if t is True:
                                continue
                            ctx.append(("if", t if t is not False else ("cmp", "<", R1)))
                        else:
                            ctx.append(c)
                    o.append(Fam(ctx, walk(s.segs)))
                elif isinstance(s, Num):
                    o.append(mk(rsubs(s.r, mp), s.k))
                else:
                    o.append(s)
            return tuple(o)
        return SegsKey(walk(self.segs))


def term_atoms(t):
    if isinstance(t, bool):
        return set()
    if t[0] == "cmp":
        return t[2].deep_atoms()
    if t[0] == "and":
        out = set()
        for x in t[1]:
            out |= term_atoms(x)
        return out
    if t[0] == "not":
        return term_atoms(t[1])
    return set()


def term_subs(t, mp):
    if isinstance(t, bool):
        return t
    if t[0] == "cmp":
        return b_cmp(t[1], rsubs(t[2], mp), R0)
    if t[0] == "and":
        return b_and(*[term_subs(x, mp) for x in t[1]])
    if t[0] == "not":
        return b_not(term_subs(t[1], mp))
    return t


OPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__",
       ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__", ast.Pow: "__pow__", ast.MatMult: "__matmul__",
       ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.BitXor: "__xor__", ast.LShift: "__lshift__",
       ast.RShift: "__rshift__"}

EXC_PARENTS = {
    "KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
    "FileNotFoundError": ("OSError", "IOError", "EnvironmentError", "Exception"),
    "FileExistsError": ("OSError", "IOError", "Exception"),
    "PermissionError": ("OSError", "IOError", "Exception"),
    "IsADirectoryError": ("OSError", "IOError", "Exception"),
    "ZeroDivisionError": ("ArithmeticError", "Exception"), "NotImplementedError": ("RuntimeError", "Exception"),
    "SympifyError": ("ValueError", "Exception"),
    "ModuleNotFoundError": ("ImportError", "Exception"), "UnicodeDecodeError": ("ValueError", "Exception"),
    "UnboundLocalError": ("NameError", "Exception"), "RecursionError": ("RuntimeError", "Exception"),
}
EXC_NAMES = {"Exception", "BaseException", "ValueError", "TypeError", "RuntimeError", "NotImplementedError",
             "KeyError", "IndexError", "AttributeError", "AssertionError", "LookupError", "OSError",
             "FileNotFoundError", "StopIteration", "ZeroDivisionError", "ArithmeticError", "ImportError",
             "NameError", "IOError", "FileExistsError", "PermissionError", "Warning", "UserWarning",
             "DeprecationWarning", "RuntimeWarning", "KeyboardInterrupt", "GeneratorExit", "SystemExit",
             "RecursionError", "OverflowError", "EOFError", "UnicodeDecodeError", "ModuleNotFoundError", "IsADirectoryError",
             "SyntaxError", "MemoryError", "TimeoutError"}
