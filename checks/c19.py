"""The matrix cache: what is loaded is what was saved, under distinct keys, at every crash point and for concurrent users."""
from checks.sweep import *
from checks.common import eq
from checks.c16 import STUB
from sa import vfs as V
from sa.vfs import VFS
import itertools

CACHE = '''
from symfem.caching import load_cached_matrix, save_cached_matrix
import sympy
def matrix(rows): return sympy.Matrix(rows)
def save(t, i, m): save_cached_matrix(t, i, m)
def load(t, i, size): return load_cached_matrix(t, i, size)
'''
KEYS = STUB + '''
import sympy
class Other(Stub):
    names = ["stub of another class"]
class Newer(Stub):
    last_updated = "2099.1"
class Newest(Stub):
    last_updated = "2100.1"
class Keyed(Stub):
    names = ["stub with arguments"]
    def __init__(self, reference, order, fs, dofs, dd, rd, rs, variant="a", n=1):
        super().__init__(reference, order, fs, dofs, dd, rd, rs)
        self.variant = variant
        self.n = n
    def init_kwargs(self): return {"variant": self.variant, "n": self.n}
def other(ref, order, fs, dofs, dd, rd, rs): return Other(ref, order, fs, dofs, dd, rd, rs)
def newer(ref, order, fs, dofs, dd, rd, rs): return Newer(ref, order, fs, dofs, dd, rd, rs)
def newest(ref, order, fs, dofs, dd, rd, rs): return Newest(ref, order, fs, dofs, dd, rd, rs)
def keyed(ref, order, fs, dofs, dd, rd, rs, v, n): return Keyed(ref, order, fs, dofs, dd, rd, rs, v, n)
def inv(e): return e.get_dual_matrix(inverse=True)
def plainly(e): return e.get_dual_matrix(caching=False)
def inv_plainly(e): return e.get_dual_matrix(inverse=True, caching=False)
def dual_kw(e): return e.get_dual_matrix(inverse=False, caching=True)
'''


def cache_session(R, setup=None, load="symfem.caching", before=None):
    def start(it):
        fs = VFS(it)
        fs.before = before
        if setup:
            setup(fs)
    s = Session(R.root, load=load, before=start)
    s.fs = s.it.vfs
    return s


def known(s):
    if s.fs.unknown:
        raise Unknown(f"file system effect not modelled: {s.fs.unknown[0]}")


def program(R):
    s = cache_session(R)
    s.p = s.probe(CACHE, "cache_probe_")
    known(s)
    return s


def mat(s, rows):
    return s.call(s.attr(s.p, "matrix"), s.lst(*[list(r) for r in rows]))


def save(s, t, i, m):
    s.call(s.attr(s.p, "save"), t, i, m)


def load(s, t, i, size):
    return s.call(s.attr(s.p, "load"), t, i, s.tup(*size))


def ent(s, n, r, c):
    return [[Num(Rat.atom("app", f"{n}{i}{j}"), "sym") for j in range(c)] for i in range(r)]


def consts(rows):
    return [[Num(Rat.const(Fraction(x)), "sym") for x in r] for r in rows]


def rows_of(m):
    return [[rat_of(x) for x in r] for r in m]


def roundtrip(R):
    """load after save, for opaque entries and every shape; refusals of other sizes, names and types."""
    for r, c in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 3)):
        s = program(R)
        m = ent(s, "m", r, c)
        con = f"{r} x {c} matrix of opaque numbers"

        def go():
            save(s, "kind", "name", mat(s, m))
            v = load(s, "kind", "name", (r, c))
            known(s)
            return v
        eq(R, s, "saved then loaded", con, go, rows_of(m))
        for size in ((r + 1, c), (r, c + 1), (c, r), (c + 1, c + 1), (0, 0)):
            if size != (r, c):
                eq(R, s, "loaded at another size", f"{con} loaded as {size}", lambda: load(s, "kind", "name", size), None)
        for t, i in (("kind", "other"), ("other", "name"), ("name", "kind")):
            eq(R, s, "nothing saved", f"{con}, loaded as ({t}, {i})", lambda: load(s, t, i, (r, c)), None)
        R.absorb(s)
    s = program(R)
    vals = [["1/2", "-3"], ["0", "17/1000"]]
    eq(R, s, "saved then loaded", "2 x 2 matrix of rationals", lambda: (save(s, "k", "n", mat(s, consts(vals))), load(s, "k", "n", (2, 2)))[1], rows_of(consts(vals)))

    def exact():
        from checks.c23 import floats
        out = []
        floats(s, load(s, "k", "n", (2, 2)), out)
        R.ob(not out, "saved then loaded", "2 x 2 matrix of rationals, exactly", lambda: f"loaded with the floating-point number {out[0]!r}")
    R.guard("saved then loaded", "2 x 2 matrix of rationals, exactly", exact, sess=s)
    # several matrices under different names
    long = "Element 3 ((0, 0), (1, 0), (0, 1)) {'variant': 'legendre'} 2023.09 " * 4
    pairs = [(t, i) for t in ("dual", "dualinv", "1", "") for i in ("a", "b", "1-a", "a 1", "")]
    pairs += [("dual", i) for i in ("A", "a ", " a", "a\n", "a  1", "1a", "aa", "ab", "ba", "a/b", "a_b", "a.b", "\u00e9", long, long + "1", "1" + long, long[:70] + "x" + long[71:])]
    ms = {}
    for n, (t, i) in enumerate(pairs):
        ms[t, i] = ent(s, f"e{n}", 2, 2)
        R.guard("several matrices", f"save ({t!r}, {i!r})", lambda: save(s, t, i, mat(s, ms[t, i])), sess=s)
    for t, i in pairs:
        eq(R, s, "several matrices", f"({t!r}, {i!r}) after {len(pairs)} saves", lambda: load(s, t, i, (2, 2)), rows_of(ms[t, i]))
    new = ent(s, "z", 2, 2)
    R.guard("saved again", "save", lambda: save(s, "dual", "a", mat(s, new)), sess=s)
    eq(R, s, "saved again", "second matrix under one name", lambda: load(s, "dual", "a", (2, 2)), rows_of(new))
    eq(R, s, "nothing saved", "never saved", lambda: load(s, "dual", "c", (2, 2)), None)
    R.absorb(s)


def snapshot(s):
    return s.fs.paths()


def replay(states, base, ops):
    """File system after the operations; write positions belong to the file that was opened."""
    fs = dict(base)
    for op in ops:
        k = op[0]
        if k == "open":
            if op[2][0] in "wx" or op[1] not in fs:
                fs[op[1]] = ("file", "")
        elif k == "write":
            fs[op[1]] = ("file", models_mkstr([fs.get(op[1], ("file", ""))[1], op[2]]))
        elif k == "rename":
            if op[1] in fs:
                fs[op[2]] = fs.pop(op[1])
        elif k == "remove":
            fs.pop(op[1], None)
        elif k == "mkdir":
            fs[op[1]] = ("dir",)
    return fs


def models_mkstr(parts):
    from sa.models import mkstr
    return mkstr(parts)


def effects(s, thunk):
    n = len(s.fs.log)
    thunk()
    known(s)
    return [o for o in s.fs.log[n:] if o[0] in ("open", "write", "rename", "remove", "mkdir", "close", "flush")]


def buffered(ops):
    """The operations with everything that is written reaching the file only when it is flushed or closed (a file that is
    never closed explicitly is closed at once), or None when that is the order they are in anyway."""
    out, pending, name = [], {}, {}
    for i, o in enumerate(ops):
        k = o[0]
        if k == "write" and any(p[0] in ("close", "flush") and p[1] == o[1] for p in ops[i + 1:]):
            pending.setdefault(o[1], []).append(o)
        elif k in ("close", "flush"):
            out += [("write", name.get(o[1], o[1]), w[2]) for w in pending.pop(o[1], [])]
        else:
            if k == "rename" and o[1] in pending:
                name[o[1]] = o[2]
            elif k == "open":
                name.pop(o[1], None)
            out.append(o)
    return out


def writes_split(ops):
    """The operations with every write cut into single characters."""
    out = []
    for o in ops:
        if o[0] == "write" and isinstance(o[2], str):
            out += [("write", o[1], ch) for ch in o[2]]
        else:
            out.append(o)
    return out


def look(R, s, rule, con, fs, want, others=()):
    """Load in the given file system: nothing or one of the matrices, never an exception."""
    it = s.it
    mark = len(it.trail)
    for k in [k for k in it.store if k[0] == "vfs"]:
        it.set(k, None)
    for p, v in fs.items():
        it.set(("vfs", p), v)
    n = len(it.uncaught)
    try:
        v = load(s, "dual", "name", (2, 2))
        known(s)
        d = s.data(v)
        if has_top(d):
            raise Unknown("imprecise")
        for a in each_alt(d):
            R.ob(a is None or any(data_eq(a, w) for w in want), rule, con, lambda: f"load gives {a!r}")
    except Dead:
        R.bad(rule, con, f"load raises {it.uncaught[-1][0] if it.uncaught else ''}")
    except (Unknown, Budget) as e:
        R.unknown(rule, con, repr(e))
    finally:
        del it.uncaught[n:]
        it.undo(mark)


def crash(R):
    """A save that stops at any point, with any earlier file: the next load gives nothing, the old or the new matrix."""
    new = [["1/25", "-30"], ["417", "12"]]
    old = [["7", "1/3"], ["-2", "10"]]
    for prior in (False, True):
        s = program(R)
        con0 = "over an earlier file" if prior else "first save"
        try:
            if prior:
                save(s, "dual", "name", mat(s, consts(old)))
            base = snapshot(s)
            ops = effects(s, lambda: save(s, "dual", "name", mat(s, consts(new))))
        except (Unknown, Budget, Dead) as e:
            R.unknown("crash while saving", con0, repr(e))
            continue
        late = buffered(ops)
        ops = [o for o in ops if o[0] not in ("close", "flush")]
        cut = writes_split(ops)
        want = [rows_of(consts(new))] + ([rows_of(consts(old))] if prior else [])
        if late != ops:
            for n, o in enumerate(late):
                look(R, s, "crash while saving", f"{con0}, stopped after {describe_op(o)} with the rest still in the buffer ({n + 1} of {len(late)} effects)",
                     replay(None, base, late[:n + 1]), want)
        for n in range(len(cut) + 1):
            look(R, s, "crash while saving", f"{con0}, stopped after {describe_op(cut[n - 1]) if n else 'nothing'} ({n} of {len(cut)} effects)",
                 replay(None, base, cut[:n]), want)
        fin = replay(None, base, cut)
        mark = len(s.it.trail)
        for p, v in fin.items():
            s.it.set(("vfs", p), v)
        eq(R, s, "crash while saving", f"{con0}, complete", lambda: load(s, "dual", "name", (2, 2)), want[0])
        s.it.undo(mark)
        R.absorb(s)


def describe_op(o):
    import os.path
    p = o[1]
    return f"{o[0]} of {os.path.basename(p) if isinstance(p, str) else 'a temporary file'}"


def two_writers(R):
    """Two processes saving the same matrix, interleaved in every order of their effects: a third always loads nothing or the matrix."""
    new = [["1/25", "-30"], ["417", "12"]]
    s = program(R)
    try:
        base = snapshot(s)
        a = effects(s, lambda: save(s, "dual", "name", mat(s, consts(new))))
        mark = snapshot(s)
        for p in list(mark):
            if p not in base:
                s.it.set(("vfs", p), None)
        b = effects(s, lambda: save(s, "dual", "name", mat(s, consts(new))))
    except (Unknown, Budget, Dead) as e:
        R.unknown("two savers", "extraction", repr(e))
        return

    def halves(ops):
        out = []
        for o in ops:
            if o[0] == "write" and isinstance(o[2], str) and len(o[2]) > 1:
                h = len(o[2]) // 2
                out += [("write", o[1], o[2][:h]), ("write", o[1], o[2][h:])]
            else:
                out.append(o)
        return out
    a, b = (halves([o for o in ops if o[0] not in ("close", "flush")]) for ops in (a, b))
    seen = set()
    n = 0
    for pick in itertools.combinations(range(len(a) + len(b)), len(a)):
        fs, pos, ok = dict(base), {0: {}, 1: {}}, True
        i = j = 0
        for k in range(len(a) + len(b)):
            who = 0 if k in pick else 1
            o = a[i] if who == 0 else b[j]
            i, j = (i + 1, j) if who == 0 else (i, j + 1)
            if o[0] == "write" and isinstance(o[2], str):
                cur = fs.get(o[1], ("file", ""))[1]
                if not isinstance(cur, str):
                    ok = False
                    break
                q = pos[who].get(o[1], 0)
                cur = cur.ljust(q, "\0")
                fs[o[1]] = ("file", cur[:q] + o[2] + cur[q + len(o[2]):])
                pos[who][o[1]] = q + len(o[2])
            else:
                if o[0] == "rename" and o[1] not in fs:
                    R.bad("two savers", "rename", "the second process finds its file gone")
                    ok = False
                    break
                fs = replay(None, fs, [o])
            key = tuple(sorted((repr(p), repr(v)) for p, v in fs.items()))
            if key not in seen:
                seen.add(key)
                n += 1
                if n > 400:
                    break
                look(R, s, "two savers", f"after effects {i} and {j} of two processes (state {len(seen)})", fs, [rows_of(consts(new))])
        if not ok or n > 400:
            break
    R.absorb(s)


def importing(R):
    """Importing the package makes the cache folder, whatever exists already and whatever another process makes meanwhile."""
    def dirs(*ds):
        def f(fs):
            for d in ds:
                fs.it.set(("vfs", d), ("dir",))
        return f
    states = [("nothing there", dirs()), ("user cache folder there", dirs(V.HOME)), ("both folders there", dirs(V.HOME, V.HOME + "/symfem"))]
    total = 0
    for lab, setup in states:
        def run(at, con):
            def before(fs, n, op, a):
                if at is not None and n == at:
                    dirs(V.HOME, V.HOME + "/symfem")(fs)
            try:
                s = cache_session(R, setup, before=before)
            except Dead:
                R.bad("importing", con, "importing symfem.caching raises")
                return None
            except (Unknown, Budget, AnchorLost) as e:
                R.unknown("importing", con, repr(e))
                return None
            if s.it.uncaught:
                R.bad("importing", con, f"importing symfem.caching raises {s.it.uncaught[0][0]}")
            elif s.fs.unknown:
                R.unknown("importing", con, s.fs.unknown[0])
            else:
                s.p = s.probe(CACHE, "cache_probe_")
                R.ob(s.fs.node(V.HOME + "/symfem") == ("dir",), "importing", con, "the cache folder is not there")
                m = ent(s, "m", 2, 2)
                eq(R, s, "importing", con + ", then saving", lambda: (save(s, "t", "i", mat(s, m)), load(s, "t", "i", (2, 2)))[1], rows_of(m))
            R.absorb(s)
            return s
        s = run(None, lab)
        if s is None:
            continue
        k = len([o for o in s.fs.log if True])
        for at in range(min(k, 12)):
            if s.fs.log[at][0] in ("stat", "mkdir", "remove"):
                run(at, f"{lab}, another process makes the folders before effect {at + 1} ({s.fs.log[at][0]})")


def keys(R):
    """With the cache in use, the matrix an element gets is its own: distinct elements never read one another's."""
    s = cache_session(R, load="symfem")
    s.it.structural = True
    s.stub = s.probe(KEYS, "key_probe_")
    F = lambda n: s.attr(s.stub, n)
    tri = s.ref("triangle")
    moved = s.call(s.get("symfem.create.create_reference"), "triangle", vertices=s.tup(s.tup(0, 0), s.tup(2, 0), s.tup(1, 3)))
    quad = s.ref("quadrilateral")
    N = itertools.count()

    def element(maker, ref, order, *extra, size=2):
        k = next(N)
        fs = [s.scalar(s.fn_atom(f"f{k}_{i}", 2)) for i in range(size)]
        dofs = s.call(F("points_dofs"), ref, s.lst(*[s.tup(*p) for p in ((0, 0), (1, 0), (0, 1))[:size]]))
        return s.call(F(maker), ref, order, s.lst(*fs), dofs, 2, 1, None, *extra)
    els = [("element", "stub", tri, 1), ("another class", "other", tri, 1), ("another order", "stub", tri, 2), ("another cell of the type", "stub", moved, 1),
           ("another cell type", "stub", quad, 1), ("a newer version of the class", "newer", tri, 1), ("a still newer version of the class", "newest", tri, 1),
           ("arguments a 1", "keyed", tri, 1, "a", 1), ("arguments b 1", "keyed", tri, 1, "b", 1), ("arguments a 2", "keyed", tri, 1, "a", 2),
           ("order 11", "stub", tri, 11)]
    made = []
    for e in els:
        try:
            made.append((e[0], element(*e[1:])))
        except (Dead, Unknown, Budget) as x:
            R.unknown("distinct keys", e[0], repr(x))
    for rnd in ("first", "second"):
        for lab, e in made:
            def two(f, g):
                v = s.call(F(f), e)
                w = s.call(F(g), e)
                known(s)
                return v, w
            for f, g, what in (("dual_kw", "plainly", "dual matrix"), ("inv", "inv_plainly", "inverse")):
                if what == "inverse" and lab not in ("element", "another class"):
                    continue
                con = f"{what} of {lab}, {rnd} time"
                try:
                    v, w = two(f, g)
                    eq(R, s, "distinct keys", con, lambda: v, s.data(w))
                except Dead:
                    R.bad("distinct keys", con, where(s))
                except (Unknown, Budget) as x:
                    R.unknown("distinct keys", con, repr(x))
    R.ob(any(o[0] in ("open", "rename") for o in s.fs.log) or bool(s.fs.unknown), "cache used", "stub elements", "nothing was ever saved")
    R.absorb(s)


def key_of(R, item):
    """The file an element's dual matrix is looked for in."""
    lab = label(item)
    if not _FS or _FS[1] > 12:
        s = cache_session(R, load="symfem")
        s.it.structural = True
        s.elem_probe = s.probe(PROBE, "elem_probe_")
        s.it.max_steps = 0
        _FS[:] = [s, 0]
    s = _FS[0]
    _FS[1] += 1
    s.it.max_steps = s.it.steps + 6_000_000
    del s.it.uncaught[:]
    found = []

    def watch(op, a):
        if op == "read" or op == "stat" and str(a[0]).endswith("matrix"):
            found.append(a[0])
            s.it.raise_("KeySeen")
    try:
        e = create(s, item)
        if not flag(s, "is_ciarlet", e):
            return
        n = len(seq(s, s.call(P(s, "dofs"), e)))
        s.fs.watch = watch
        try:
            s.meth(e, "get_dual_matrix")
        except Dead:
            pass
        finally:
            s.fs.watch = None
        known(s)
    except Dead:
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as x:
        del _FS[:]
        R.unknown("catalogue keys", lab, repr(x))
        return
    except RecursionError:
        del _FS[:]
        R.unknown("catalogue keys", lab, "recursion")
        return
    if found:
        R.fact((str(found[0]), n, lab))
    R.absorb(s)


_FS = []


def run(R):
    R.floor = 40
    R.explanation = ("Effect analysis on an abstract file system: the ordered file effects of saving, loading and importing are extracted from the "
                     "source by abstract interpretation with opaque matrix entries; every prefix of a save (crash) and every interleaving of two saves "
                     "is then looked at by the loading function; keys are compared over the element catalogue.")
    for f in (roundtrip, crash, two_writers, importing, keys):
        f(R)
    s = session(R)
    items = sweep_items(s, 3 if R.thorough else 2, 2 if R.thorough else 1)
    run_deadline(R, key_of, items, 600 if R.thorough else 60)
    seen = {}
    for path, size, lab in R.facts:
        seen.setdefault(path, []).append((lab, size))
    for path, ls in sorted(seen.items()):
        sizes = [z for _, z in ls]
        R.ob(len(set(sizes)) == len(sizes), "catalogue keys", min(ls)[0],
             lambda: f"the same cache file as {', '.join(l for l, _ in sorted(ls)[1:])} ({path})")
    R.note(f"{len(seen)} distinct cache files for {sum(map(len, seen.values()))} catalogue elements")
