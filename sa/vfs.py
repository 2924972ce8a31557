"""Abstract file system: the effects a program has on files, in order, with the contents it writes."""
import ast
import hashlib
import os.path as osp
import re
from .values import *
from . import models
from .poly import Rat

NUM = re.compile(r"-?\d+(/\d+)?$")
HOME = "/home/user/.cache"


class Stop(Exception):
    """Raised by a watcher to end the interpretation at an effect."""


class VFS:
    def __init__(self, it):
        self.it = it
        self.log = []
        self.n = 0
        self.unknown = []
        self.watch = None
        self.before = None
        it.vfs = self
        for d in ("/", "/home", "/home/user"):
            it.set(("vfs", d), ("dir",))

    # -- state
    def node(self, p):
        v = self.it.get(("vfs", p))
        return None if v is UNDEF else v

    def put(self, p, v):
        self.it.set(("vfs", p), v)

    def paths(self):
        return {k[1]: v for k, v in self.it.store.items() if k[0] == "vfs" and v is not None}

    def effect(self, op, *a):
        if self.before:
            self.before(self, len(self.log), op, a)
        self.log.append((op,) + a)
        if self.watch:
            self.watch(op, a)

    def path(self, v):
        if isinstance(v, str):
            return osp.normpath(v)
        if isinstance(v, StrT):
            return v
        self.unknown.append(f"path {v!r}"[:80])
        return None

    def unique(self, what):
        self.n += 1
        return StrT([("unique", what, self.n)])

    def fail(self, exc):
        self.it.raise_(exc)

    # -- calls
    def stat(self, name, v):
        p = self.path(v)
        if p is None:
            return BoolT(("opaque", "stat"))
        self.effect("stat", p)
        n = self.node(p)
        if name == "islink":
            return False
        return n is not None and (name == "exists" or n[0] == {"isfile": "file", "isdir": "dir"}[name])

    def mkdir(self, v, exist_ok=False, parents=False):
        p = self.path(v)
        if p is None:
            return None
        self.effect("mkdir", p, exist_ok)
        n = self.node(p)
        if n is not None:
            if exist_ok is True and n[0] == "dir":
                return None
            self.fail("FileExistsError")
        par = osp.dirname(p) if isinstance(p, str) else None
        if par is not None and self.node(par) is None:
            if not parents:
                self.fail("FileNotFoundError")
            self.mkdir(par, True, True)
        self.put(p, ("dir",))
        return None

    def open(self, v, mode):
        if isinstance(v, ObjT) and v.type == "vfd":
            p = v.term[1]
        else:
            p = self.path(v)
        if p is None or not isinstance(mode, str):
            self.unknown.append("open")
            return None
        n = self.node(p)
        m = mode.replace("b", "").replace("t", "")
        if m == "r":
            self.effect("read", p)
            n = self.node(p)
            if n is None:
                self.fail("FileNotFoundError")
            if n[0] == "dir":
                self.fail("IsADirectoryError")
        else:
            self.effect("open", p, m)
            n = self.node(p)
            if m[0] == "x" and n is not None:
                self.fail("FileExistsError")
            if n is not None and n[0] == "dir":
                self.fail("IsADirectoryError")
            d = osp.dirname(p) if isinstance(p, str) else None
            if d is not None and self.node(d) is None:
                self.fail("FileNotFoundError")
            if m[0] in "wx" or n is None:
                self.put(p, ("file", ""))
        self.n += 1
        self.it.set(("vfh", self.n), (p, m))
        return ObjT(("vfile", self.n, p), "vfile")

    def call(self, o, name, a, kw):
        it = self.it
        h = it.get(("vfh", o.term[1]))
        p = o.term[2]
        if name == "__enter__":
            return o
        if name in ("close", "__exit__"):
            if h is not None:
                self.effect("close", p)
                it.set(("vfh", o.term[1]), None)
            return None
        if name == "flush":
            self.effect("flush", p)
            return None
        if name == "fileno":
            return None
        if name == "read" and not a:
            n = self.node(p)
            if n is None:
                self.fail("FileNotFoundError")
            return n[1]
        if name == "write":
            if not isinstance(a[0], (str, StrT)):
                self.unknown.append(f"write {a[0]!r}"[:80])
                return None
            self.effect("write", p, a[0])
            n = self.node(p)
            if n is not None:
                self.put(p, ("file", models.mkstr([n[1], a[0]])))
            return None
        self.unknown.append("file." + name)
        return Top("file." + name)

    def rename(self, a, b):
        p, q = self.path(a), self.path(b)
        if p is None or q is None:
            return None
        self.effect("rename", p, q)
        n = self.node(p)
        if n is None:
            self.fail("FileNotFoundError")
        self.put(q, n)
        self.it.set(("vfs", p), None)
        return None

    def remove(self, a):
        p = self.path(a)
        if p is None:
            return None
        self.effect("remove", p)
        if self.node(p) is None:
            self.fail("FileNotFoundError")
        self.it.set(("vfs", p), None)
        return None

    def temp(self, what, a, kw):
        d = kw.get("dir")
        suf, pre = kw.get("suffix", ""), kw.get("prefix", "tmp")
        if d is None:
            d = "/tmp"
        return models.mkstr([d, "/", pre if pre is not None else "tmp", self.unique(what), suf if suf is not None else ""])


def _arg(a, kw, i, n, default):
    return a[i] if len(a) > i else kw.get(n, default)


def call(it, path, a, kw):
    """Effect of an external call, or NotImplemented when it has none on files."""
    v = it.vfs
    if path.endswith("user_cache_dir"):
        q = [x for x in a if isinstance(x, str)]
        if len(q) != len(a) or kw:
            v.unknown.append(path)
            return NotImplemented
        return osp.join(HOME, *q) if q else HOME
    if path.startswith("os.path."):
        n = path[8:]
        if n in ("isfile", "isdir", "exists", "islink"):
            return v.stat(n, a[0])
        if n == "join" and any(isinstance(x, StrT) for x in a):
            out = []
            for i, x in enumerate(a):
                out += (["/"] if i and not (isinstance(a[i - 1], str) and a[i - 1].endswith("/")) else []) + [x]
            return models.mkstr(out)
        return NotImplemented
    if path == "os.mkdir":
        return v.mkdir(a[0])
    if path == "os.makedirs":
        return v.mkdir(a[0], _arg(a, kw, 2, "exist_ok", False), True)
    if path in ("os.replace", "os.rename", "shutil.move"):
        return v.rename(a[0], a[1])
    if path in ("os.remove", "os.unlink"):
        return v.remove(a[0])
    if path in ("os.getpid", "threading.get_ident"):
        return v.unique(path)
    if path in ("uuid.uuid4", "uuid.uuid1"):
        return ObjT(("uuid", v.unique("uuid")), "uuid")
    if path == "tempfile.mkstemp":
        p = v.temp("mkstemp", a, kw)
        v.effect("open", p, "w")
        v.put(p, ("file", ""))
        return TupleV((ObjT(("vfd", p), "vfd"), p))
    if path == "tempfile.mktemp":
        return v.temp("mktemp", a, kw)
    if path in ("tempfile.mkdtemp",):
        p = v.temp("mkdtemp", a, kw)
        v.put(p, ("dir",))
        return p
    if path == "tempfile.NamedTemporaryFile":
        return v.open(v.temp("named", a, kw), "w")
    if path == "os.fdopen":
        return v.open(a[0], _arg(a, kw, 1, "mode", "r"))
    if path == "os.close":
        return None
    if path in ("os.fsync", "os.chmod", "os.umask"):
        return None
    if path.startswith("hashlib."):
        if a and isinstance(a[0], ObjT) and a[0].type == "bytes":
            return ObjT(("hash", path, a[0]), "hash")
        return NotImplemented
    if path not in models.EXT_CALLS and path.split(".")[0] in ("os", "shutil", "tempfile", "pathlib", "io", "fcntl", "pickle", "json"):
        v.unknown.append(path)
    return NotImplemented


def obj_call(it, o, name, a, kw):
    v = it.vfs
    if o.type == "vfile":
        return v.call(o, name, a, kw)
    if o.type == "hash" and name in ("hexdigest", "digest") and not a:
        b = o.term[2].term
        if b[0] == "bytes":
            return getattr(hashlib, o.term[1].split(".")[1])(b[1].encode("utf-8")).hexdigest()
        return StrT([("digest", o.term[1], b[1])])
    if o.type == "bytes" and name == "decode":
        return o.term[1]
    return NotImplemented


def obj_attr(it, o, name):
    if o.type == "vfile" and name == "name":
        return o.term[2]
    if o.type == "uuid" and name in ("hex", "int"):
        return o.term[1]
    return NotImplemented


def parse(it, s):
    """sympy.S of a string."""
    if isinstance(s, StrT) and len(s.parts) == 1 and is_num(s.parts[0]):
        return models.to_sym(it, s.parts[0])
    if isinstance(s, str):
        t = s.strip()
        if NUM.match(t):
            return models.to_sym(it, models.num_const(t)) if hasattr(models, "num_const") else Num(_frac(t), "sym")
        if t == "" or t in "+-" or re.match(r"-?\d+/$", t) or t.count("(") != t.count(")"):
            it.raise_("SympifyError")
    return Top("S(str)")


def _frac(t):
    from fractions import Fraction
    return Rat.const(Fraction(t))


def split(it, o, a):
    """Split a string with atomic value parts (a printed number contains no separator)."""
    sep = a[0] if a else None
    if not isinstance(sep, str) or len(a) > 1:
        return None
    out, cur = [], []
    for p in o.parts:
        if isinstance(p, str):
            q = p.split(sep)
            cur.append(q[0])
            for x in q[1:]:
                out.append(models.mkstr(cur))
                cur = [x]
        elif is_num(p) and sep in (",", ";", "\n", "|", ":", "\t", " ; ", ", "):
            cur.append(p)
        else:
            return None
    out.append(models.mkstr(cur))
    return it.new_list(out)
