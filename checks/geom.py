"""Independent cell data used as the specification by the geometry checks."""
from fractions import Fraction
from sa.query import *

CELLS = {
    "interval": dict(cls="Interval", tdim=1, verts=[(0,), (1,)]),
    "triangle": dict(cls="Triangle", tdim=2, verts=[(0, 0), (1, 0), (0, 1)]),
    "tetrahedron": dict(cls="Tetrahedron", tdim=3, verts=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
    "quadrilateral": dict(cls="Quadrilateral", tdim=2, verts=[(0, 0), (1, 0), (0, 1), (1, 1)]),
    "hexahedron": dict(cls="Hexahedron", tdim=3, verts=[(i, j, k) for k in (0, 1) for j in (0, 1) for i in (0, 1)]),
    "prism": dict(cls="Prism", tdim=3, verts=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)]),
    "pyramid": dict(cls="Pyramid", tdim=3, verts=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)]),
}
SIMPLEX = ("interval", "triangle", "tetrahedron")


def inside(cell, p):
    """Membership of a concrete point in the closed default cell."""
    if any(c < 0 for c in p):
        return False
    if cell in SIMPLEX:
        return sum(p) <= 1
    if cell == "prism":
        return p[0] + p[1] <= 1 and p[2] <= 1
    if cell == "pyramid":
        return p[0] + p[2] <= 1 and p[1] + p[2] <= 1
    return all(c <= 1 for c in p)


def limits(cell, ts):
    """(symbol, low, high) innermost first."""
    o = R1
    ids = [sid(t) for t in ts]
    if cell == "interval":
        return [(ids[0], R0, o)]
    if cell == "triangle":
        return [(ids[1], R0, o - ts[0]), (ids[0], R0, o)]
    if cell == "tetrahedron":
        return [(ids[2], R0, o - ts[0] - ts[1]), (ids[1], R0, o - ts[0]), (ids[0], R0, o)]
    if cell == "quadrilateral":
        return [(ids[1], R0, o), (ids[0], R0, o)]
    if cell == "hexahedron":
        return [(ids[2], R0, o), (ids[1], R0, o), (ids[0], R0, o)]
    if cell == "prism":
        return [(ids[2], R0, o), (ids[1], R0, o - ts[0]), (ids[0], R0, o)]
    return [(ids[0], R0, o - ts[2]), (ids[1], R0, o - ts[2]), (ids[2], R0, o)]


def affine_image(cell, gdim, tag="", A=None, b=None):
    """Vertices b + A X_i with symbolic A, b."""
    c = CELLS[cell]
    n = c["tdim"]
    A = A or [[sym(f"a{tag}{i}{j}") for j in range(n)] for i in range(gdim)]
    b = b or [sym(f"b{tag}{i}") for i in range(gdim)]
    return [tuple(b[i] + sum((A[i][j] * Rat.const(v[j]) for j in range(n)), R0) for i in range(gdim)) for v in c["verts"]], A, b


def free_vertices(cell, gdim, tag="w"):
    c = CELLS[cell]
    return [tuple(sym(f"{tag}{k}_{i}") for i in range(gdim)) for k in range(len(c["verts"]))]


def noabs(r):
    """|e| -> sqrt(e*e) so that squares reduce."""
    mp = {}
    for a in r.deep_atoms():
        at = atom_of(a)
        if at.kind == "abs":
            mp[a] = rsqrt(noabs(at.args[0]) * noabs(at.args[0]))
    return rsubs(r, mp) if mp else r


def eq_sq(a, b):
    """Equality of two non-negative quantities."""
    a, b = noabs(a), noabs(b)
    return a == b or a * a == b * b


def make(s, cell, verts=None):
    C = s.get("symfem.references." + CELLS[cell]["cls"])
    if verts is None:
        return s.call(C)
    return s.call(C, vertices=s.tup(*[tuple(v) for v in verts]))


def eval_bool(t, env):
    """Evaluate a boolean term at concrete rational values; None if impossible."""
    if isinstance(t, bool):
        return t
    if isinstance(t, BoolT):
        t = t.t
        if isinstance(t, bool):
            return t
    k = t[0]
    if k == "and":
        vs = [eval_bool(q, env) for q in t[1]]
        return False if any(v is False for v in vs) else None if None in vs else True
    if k == "or":
        vs = [eval_bool(q, env) for q in t[1]]
        return True if any(v is True for v in vs) else None if None in vs else False
    if k == "not":
        v = eval_bool(t[1], env)
        return None if v is None else not v
    if k == "cmp":
        r = rsubs(t[2], env)
        if not r.is_const():
            return None
        c = r.const_value()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}.get(t[1])
    return None
