"""Every DOF belongs to a valid sub-entity, sits on it, and the entity tables partition the DOFs."""
import itertools
from checks.sweep import *
from checks.c13 import topology, facets

PR = '''
def info(e):
    out = []
    for d in e.dofs:
        p = d.dof_point()
        dom = d.integral_domain.vertices if hasattr(d, "integral_domain") else None
        out.append((d.entity_dim(), d.entity_number(), p, dom))
    return out
def tables(e):
    return ([[e.entity_dofs(dim, n) for n in range(e.reference.sub_entity_count(dim))] for dim in range(e.reference.tdim + 1)],
            [i for i in e.dof_entities()], len(e.dof_directions()), e.space_dim)
def positions(e): return [p for p in e.dof_plot_positions()]
'''
# elements whose number of DOFs on sub-entities of one shape differs by design
UNEVEN = {"Transition", "FortinSoulie", "Dual", "BuffaChristiansen", "RotatedBuffaChristiansen"}


def num(r):
    """Floating point value of a constant coordinate, None when unknown (used for inequalities only)."""
    if isinstance(r, (int, Fr)):
        return float(r)
    if not isinstance(r, Rat):
        return None
    return float_of(r)


def inside_hull(p, vs, cell_dim):
    """Is the point in the convex hull of the vertices of a sub-entity (all products of simplices have convex hulls here)?"""
    import itertools as it
    g = len(vs[0])
    eps = 1e-9
    if len(vs) == 1:
        return all(abs(a - b) < eps for a, b in zip(p, vs[0]))
    # solve by barycentric coordinates on every simplex made of the vertices
    d = cell_dim
    for simplex in it.combinations(vs, d + 1):
        lam = bary(p, simplex)
        if lam is not None and all(q > -eps for q in lam):
            return True
    return False


def bary(p, vs):
    """Barycentric coordinates in a (possibly embedded) simplex; None when p is off its plane or it is degenerate."""
    o = vs[0]
    cols = [[b - a for a, b in zip(o, v)] for v in vs[1:]]
    rhs = [a - b for a, b in zip(p, o)]
    m = len(cols)
    G = [[sum(x * y for x, y in zip(a, b)) for b in cols] + [sum(x * y for x, y in zip(a, rhs))] for a in cols]
    for c in range(m):
        k = max(range(c, m), key=lambda r: abs(G[r][c]))
        if abs(G[k][c]) < 1e-12:
            return None
        G[c], G[k] = G[k], G[c]
        G[c] = [v / G[c][c] for v in G[c]]
        for r in range(m):
            if r != c:
                f = G[r][c]
                G[r] = [v - f * w for v, w in zip(G[r], G[c])]
    lam = [G[i][m] for i in range(m)]
    res = [r - sum(l * c[i] for l, c in zip(lam, cols)) for i, r in enumerate(rhs)]
    if max((abs(r) for r in res), default=0) > 1e-9:
        return None
    return [1 - sum(lam)] + lam


def one(R, item):
    s = shared(R, 30_000_000)
    lab = label(item)
    try:
        e = create(s, item)
        look(R, s, item, lab, e)
    except Dead:
        if not refused(s, "variant" in item[4], item):
            R.bad("DOF tables", lab, "raises " + where(s))
    except (Unknown, Budget) as x:
        R.unknown("DOF tables", lab, repr(x))
    R.absorb(s)


def look(R, s, item, lab, e):
    cls, name, cell, order, kw = item
    m = s.probe(PR)
    ref = s.attr(e, "reference")
    ciarlet = flag(s, "is_ciarlet", e)
    vs, top = topology(cell, s, ref)
    dims = range(len(top))
    tab = s.call(s.attr(m, "tables"), e)
    ed, de, nd, sd = [plain(s, q) for q in seq(s, tab)]
    if not isinstance(sd, int) or isinstance(ed, list) is False:
        raise Unknown("table")
    flat = [i for row in ed for q in row for i in q]
    R.ob(len(flat) == len(set(flat)) and set(flat) == set(range(sd)), "entity_dofs partitions the DOFs", lab,
         f"the DOFs listed over all entities are {sorted(flat)} for {sd} DOFs")
    R.ob(all(i is not None and list(i) == sorted(i) for row in ed for i in row), "entity_dofs lists DOFs in order", lab, f"{ed}"[:300])
    de = [tuple(q) for q in de]
    R.ob(len(de) == sd and all(ed[d][n].count(i) == 1 for i, (d, n) in enumerate(de) if d in dims and n < len(ed[d])),
         "dof_entities agrees with entity_dofs", lab, f"dof_entities {de}, entity_dofs {ed}"[:400])
    R.ob(nd == sd, "a direction entry per DOF", lab, f"{nd} directions for {sd} DOFs")
    for i, (d, n) in enumerate(de):
        if d not in dims or not 0 <= n < len(top[d]):
            R.bad("DOFs belong to an entity of the cell", lab, f"DOF {i} is on entity ({d}, {n})")
            return
    R.ok("DOFs belong to an entity of the cell", lab)
    if cls not in UNEVEN:
        by = {}
        for d in dims:
            for n, q in enumerate(ed[d]):
                by.setdefault((d, len(top[d][n])), set()).add(len(q))
        R.ob(all(len(v) == 1 for v in by.values()), "sub-entities of one shape carry equally many DOFs", lab,
             f"(dimension, vertices): numbers of DOFs {by}")
    if not ciarlet:
        return
    bad = None
    for i, q in enumerate(seq(s, s.call(s.attr(m, "info"), e))):
        d, n, p, dom = [s.data(z) if not (z is None) else None for z in seq(s, q)]
        d, n = unrat(d), unrat(n)
        hull = [tuple(float(c) for c in vs[k]) for k in top[d][n]]
        if dom is not None:
            dv = [tuple(num(c) for c in v) for v in dom]
            if any(c is None for v in dv for c in v):
                R.unknown("integrals are over the DOF's entity", lab, "domain")
            elif sorted(dv) != sorted(hull):
                bad = ("integrals are over the DOF's entity", f"DOF {i} on entity ({d}, {n}) integrates over {dv}, the entity is {hull}")
                break
        if isinstance(p, list) and all(c is not None for c in p):
            pv = [num(c) for c in p]
            if any(c is None for c in pv):
                R.unknown("DOFs sit on their entity", lab, f"point {p}"[:100])
            elif not inside_hull(pv, hull, d):
                bad = ("DOFs sit on their entity", f"DOF {i} on entity ({d}, {n}) with vertices {hull} has the point {pv}")
                break
    if bad:
        R.bad(bad[0], lab, bad[1])
    else:
        R.ok("DOFs sit on their entity", lab)
    pos = seq(s, s.call(s.attr(m, "positions"), e))
    R.ob(len(pos) == sd, "a plot position per DOF", lab, f"{len(pos)} positions for {sd} DOFs")


def run(R):
    R.floor = 60
    R.explanation = ("Abstract interpretation of every element constructor: the entity, integration domain and point of every "
                     "functional are compared with the cell's own sub-entity tables; the tables partition the DOFs.")
    s = session(R)
    items = sweep_items(s, 5 if R.thorough else 3, 3 if R.thorough else 1, heavy=True)
    run_deadline(R, one, items, 1500 if R.thorough else 90)
