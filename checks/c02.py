"""Reference-cell topology: sub-entity tables, numbering, construction from vertices."""
from itertools import combinations
from sa.query import *
from checks.geom import *


def faces_of(cell):
    """{dim: set of frozensets of vertex numbers} from the geometry of the default cell."""
    c = CELLS[cell]
    V, n = c["verts"], c["tdim"]
    # facets: supporting hyperplanes of the convex hull
    planes = set()
    idx = range(len(V))

    def side(normal, off):
        return [sum(a * b for a, b in zip(normal, v)) - off for v in V]
    facets = set()
    for comb in combinations(idx, n):
        p0 = V[comb[0]]
        dirs = [tuple(a - b for a, b in zip(V[k], p0)) for k in comb[1:]]
        if n == 1:
            normal = (1,)
        elif n == 2:
            normal = (-dirs[0][1], dirs[0][0])
        else:
            a, b = dirs
            normal = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        if not any(normal):
            continue
        s = side(normal, sum(a * b for a, b in zip(normal, p0)))
        if all(q >= 0 for q in s) or all(q <= 0 for q in s):
            facets.add(frozenset(i for i in idx if s[i] == 0))
    out = {n: {frozenset(idx)}, 0: {frozenset([i]) for i in idx}}
    if n >= 2:
        out[n - 1] = facets
    if n == 3:
        edges = set()
        for f, g in combinations(facets, 2):
            if len(f & g) == 2:
                edges.add(f & g)
        out[1] = edges
    if n == 1:
        out[0] = {frozenset([i]) for i in idx}
    return out


def numbering(cell, dim):
    """Documented order of the sub-entities of a dimension."""
    ents = [tuple(sorted(f)) for f in faces_of(cell)[dim]]
    n = CELLS[cell]["tdim"]
    if cell in SIMPLEX and 0 < dim < n:
        # numbered by the opposite vertices
        return sorted(ents, key=lambda e: [i for i in range(n + 1) if i not in e])
    return sorted(ents)


SHAPE = {1: {2: "interval"}, 2: {3: "triangle", 4: "quadrilateral"}, 0: {1: "point"},
         3: {4: "tetrahedron", 8: "hexahedron", 6: "prism", 5: "pyramid"}}


def cell_check(R, cell):
    s = Session(R.root)
    c = CELLS[cell]
    n = c["tdim"]
    V = c["verts"]
    R.guard("cell", cell, lambda: tables(R, s, cell, c, n, V), sess=s)
    R.guard("build", cell, lambda: build(R, s, cell, c, n, V), sess=s)
    R.guard("order", cell, lambda: zorder(R, s, cell, c, n), sess=s)
    R.absorb(s)


def ints(s, v):
    return [[int(q.const_value()) for q in row] for row in s.data(v)]


def tables(R, s, cell, c, n, V):
    ref = make(s, cell)
    R.ob(s.data(s.attr(ref, "vertices")) == [[Rat.const(z) for z in v] for v in V], "default vertices", cell)
    R.ob(s.data(s.attr(ref, "reference_vertices")) == [[Rat.const(z) for z in v] for v in V], "reference vertices", cell)
    R.ob(s.attr(ref, "name") == cell, "cell name", cell, lambda: f"name is {s.attr(ref, 'name')!r}")
    R.ob(s.attr(ref, "tdim") == n, "topological dimension", cell)
    expected = faces_of(cell)
    for dim in range(n + 1):
        con = f"{cell} sub-entities of dimension {dim}"
        got = ints(s, s.meth(ref, "sub_entities", dim))
        R.ob({frozenset(e) for e in got} == expected[dim] and len(got) == len(expected[dim]),
             "sub-entity table is the face lattice", con, lambda: f"{got}")
        R.ob(all(len(set(e)) == len(e) for e in got) and [sorted(e) for e in got] == [list(e) for e in numbering(cell, dim)],
             "sub-entity numbering", con, lambda: f"{got}, documented {numbering(cell, dim)}")
        for e in got:
            if len(e) == 4 and dim == 2:
                p = [V[i] for i in e]
                ok = all(p[0][k] + p[3][k] == p[1][k] + p[2][k] for k in range(len(p[0])))
                R.ob(ok and e[0] == min(e), "quadrilateral face vertices in tensor order", f"{con} {e}")
            else:
                R.ob(list(e) == sorted(e), "sub-entity vertices in increasing order", f"{con} {e}")
        R.ob(s.meth(ref, "sub_entity_count", dim) == len(expected[dim]), "sub-entity count", con)
        R.ob(ints(s, s.call(s.attr(ref, "sub_entities"), codim=n - dim)) == got, "codimension lookup", con)
        R.ob(s.call(s.attr(ref, "sub_entity_count"), codim=n - dim) == len(expected[dim]), "codimension count", con)
        # attribute tables used by callers directly
        for attr, d in (("edges", 1), ("faces", 2), ("volumes", 3)):
            if d == dim:
                R.ob(ints(s, s.attr(ref, attr)) == got, "attribute table agrees with sub_entities", f"{cell}.{attr}")
    chi = sum((-1) ** d * len(expected[d]) for d in expected)
    total = sum((-1) ** d * len(ints(s, s.meth(ref, "sub_entities", d))) for d in range(n + 1))
    R.ob(total == 1 == chi, "Euler characteristic", cell, lambda: f"{total}")


def build(R, s, cell, c, n, V):
    """Cells built from symbolic vertices, directly and through create_reference."""
    for gdim in range(n, 4):
        w = free_vertices(cell, gdim)
        for how in ("class", "create_reference"):
            con = f"{cell} in {gdim}D via {how}"

            def go():
                if how == "class":
                    ref = make(s, cell, w)
                else:
                    ref = s.call(s.get("symfem.create_reference"), cell, s.tup(*w))
                R.ob(data_eq(s.data(s.attr(ref, "vertices")), [list(v) for v in w]), "vertices kept", con)
                R.ob(s.attr(ref, "name") == cell, "cell type", con, lambda: f"{s.attr(ref, 'name')!r}")
                R.ob(s.attr(ref, "gdim") == gdim, "geometric dimension", con)
                R.ob(s.attr(ref, "tdim") == n, "topological dimension", con)
                R.ob(data_eq(s.data(s.attr(ref, "origin")), list(w[0])), "origin is the first vertex", con)
                # axis k joins vertex 0 to the image of the k-th unit vector
                ax = [[w[V.index(tuple(1 if i == k else 0 for i in range(n)))][j] - w[0][j] for j in range(gdim)] for k in range(n)]
                R.ob(data_eq(s.data(s.attr(ref, "axes")), ax), "axes", con, lambda: f"{s.data(s.attr(ref, 'axes'))!r}"[:300])
                R.ob(data_eq(s.data(s.attr(ref, "reference_vertices")), [[Rat.const(z) for z in v] for v in V]),
                     "reference vertices independent of the vertices", con)
                d = s.meth(ref, "default_reference")
                R.ob(data_eq(s.data(s.attr(d, "vertices")), [[Rat.const(z) for z in v] for v in V]) and
                     s.attr(d, "name") == cell, "default reference", con)
                for dim in range(n + 1):
                    tab = ints(s, s.meth(ref, "sub_entities", dim))
                    R.ob([set(e) for e in tab] == [set(e) for e in numbering(cell, dim)], "sub-entity table is that of the default cell", f"{con} ({dim})", lambda: f"{tab}")
                    R.ob(ints(s, s.call(s.attr(ref, "sub_entities"), codim=n - dim)) == tab, "codimension lookup", f"{con} ({dim})")
                    R.ob(s.call(s.attr(ref, "sub_entity_count"), codim=n - dim) == len(tab), "codimension count", f"{con} ({dim})")
                    R.ob(s.meth(ref, "sub_entity_count", dim) == len(tab), "sub-entity count", f"{con} ({dim})")
                    for k, e in enumerate(tab):
                        for rv in (False, True):
                            args = (dim, k) + ((True,) if rv else ())
                            sub = s.meth(ref, "sub_entity", *args)
                            src = [[Rat.const(z) for z in v] for v in V] if rv else [list(v) for v in w]
                            want = [src[i] for i in e]
                            sv = s.data(s.attr(sub, "vertices"))
                            nm = s.attr(sub, "name")
                            R.ob(data_eq(sv, want) and nm == SHAPE[dim].get(len(e)), "sub-entity geometry",
                                 f"{con} ({dim},{k}){' reference' if rv else ''}", lambda: f"{nm} {sv!r}"[:300])
            R.guard("build", con, go, sess=s)
    # equality
    a, b = make(s, cell), make(s, cell)
    shifted = [tuple(Rat.const(z + (1 if i == 0 else 0)) for i, z in enumerate(v)) for v in V]
    sh = make(s, cell, shifted)
    R.ob(s.it.truth(s.it.equal(a, b)) is True, "equal cells compare equal", cell)
    R.ob(s.it.truth(s.it.equal(a, sh)) is False, "cells with different vertices differ", cell)
    R.ob(s.it.truth(s.it.equal(s.meth(sh, "default_reference"), a)) is True, "default reference equals the default cell", cell)
    VV = [[Rat.const(z) for z in v] for v in V]
    for i in range(len(V) - 1):
        W = list(VV)
        W[i], W[i + 1] = W[i + 1], W[i]
        b = make(s, cell, W)
        R.ob(s.it.truth(s.it.equal(a, b)) is False, "cells with vertices in another order differ", f"{cell}, vertices {i} and {i + 1} exchanged")
        R.ob(s.it.truth(s.it.equal(b, make(s, cell, W))) is True, "equal cells compare equal", f"{cell}, vertices {i} and {i + 1} exchanged")
        W = [list(v) for v in VV]
        W[i + 1][-1] = W[i + 1][-1] + R1
        R.ob(s.it.truth(s.it.equal(a, make(s, cell, W))) is False, "cells with different vertices differ", f"{cell}, vertex {i + 1} moved")
    for other in CELLS:
        if other != cell:
            R.ob(s.it.truth(s.it.equal(a, make(s, other))) is False, "cells of different types differ", f"{cell}/{other}")


def zorder(R, s, cell, c, n):
    ref = make(s, cell)
    want = {(d, i) for d in range(n + 1) for i in range(len(faces_of(cell)[d]))}
    for m in ("z_ordered_entities", "z_ordered_entities_extra_dim"):
        groups = s.data(s.meth(ref, m))
        flat_ = [tuple(int(q.const_value()) for q in e) for g in groups for e in g]
        R.ob(len(flat_) == len(set(flat_)) and set(flat_) == want, "drawing order lists every sub-entity once", f"{cell}.{m}",
             lambda: f"{sorted(flat_)}")
    if n == 2:
        cw = s.data(s.attr(ref, "clockwise_vertices"))
        V = [tuple(v) for v in c["verts"]]
        ids = [V.index(tuple(int(q.const_value()) for q in p)) for p in cw]
        edges = faces_of(cell)[1]
        R.ob(sorted(ids) == list(range(len(V))) and
             all(frozenset((ids[i], ids[(i + 1) % len(ids)])) in edges for i in range(len(ids))),
             "outline visits every vertex along edges", cell, lambda: f"{ids}")


def run(R):
    R.floor = 600
    R.explanation = ("Constant propagation of the sub-entity tables of every cell compared with the face lattice computed "
                     "from the default vertices; cells are rebuilt from symbolic vertices and every sub-entity's vertices "
                     "are compared with the table, so the agreement holds for all vertex positions.")
    from sa.report import parallel
    parallel(R, cell_check, sorted(CELLS, key=lambda k: -len(CELLS[k]["verts"])))
