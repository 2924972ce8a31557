"""Cell maps interpolate the target vertices and inverse maps invert them."""
from sa.query import *
from checks.geom import *
from itertools import permutations


def Rank(rows):
    """Rank of a few integer rows."""
    from fractions import Fraction
    rows = [[Fraction(q) for q in r] for r in rows]
    k = 0
    for c in range(len(rows[0])):
        piv = next((i for i in range(k, len(rows)) if rows[i][c]), None)
        if piv is None:
            continue
        rows[k], rows[piv] = rows[piv], rows[k]
        for i in range(k + 1, len(rows)):
            f = rows[i][c] / rows[k][c]
            rows[i] = [a - f * b for a, b in zip(rows[i], rows[k])]
        k += 1
    return k


def run_cell(R, item):
    cell, gdim = item
    s = Session(R.root)
    c = CELLS[cell]
    n = c["tdim"]
    xs = X(n)
    xg = X(gdim)
    tag = f"{cell} in {gdim}D"

    def alts(v):
        d = s.data(v)
        if has_top(d):
            raise Unknown("imprecise")
        return list(each_alt(d))

    def interp_ok(comp, targets, con, rule):
        """comp: map components; must send default vertex i to targets[i]."""
        if len(comp) != gdim:
            return R.bad(rule, con, f"has {len(comp)} components, expected {gdim}")
        for i, v in enumerate(c["verts"]):
            try:
                got = [subs_pt(q, xs, [Rat.const(z) for z in v]) for q in comp]
            except ZeroDivisionError:
                # removable singularity: substitute one coordinate at a time
                got = []
                for q in comp:
                    for x, z in zip(xs, v):
                        q = rsubs(q, {sid(x): Rat.const(z)})
                    got.append(q)
            bad = [j for j in range(gdim) if not got[j] == targets[i][j]]
            R.ob(not bad, rule, f"{con} vertex {i}", lambda: f"sends reference vertex {i} to {got!r}"[:400])

    w = free_vertices(cell, gdim)
    av, A, b = affine_image(cell, gdim)
    aff = [b[i] + sum((A[i][j] * xs[j] for j in range(n)), R0) for i in range(gdim)]

    def fwd_to():
        ref = make(s, cell)
        con = f"get_map_to: {tag}"
        for comp in alts(s.meth(ref, "get_map_to", s.tup(*w))):
            interp_ok(comp, w, con, "map-to interpolates vertices")
        for comp in alts(s.meth(ref, "get_map_to", s.tup(*av))):
            R.ob(data_eq(comp, aff), "map-to is affine for an affine image", con, lambda: f"is {comp!r}"[:400])
    R.guard("map-to", f"get_map_to: {tag}", fwd_to, sess=s)

    def fwd_self():
        con = f"get_map_to_self: {tag}"
        ref = make(s, cell, w)
        for comp in alts(s.meth(ref, "get_map_to_self")):
            interp_ok(comp, w, con, "map-to-self interpolates vertices")
        ref = make(s, cell, av)
        first = s.meth(ref, "get_map_to_self")
        for comp in alts(first):
            R.ob(data_eq(comp, aff), "map-to-self is affine for an affine image", con, lambda: f"is {comp!r}"[:400])
        again = s.meth(ref, "get_map_to_self")
        for comp in alts(again):
            R.ob(data_eq(comp, aff), "repeated call returns the same map", con, lambda: f"second call gives {comp!r}"[:400])
    R.guard("map-to-self", f"get_map_to_self: {tag}", fwd_self, sess=s)

    def inverse_of(comp, con, rule):
        if len(comp) != n:
            return R.bad(rule, con, f"inverse map has {len(comp)} components, expected {n}")
        got = [subs_pt(q, xg, aff) for q in comp]
        R.ob(all(rsame(g, x) for g, x in zip(got, xs)), rule, con, lambda: f"inverse(map(x)) = {got!r}"[:600])

    def inv_self():
        con = f"get_inverse_map_to_self: {tag}"
        ref = make(s, cell, av)
        for k in (1, 2):
            for comp in alts(s.meth(ref, "get_inverse_map_to_self")):
                inverse_of(comp, con + (" (repeated)" if k == 2 else ""), "inverse-map-to-self inverts map-to-self")
    R.guard("inverse-map-to-self", f"get_inverse_map_to_self: {tag}", inv_self, sess=s)

    # cells in special position: aligned with the coordinate axes, reflected, permuted
    unit = [[1 if i == j else 0 for i in range(gdim)] for j in range(gdim)]
    cols = unit + [[-q for q in u] for u in unit] + [[1] * gdim, [2 if i == 0 else 1 if i == 1 else 0 for i in range(gdim)]]
    picks = [p for p in permutations(cols, n) if Rank(p) == n]
    step = max(1, len(picks) // 60)
    seen = set()
    for p in picks[::step] + [tuple(q) for q in permutations(unit, n)]:
        if str(p) in seen:
            continue
        seen.add(str(p))
        for o in ([0] * gdim, [3, 0, -2][:gdim]):
            vs = [[Rat.const(o[i] + sum(p[j][i] * v[j] for j in range(n))) for i in range(gdim)] for v in c["verts"]]
            faff = [Rat.const(o[i]) + sum((Rat.const(p[j][i]) * xs[j] for j in range(n)), R0) for i in range(gdim)]
            what = f"{tag}, vertex 0 at {o}, axes {[list(q) for q in p]}"

            def special():
                ref = make(s, cell, vs)
                for comp in alts(s.meth(ref, "get_map_to_self")):
                    R.ob(data_eq(comp, faff), "map-to-self is affine for an affine image", what, lambda: f"is {comp!r}"[:400])
                for comp in alts(s.meth(ref, "get_inverse_map_to_self")):
                    got = [subs_pt(q, xg, faff) for q in comp]
                    R.ob(len(got) == n and all(rsame(g, x) for g, x in zip(got, xs)), "inverse-map-to-self inverts map-to-self", what, lambda: f"inverse(map(x)) = {got!r}"[:600])
                if n == gdim:
                    f = s.fn_atom("p", n)
                    for comp in alts(s.meth(ref, "map_polyset_from_default", s.lst(s.scalar(f), s.num(f)))):
                        for i in range(2):
                            got = subs_pt(comp[i], xg, faff)
                            R.ob(rsame(got, f), "polynomial set is pulled back through the inverse map", what, lambda: f"p(map(x)) becomes {got!r}"[:400])
                dref = make(s, cell)
                for comp in alts(s.meth(dref, "get_map_to", s.tup(*[s.tup(*v) for v in vs]))):
                    R.ob(data_eq(comp, faff), "map-to is affine for an affine image", what, lambda: f"is {comp!r}"[:400])
                if n == gdim:
                    for comp in alts(s.meth(dref, "get_inverse_map_to", s.tup(*[s.tup(*v) for v in vs]))):
                        got = [subs_pt(q, xg, faff) for q in comp]
                        R.ob(len(got) == n and all(rsame(g, x) for g, x in zip(got, xs)), "inverse-map-to inverts map-to", what, lambda: f"inverse(map(x)) = {got!r}"[:600])
            R.guard("special position", what, special, sess=s)

    if gdim == n:
        def inv_to():
            con = f"get_inverse_map_to: {tag}"
            ref = make(s, cell)
            for comp in alts(s.meth(ref, "get_inverse_map_to", s.tup(*av))):
                inverse_of(comp, con, "inverse-map-to inverts map-to")
        R.guard("inverse-map-to", f"get_inverse_map_to: {tag}", inv_to, sess=s)

        def get_pt():
            con = f"get_point: {tag}"
            if cell != "interval" and False:
                return
            ref = make(s, cell, av)
            for comp in alts(s.meth(ref, "get_point", s.tup(*xs))):
                R.ob(data_eq(comp, aff), "get_point agrees with the map to self", con, lambda: f"is {comp!r}"[:400])
        R.guard("get_point", f"get_point: {tag}", get_pt, sess=s)

        def polyset():
            con = f"map_polyset_from_default: {tag}"
            ref = make(s, cell, av)
            f = s.fn_atom("p", n)
            # a generic (non-default) cell
            for i in range(n):
                s.it.assume(("cmp", "!=", b[i]))
                s.it.assume(("cmp", "!=", A[i][i] - R1))
            out = s.meth(ref, "map_polyset_from_default", s.lst(s.scalar(f)))
            for comp in alts(out):
                if len(comp) != 1:
                    R.bad("polynomial set is pulled back through the inverse map", con, f"{len(comp)} functions out of one")
                    continue
                got = subs_pt(comp[0], xg, aff)
                R.ob(rsame(got, f), "polynomial set is pulled back through the inverse map", con, lambda: f"p(map(x)) becomes {got!r}"[:400])
            dref = make(s, cell)
            out = s.meth(dref, "map_polyset_from_default", s.lst(s.scalar(f)))
            for comp in alts(out):
                R.ob(data_eq(comp, [f]), "polynomial set is unchanged on the default cell", con, lambda: f"{comp!r}"[:400])
        R.guard("polyset", f"map_polyset_from_default: {tag}", polyset, sess=s)
    R.absorb(s)


def run(R):
    R.floor = 90
    R.explanation = ("Value numbering over rational-function terms: cells are built with fully symbolic vertices and the "
                     "terms of the forward and inverse maps are compared with interpolation, affinity and inversion "
                     "identities, which therefore hold for every choice of vertices.")
    from sa.report import parallel
    items = [(c, g) for c in CELLS for g in range(CELLS[c]["tdim"], 4) if not (c in ("prism",) and g != 3)]
    items.sort(key=lambda i: -len(CELLS[i[0]]["verts"]) * i[1])
    parallel(R, run_cell, items)
