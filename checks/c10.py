"""Functionals are compatible with their mapping: a DOF of a mapped cell applied to the pushed-forward function is the
DOF of the default cell applied to the function."""
from sa.query import *
from checks.common import *
from checks.geom import CELLS, make
from checks.c04 import spec as mapping_spec
from checks.c09 import (IMAGES, PROBE, cells_of, cst, Dom, entity, value, F)
from fractions import Fraction as Fr

MAPS = {"s": ("identity", "l2"), "v": ("identity", "covariant", "contravariant"),
        "m": ("identity", "double_covariant", "double_contravariant")}


def functions(s, n, kind):
    if kind == "s":
        return s.scalar(s.fn_atom("f", n)), s.fn_atom("f", n)
    if kind == "v":
        v = fvec(s, "f", n, n)
        return s.vector(v), v
    m = fmat(s, "f", n, n, n)
    return s.matrix(m), m


def mapping(R, cell, which):
    """perform_mapping applies the functional's own mapping to every function."""
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    P = lambda q: s.attr(m, q)
    n = CELLS[cell]["tdim"]
    for k, (tag, ref, img) in enumerate(cells_of(s, cell, IMAGES)):
        if k != which or img is None:
            continue
        fwd = s.meth(ref, "get_map_to_self")
        inv = s.meth(ref, "get_inverse_map_to_self")
        dfwd, dinv = s.data(fwd), s.data(inv)
        default = make(s, cell)
        ent = s.tup(n, 0)
        pt = s.tup(*[Rat.const(Fr(1, 5))] * n)
        dof = s.call(P("Dof"), pt, None)
        g = s.num(s.fn_atom("g", n))
        gv = s.tup(*fvec(s, "g", n, n))

        def objs(kind, mp):
            yield "PointEvaluation", s.call(s.get(F + "PointEvaluation"), default, pt, entity=ent, mapping=mp)
            yield "WeightedPointEvaluation", s.call(s.get(F + "WeightedPointEvaluation"), default, pt, 2, entity=ent, mapping=mp)
            yield "DotPointEvaluation", s.call(s.get(F + "DotPointEvaluation"), default, pt, pt, entity=ent, mapping=mp)
            yield "PointInnerProduct", s.call(s.get(F + "PointInnerProduct"), default, pt, pt, pt, entity=ent, mapping=mp)
            yield "IntegralAgainst", s.call(s.get(F + "IntegralAgainst"), default, g, entity=ent, mapping=mp)
            yield "IntegralMoment", s.call(s.get(F + "IntegralMoment"), default, g, dof, entity=ent, mapping=mp)
            if n > 1:
                yield "PointDirectionalDerivativeEvaluation", s.call(s.get(F + "PointDirectionalDerivativeEvaluation"), default, pt, pt,
                                                                      entity=ent, mapping=mp)
                yield "PointDivergenceEvaluation", s.call(s.get(F + "PointDivergenceEvaluation"), default, pt, entity=ent, mapping=mp)
                yield "IntegralOfDivergenceAgainst", s.call(s.get(F + "IntegralOfDivergenceAgainst"), default, g, entity=ent, mapping=mp)
                yield "DivergenceIntegralMoment", s.call(s.get(F + "DivergenceIntegralMoment"), default, g, dof, entity=ent, mapping=mp)
                e = s.tup(1, 0)
                yield "TangentIntegralMoment", s.call(s.get(F + "TangentIntegralMoment"), default, g, dof, entity=e, mapping=mp)
                e = s.tup(n - 1, 0)
                for c in ("NormalIntegralMoment", "NormalDerivativeIntegralMoment", "NormalInnerProductIntegralMoment"):
                    yield c, s.call(s.get(F + c), default, g, dof, entity=e, mapping=mp)
        for kind, mps in MAPS.items():
            fun, d = functions(s, n, kind)
            for mp in mps:
                want = mapping_spec(mp, d, dfwd, dinv, X(n), True, n)
                for nm, o in objs(kind, mp):
                    value(R, s, "perform_mapping applies the mapping", f"{F}{nm} with mapping {mp} to {tag}",
                          lambda: s.meth(o, "perform_mapping", s.lst(fun, fun), fwd, inv), [want, want])
        f0, _ = functions(s, n, "s")
        refuses(R, s, "derivative functionals refuse mapping", f"{F}DerivativePointEvaluation to {tag}",
                lambda: s.meth(s.call(s.get(F + "DerivativePointEvaluation"), default, pt, s.tup(*[1] * n), entity=ent),
                               "perform_mapping", s.lst(f0), fwd, inv))
        refuses(R, s, "derivative functionals refuse mapping", f"{F}IntegralOfDirectionalMultiderivative to {tag}",
                lambda: s.meth(s.call(s.get(F + "IntegralOfDirectionalMultiderivative"), default, s.tup(s.tup(*[1] * n)), s.tup(1),
                                      entity=ent), "perform_mapping", s.lst(f0), fwd, inv))
    R.absorb(s)


def invariance(R, cell, which):
    s = Session(R.root)
    s.it.structural = True
    m = s.probe(PROBE)
    P = lambda q: s.attr(m, q)
    n = CELLS[cell]["tdim"]
    default = make(s, cell)
    for k, (tag, ref, img) in enumerate(cells_of(s, cell, IMAGES)):
        if k != which or img is None:
            continue
        fwd, inv = s.meth(ref, "get_map_to_self"), s.meth(ref, "get_inverse_map_to_self")
        A, b = img
        for dim in range(0, n + 1):
            for i in range(int(s.data(s.meth(ref, "sub_entity_count", dim)).const_value())):
                ent = s.tup(dim, i)
                e, nm, v = (None, "vertex", [s.data(s.attr(default, "vertices"))[i]]) if dim == 0 else entity(s, default, dim, i)

                def check(cls, args, kind, mp, dof=None, args2=None):
                    con = f"{F}{cls} ({'svm'.index(kind) and kind or 's'}, {mp or 'the default mapping'}) on entity ({dim}, {i}) of {tag}"
                    def go():
                        kw = {"entity": ent, "mapping": mp} if mp else {"entity": ent}
                        if dof is not None:
                            kw["dof"] = dof
                        o0 = s.call(s.get(F + cls), default, *args, **dict(kw))
                        o1 = s.call(s.get(F + cls), ref, *(args2 or args), **dict(kw))
                        fun, _ = functions(s, n, kind)
                        want = s.data(s.meth(o0, "eval_symbolic", fun))
                        want = list(each_alt(want))
                        if len(want) != 1 or has_top(want):
                            raise Unknown("default value")
                        pushed = s.it.getitem(s.meth(o0, "perform_mapping", s.lst(fun), fwd, inv), 0)
                        value(R, s, "invariance under mapping", con, lambda: s.meth(o1, "eval_symbolic", pushed), want[0])
                    R.guard("invariance under mapping", con, go, sess=s)
                if dim == 0:
                    p = v[0]
                    q = [b[r] + sum((A[r][c] * p[c] for c in range(n)), R0) for r in range(n)]
                    check("PointEvaluation", [s.tup(*p)], "s", "identity", args2=[s.tup(*q)])
                    continue
                D = Dom(nm, v)
                g = s.num(s.fn_atom("g", dim))
                dof = s.call(P("Dof"), s.tup(*[Rat.const(Fr(1, 5))] * dim), None)
                p = [z + sum((D.axes[j][r] * Rat.const(Fr(1, 5)) for j in range(dim)), R0) for r, z in enumerate(D.v[0])]
                q = [b[r] + sum((A[r][c] * p[c] for c in range(n)), R0) for r in range(n)]
                check("PointEvaluation", [s.tup(*p)], "s", "identity", args2=[s.tup(*q)])
                check("PointEvaluation", [s.tup(*p)], "s", None, args2=[s.tup(*q)])
                check("IntegralMoment", [g], "s", "identity", dof)
                check("IntegralMoment", [g], "s", "l2", dof)
                h = s.tup(*[s.fn_atom(f"h{r}", dim) for r in range(n)])
                check("IntegralMoment", [h], "v", "covariant", dof)
                check("IntegralMoment", [h], "v", "contravariant", dof)
                if dim == 2 and n == 3:
                    h2 = s.tup(*[s.fn_atom(f"h{r}", dim) for r in range(2)])
                    check("IntegralMoment", [h2], "v", "covariant", dof)
                    check("IntegralMoment", [h2], "v", "contravariant", dof)
                if dim == 1 and n > 1:
                    check("TangentIntegralMoment", [g], "v", "covariant", dof)
                    check("TangentIntegralMoment", [g], "v", None, dof)
                if dim == n - 1 and n > 1:
                    check("NormalIntegralMoment", [g], "v", "contravariant", dof)
                    check("NormalIntegralMoment", [g], "v", None, dof)
    R.absorb(s)


def one(R, item):
    (mapping if item[0] == "mapping" else invariance)(R, item[1], item[2])


def run(R):
    R.floor = 100
    R.explanation = ("Abstract interpretation: every functional maps functions with its own mapping, and moments and point "
                     "evaluations on an affine image of a cell applied to the mapped opaque function give the term of the "
                     "functional on the default cell.")
    from sa.report import parallel
    items = []
    for c, im in IMAGES.items():
        for k in range(len(im)):
            items += [("mapping", c, k + 1), ("invariance", c, k + 1)]
    parallel(R, one, items)
