"""Unisolvence: the DOFs of every Ciarlet element are as many as, and linearly independent on, its polynomial space."""
from checks.sweep import *


def one(R, item):
    s = shared(R, 60_000_000 if R.thorough else 20_000_000)
    lab = label(item)
    variant = "variant" in item[4]
    try:
        x = Extract(s, item, False)
    except Dead:
        if refused(s, variant, item):
            R.ok("creation", lab + " (refused)")
        else:
            R.bad("creation", lab, "creating the element raises " + where(s))
        R.absorb(s)
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as e:
        R.unknown("creation", lab, repr(e))
        R.absorb(s)
        return
    R.ok("creation", lab)
    if not x.ciarlet:
        if x.direct:
            def go():
                n = plain(s, s.attr(x.e, "space_dim"))
                R.ob(n == len(x.fs), "dimension", lab, f"space_dim is {n} with {len(x.fs)} basis functions")
                R.ob(rank(x.space.rows) == len(x.fs), "independent functions", lab, f"{len(x.fs)} functions of rank {rank(x.space.rows)}")
            R.guard("dimension", lab, go, sess=s)
        R.absorb(s)
        return
    n = len(x.fs)
    R.ob(len(x.dofs) == n, "as many DOFs as polynomials", lab, f"{len(x.dofs)} DOFs for {n} polynomials")

    def indep():
        if not x.space.polynomial:
            v = vectors(x.fs)
            R.ob(rank(v) == n, "independent functions", lab, f"{n} functions span a space of dimension {rank(v)}")
        else:
            r = rank(x.space.rows)
            R.ob(r == n, "independent functions", lab, f"{n} functions span a space of dimension {r}")
    R.guard("independent functions", lab, indep, sess=s)

    def dual():
        try:
            dual = [x.space.on_basis(x.space.apply(d)) for d in x.dofs]
        except NotLinear:
            raise Unknown("a functional is not a linear form")
        r = rank(dual)
        R.ob(r == len(dual), "unisolvence", lab, f"the {len(dual)} DOFs have rank {r} on the polynomial space")
    R.guard("unisolvence", lab, dual, sess=s)
    R.absorb(s)


def run(R):
    R.floor = 60
    R.explanation = ("Abstract interpretation of every element constructor for constant (cell, order, variant): its functionals are "
                     "applied to a generic function of the space with opaque coefficients; the resulting linear forms must be independent.")
    s = session(R)
    items = sweep_items(s, 5 if R.thorough else 3, 3 if R.thorough else 1, heavy=R.thorough)
    run_deadline(R, one, items, 2400 if R.thorough else 110)
