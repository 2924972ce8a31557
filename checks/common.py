"""Shared helpers: compare an abstract value with expected data, expect a refusal."""
from sa.query import *


def eq(R, s, rule, con, thunk, want, where=""):
    """The value computed by thunk equals `want` on every feasible alternative."""
    def go():
        v = thunk()
        got = s.data(v)
        if has_top(got):
            raise Unknown(f"imprecise {got!r}"[:160])
        bad = [a for a in each_alt(got) if not data_eq(a, want)]
        R.ob(not bad, rule, con, lambda: f"computes {bad[0]!r}, expected {want!r}"[:600], where)
    R.guard(rule, con, go, sess=s)


def eq_or_refuses(R, s, rule, con, thunk, want):
    """Right value or an exception on every path."""
    it = s.it
    mark, n = len(it.trail), len(it.uncaught)
    try:
        thunk()
    except Dead:
        del it.uncaught[n:]
        R.ok(rule, con)
        return
    except (Unknown, Budget) as e:
        R.unknown(rule, con, repr(e))
        return
    eq(R, s, rule, con, thunk, want)


def true_(R, s, rule, con, thunk, want=True):
    """A boolean result."""
    def go():
        v = thunk()
        if isinstance(v, bool):
            R.ob(v is want, rule, con, f"gives {v}")
        elif v is NOTIMPL:
            R.bad(rule, con, "gives NotImplemented")
        else:
            alts = [v]
            if isinstance(v, Phi):
                alts = [x for _, x in v.alts]
            if all(isinstance(a, bool) for a in alts):
                R.ob(all(a is want for a in alts), rule, con, f"gives {alts}")
            else:
                raise Unknown(repr(v)[:120])
    R.guard(rule, con, go, sess=s)


def refuses(R, s, rule, con, thunk, values=()):
    """Every path raises (NotImplemented returned from a reflected chain is turned into TypeError by the engine)."""
    it = s.it
    mark, n = len(it.trail), len(it.uncaught)
    try:
        v = thunk()
        if any(v is x for x in values):
            R.ok(rule, con)
        elif isinstance(v, (Top, Phi)):
            R.unknown(rule, con, repr(v)[:100])
        else:
            try:
                d = s.data(v)
                if has_top(d):
                    R.unknown(rule, con, "imprecise")
                    return
            except Exception:
                d = v
            R.bad(rule, con, f"returns {d!r} instead of raising"[:400])
    except Dead:
        R.ok(rule, con)
    except (Unknown, Budget) as e:
        R.unknown(rule, con, repr(e))
    finally:
        del it.uncaught[n:]


class _NI:
    pass


NOTIMPL = _NI()


def fvec(s, name, n, dims=3):
    return [s.fn_atom(f"{name}{i}", dims) for i in range(n)]


def fmat(s, name, r, c, dims=3):
    return [[s.fn_atom(f"{name}{i}{j}", dims) for j in range(c)] for i in range(r)]
