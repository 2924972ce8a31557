"""Sweeps over the registered elements: which (element, cell, order, variant) combinations are analysed, and in which order."""
import multiprocessing as mp
import os
import sys
import time
import traceback
from checks.elements import *
from sa.interp import Budget, Dead
from sa.query import Unknown, AnchorLost
from sa.report import Report

TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}
VARIANTS = ("equispaced", "legendre", "lobatto", "gll", "radau")


def init_defaults(c):
    """Keyword arguments of an element's constructor beyond reference and order, with constant defaults."""
    init, _ = c.lookup("__init__")
    a = init.node.args
    names = [x.arg for x in a.args]
    ds = [None] * (len(names) - len(a.defaults)) + [getattr(d, "value", None) for d in a.defaults]
    kw = {x.arg: getattr(d, "value", None) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    out = {k: d for k, d in list(zip(names, ds))[3:]}
    out.update(kw)
    return out


def sweep_items(s, extra, vextra, variants=VARIANTS, heavy=False):
    """Default arguments for `extra` orders; every other variant for `vextra` orders."""
    defaults = {cls: init_defaults(c) for cls, names, refs, lo, hi, c in registry(s)}
    first = catalogue(s, 1)
    low = {(i[0], i[2]): i[3] for i in first}
    out = []
    for it in catalogue(s, max(extra, vextra)):
        cls, name, cell, order, kw = it
        off = order - low[cls, cell]
        hv = (cls, cell) in HEAVY
        if hv and not (heavy and off == 0):
            continue
        if off < extra:
            out.append((off, 1 if kw or hv else 0, it))
        if off < vextra and not hv and cls != "Transition" and "variant" in defaults[cls]:
            for v in variants:
                if v != defaults[cls]["variant"]:
                    out.append((off, 1, it[:4] + ({"variant": v},)))
    out.sort(key=lambda q: (q[0], q[1], -TDIM.get(q[2][2], 2), q[2][0], q[2][2], str(q[2][4])))
    return [q[2] for q in out]


def run_deadline(R, fn, items, seconds, workers=8):
    """Run fn(sub report, item) on items in order until the time is used up; what is not reached is noted."""
    t0 = time.time()
    ctx = mp.get_context("fork")
    done = 0
    if os.environ.get("SA_SERIAL"):
        for i in items:
            fn(R, i)
        return
    pool = ctx.Pool(min(workers, max(1, len(items))), maxtasksperchild=40)
    try:
        res = pool.imap_unordered(_job, [(fn, R.pid, R.tier, R.root, i, t0 + seconds) for i in items])
        while done < len(items):
            left = t0 + seconds + 60 - time.time()
            if left <= 0:
                break
            try:
                out = res.next(timeout=left)
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            done += 1
            if "late" in out:
                R.notreached = getattr(R, "notreached", 0) + 1
                continue
            if "error" in out:
                if out.get("anchor"):
                    raise AnchorLost(out["error"])
                print(out["error"], file=sys.stderr)
                R.unknown("internal", out["item"], out["error"].strip().splitlines()[-1])
                continue
            R.merge(out)
    finally:
        pool.terminate()
    R.notreached = getattr(R, "notreached", 0) + len(items) - done
    R.assumptions = list(R.assumptions) + [f"{len(items)} combinations listed, {R.notreached} not reached within {seconds} s"]


def _job(a):
    fn, pid, tier, root, item, dl = a
    if time.time() > dl:
        return {"late": True}
    sys.setrecursionlimit(20000)
    r = Report(pid, tier, root)
    try:
        fn(r, item)
    except AnchorLost as e:
        return {"error": str(e), "anchor": True, "item": repr(item)[:100]}
    except Exception:
        discard()
        return {"error": traceback.format_exc(), "item": repr(item)[:100]}
    if r.undecided:
        discard()
    return r.export()


def where(s):
    """Description of the last exception the analysed program raised."""
    return repr(s.it.uncaught[-1])[:300] if s.it.uncaught else ""


def exc_name(s):
    """Name of the class of the last exception the analysed program raised."""
    e = s.it.uncaught[-1][0] if s.it.uncaught else ""
    return getattr(e, "name", e)


def refused(s, variant, item):
    """The program declined: a variant that does not exist for the element, or an order that is explicitly not implemented."""
    if not s.it.uncaught:
        return False
    e = exc_name(s)
    if variant:
        return e in ("NotImplementedError", "ValueError", "NonDefaultReferenceError", "AssertionError")
    return e == "NotImplementedError" and item[3] > 2
