"""Creating elements by name, what they say about themselves, and making them again from their keyword arguments."""
from checks.sweep import *
from checks.common import eq, true_, refuses

STUB = '''
from symfem.create import create_element, create_reference, add_element
from symfem.finite_element import CiarletElement, FiniteElement
from symfem.functionals import PointEvaluation
class Plain(CiarletElement):
    names = ["stub plain", "stub other name"]
    references = ["triangle", "hexahedron", "interval"]
    min_order = 2
    max_order = 4
    def __init__(self, reference, order, variant="equispaced", depth=7):
        self.variant = variant
        self.depth = depth
        super().__init__(reference, order, [1], [PointEvaluation(reference, reference.vertices[0], entity=(0, 0))], reference.tdim, 1)
class PerCell(CiarletElement):
    names = ["stub per cell"]
    references = ["triangle", "quadrilateral", "interval"]
    min_order = {"triangle": 3, "quadrilateral": 1}
    max_order = {"quadrilateral": 2, "interval": 5}
    def __init__(self, reference, order):
        super().__init__(reference, order, [1], [PointEvaluation(reference, reference.vertices[0], entity=(0, 0))], reference.tdim, 1)
class Unbounded(CiarletElement):
    names = ["stub unbounded"]
    references = ["triangle"]
    def __init__(self, reference, order):
        super().__init__(reference, order, [1], [PointEvaluation(reference, reference.vertices[0], entity=(0, 0))], reference.tdim, 1)
class Nameless(CiarletElement):
    names = []
    references = ["triangle"]
class Clash(CiarletElement):
    names = ["stub plain"]
    references = ["triangle"]
class Shares(CiarletElement):
    names = ["stub plain"]
    references = ["quadrilateral"]
    min_order = 0
    def __init__(self, reference, order):
        super().__init__(reference, order, [1], [PointEvaluation(reference, reference.vertices[0], entity=(0, 0))], reference.tdim, 1)
class NotAnElement:
    names = ["stub not an element"]
    references = ["triangle"]
def register():
    for c in (Plain, PerCell, Unbounded, Shares, Plain): add_element(c)
def add(c): add_element(c)
def base(): return FiniteElement
def instance(): return Plain(create_reference("triangle"), 2)
def make(cell, name, order): return create_element(cell, name, order)
def make_kw(cell, name, order, v, d): return create_element(cell, name, order, variant=v, depth=d)
def make_at(cell, name, order, vs): return create_element(cell, name, order, vertices=vs)
def kind(e): return e.__class__.__name__
def is_plain(e): return e.__class__ == Plain
def is_percell(e): return e.__class__ == PerCell
def is_unbounded(e): return e.__class__ == Unbounded
def is_shares(e): return e.__class__ == Shares
def facts(e): return (e.order, e.reference.name, e.name)
def extras(e): return (e.variant, e.depth)
def where(e): return e.reference.vertices
def dims(e): return (e.domain_dim, e.range_dim, e.space_dim)
def shape(e): return e.range_shape
def maximum(e): return e.maximum_degree
def names(e): return e.names
'''


def S(s, n):
    return s.attr(s.stub15, n)


def prog(R):
    s = session(R)
    s.stub15 = s.probe(STUB, "stub15_probe_")
    s.call(S(s, "register"))
    return s


def creating(R):
    s = prog(R)
    good = [("triangle", "stub plain", 2, "plain"), ("triangle", "stub plain", 3, "plain"), ("triangle", "stub plain", 4, "plain"),
            ("triangle", "stub other name", 3, "plain"), ("hexahedron", "stub plain", 2, "plain"), ("hexahedron", "stub other name", 4, "plain"),
            ("interval", "stub other name", 2, "plain"), ("quadrilateral", "stub plain", 0, "shares"), ("quadrilateral", "stub plain", 9, "shares"),
            ("triangle", "stub per cell", 3, "percell"), ("triangle", "stub per cell", 12, "percell"), ("quadrilateral", "stub per cell", 1, "percell"),
            ("quadrilateral", "stub per cell", 2, "percell"), ("interval", "stub per cell", 0, "percell"), ("interval", "stub per cell", 5, "percell"),
            ("triangle", "stub unbounded", 0, "unbounded"), ("triangle", "stub unbounded", 11, "unbounded")]
    for cell, name, order, what in good:
        con = f"create_element({cell!r}, {name!r}, {order})"

        def go():
            e = s.call(S(s, "make"), cell, name, order)
            true_(R, s, "creates the class registered for the cell", con, lambda: s.call(S(s, "is_" + what), e))
            f = plain(s, s.call(S(s, "facts"), e))
            R.ob(f[0] == order and f[1] == cell, "order and cell", con, f"order {f[0]!r} on a {f[1]!r}")
        R.guard("creates the class registered for the cell", con, go, sess=s)
    bad = [("triangle", "stub plain", 1), ("triangle", "stub plain", 0), ("triangle", "stub plain", 5), ("triangle", "stub other name", 5), ("hexahedron", "stub other name", 1),
           ("triangle", "stub per cell", 2), ("quadrilateral", "stub per cell", 0), ("quadrilateral", "stub per cell", 3), ("interval", "stub per cell", 6)]
    for cell, name, order in bad:
        declines(R, s, "order out of range is refused", f"create_element({cell!r}, {name!r}, {order})", lambda: s.call(S(s, "make"), cell, name, order))
    for cell, name, order in [("tetrahedron", "stub plain", 2), ("prism", "stub plain", 2), ("quadrilateral", "stub other name", 3), ("hexahedron", "stub per cell", 1),
                              ("quadrilateral", "stub unbounded", 1), ("point", "stub plain", 2)]:
        declines(R, s, "cell that is not listed is refused", f"create_element({cell!r}, {name!r}, {order})", lambda: s.call(S(s, "make"), cell, name, order))
    for cell, name, order in [("triangle", "stub plai", 2), ("triangle", "Plain", 2), ("triangle", "", 2), ("triangle", "no such element", 1)]:
        declines(R, s, "unknown name is refused", f"create_element({cell!r}, {name!r}, {order})", lambda: s.call(S(s, "make"), cell, name, order))
    declines(R, s, "unknown cell is refused", "create_element('circle', ...)", lambda: s.call(S(s, "make"), "circle", "stub plain", 2))
    con = "create_element(..., variant='left', depth=3)"

    def kw():
        e = s.call(S(s, "make_kw"), "triangle", "stub plain", 2, "left", 3)
        R.ob(plain(s, s.call(S(s, "extras"), e)) == ["left", 3], "keyword arguments reach the element", con)
        e = s.call(S(s, "make"), "triangle", "stub plain", 2)
        R.ob(plain(s, s.call(S(s, "extras"), e)) == ["equispaced", 7], "keyword arguments reach the element", con + " (defaults)")
    R.guard("keyword arguments reach the element", con, kw, sess=s)
    V = [[sym(f"v{i}{j}") for j in range(2)] for i in range(3)]
    eq(R, s, "vertices reach the cell", "create_element('triangle', ..., vertices)",
       lambda: s.call(S(s, "where"), s.call(S(s, "make_at"), "triangle", "stub plain", 2, s.tup(*[s.tup(*v) for v in V]))), V)
    W = [[sym(f"w{i}{j}") for j in range(3)] for i in range(3)]
    declines(R, s, "cell of lower dimension than its space is refused", "create_element of a triangle in 3D",
             lambda: s.call(S(s, "make_at"), "triangle", "stub plain", 2, s.tup(*[s.tup(*v) for v in W])))
    declines(R, s, "cell of lower dimension than its space is refused", "create_element of an interval in 2D",
             lambda: s.call(S(s, "make_at"), "interval", "stub plain", 2, s.tup(*[s.tup(*v) for v in V[:2]])))
    # registering
    for con, c in (("an instance", s.call(S(s, "instance"))), ("FiniteElement itself", s.call(S(s, "base"))), ("a class that is not an element", S(s, "NotAnElement")),
                   ("a class without names", S(s, "Nameless")), ("a second class of the same name and cell", S(s, "Clash"))):
        refuses(R, s, "what cannot be registered is refused", f"add_element of {con}", lambda: s.call(S(s, "add"), c), values=())
    true_(R, s, "creates the class registered for the cell", "after refused registrations", lambda: s.call(S(s, "is_plain"), s.call(S(s, "make"), "triangle", "stub plain", 2)))
    R.absorb(s)


def declines(R, s, rule, con, thunk):
    """Every path raises."""
    refuses(R, s, rule, con, thunk)


def registered(R):
    """Every element class in symfem.elements can be found under each of its names on each of its cells."""
    s = session(R)
    table = {k: dict(dict_items(s, v)) for k, v in dict_items(s, s.get("symfem.create._elementmap")).items()} if True else None
    want = {}
    for cls, names, refs, lo, hi, c in registry(s):
        for n in names:
            for r in refs:
                want.setdefault((n, r), []).append((cls, c))
    for (n, r), cs in sorted(want.items()):
        con = f"{n!r} on {r}"
        R.ob(len({id(c) for _, c in cs}) == 1, "one class per name and cell", con, f"{[q for q, _ in cs]}")
        got = table.get(n, {}).get(r)
        R.ob(got is cs[0][1], "name leads to the class", con, f"leads to {got!r}, listed by {cs[0][0]}")
    for n, t in table.items():
        for r in t:
            R.ob((n, r) in want, "name leads to the class", f"{n!r} on {r}", f"leads to {t[r]!r}, which does not list it")
    # every class defined in symfem.elements that has names
    import ast
    listed = {q[0] for q in registry(s)}
    d = os.path.join(R.root, "symfem", "elements")
    base = s.get("symfem.finite_element.FiniteElement")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(d, fn)) as f:
            tree = ast.parse(f.read())
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                try:
                    c = s.get(f"symfem.elements.{fn[:-3]}.{n.name}")
                    if base in c.mro() and s.data(s.attr(c, "names")):
                        R.ob(c.name in listed, "every element class is registered", f"{fn}: {n.name}", "not in the table of elements")
                except (Unknown, AnchorLost, Dead) as e:
                    R.unknown("every element class is registered", f"{fn}: {n.name}", repr(e))
    R.absorb(s)


def total(cell, ex):
    ex = tuple(ex) + (0,) * (3 - len(ex))
    if cell in ("interval", "triangle", "tetrahedron"):
        return sum(ex)
    if cell == "prism":
        return max(ex[0] + ex[1], ex[2])
    return max(ex)


def describe(R, item):
    s = shared(R, 20_000_000)
    if not hasattr(s, "stub15"):
        s.stub15 = s.probe(STUB, "stub15_probe_")
    cls, name, cell, order, kw = item
    lab = label(item)
    try:
        x = Extract(s, item)
        e = x.e
        facts = plain(s, s.call(S(s, "facts"), e))
    except Dead:
        R.note(f"{lab}: not created")      # decided by C11
        return
    except (Unknown, Budget, NotLinear, ZeroDivisionError) as q:
        R.unknown("order and cell", lab, repr(q))
        R.absorb(s)
        return
    R.ob(facts[0] == order and facts[1] == (cell if not cell.startswith("dual") else facts[1]), "order and cell", lab, f"order {facts[0]!r} on a {facts[1]!r}")
    R.ob(facts[2] == plain(s, s.call(S(s, "names"), e))[0], "name is the first name", lab, f"name is {facts[2]!r}")
    tdim = TDIM.get(cell, 2)

    def dims():
        dd, rd, sd = plain(s, s.call(S(s, "dims"), e))
        R.ob(dd == tdim, "domain dimension", lab, f"domain_dim is {dd}")
        if x.fs is None:
            return
        R.ob(sd == len(x.fs), "space dimension", lab, f"space_dim is {sd} for {len(x.fs)} functions")
        shapes = set()
        for f in x.fs:
            for d in ([f[1]] if f[0] == "all" else [q for _, q in f[1]]):
                shapes.add((len(d), len(d[0])) if isinstance(d, list) and isinstance(d[0], list) else (len(d),) if isinstance(d, list) else ())
        R.ob(len(shapes) == 1, "functions of one shape", lab, f"{shapes}")
        sh = shapes.pop()
        size = 1
        for q in sh:
            size *= q
        R.ob(rd == size, "range dimension", lab, f"range_dim is {rd} for functions of shape {sh}")
        rs = s.data(s.call(S(s, "shape"), e))
        rs = None if rs is None else tuple(unrat(rs))
        R.ob(rs == sh if len(sh) == 2 else rs in (None, sh) or (sh == () and rs in ((), (1,))), "range shape", lab, f"range_shape is {rs} for functions of shape {sh}")
        vt = plain(s, s.call(P(s, "value_type"), e))
        word = ["scalar", "vector", "matrix"][len(sh)]
        R.ob(word in vt or (tdim == 1 and sh == ()), "value type", lab, f"value_type is {vt!r} for functions of shape {sh}")
        pw = any(f[0] == "pw" for f in x.fs)
        if not cell.startswith("dual"):
            R.ob(pw == ("macro" in vt), "value type", f"{lab} (macro)", f"value_type is {vt!r} but its functions are {'' if pw else 'not '}piecewise")
        if "symmetric" in vt:
            sym_ok = all(d[i][j] == d[j][i] for f in x.fs for d in ([f[1]] if f[0] == "all" else [q for _, q in f[1]]) for i in range(len(d)) for j in range(i))
            R.ob(sym_ok, "value type", f"{lab} (symmetric)", f"value_type is {vt!r} but there are functions that are not symmetric")
    R.guard("domain dimension", lab, dims, sess=s)

    def degree():
        if not x.ciarlet or x.space.pieces is not None or cell == "pyramid" or not x.space.polynomial:
            return
        want = max(total(cell, ex_) for f in x.fs for r in flatten(f[1]) for ex_ in exponents(r))
        got = plain(s, s.call(S(s, "maximum"), e))
        if not isinstance(got, int):
            raise Unknown(repr(got)[:80])
        R.ob(got == want, "maximum degree", lab, f"maximum_degree is {got}, its polynomials have degree {want}")
    R.guard("maximum degree", lab, degree, sess=s)

    def again():
        if x.fs is None:
            return
        y = Extract(s, item, forms=False, e=s.call(P(s, "recreate"), e))
        R.ob(len(x.fs) == len(y.fs) and all(fsame(a, b) for a, b in zip(x.fs, y.fs)), "made again: functions", lab, "the polynomials differ")
        if x.ciarlet:
            R.ob(len(x.dofs) == len(y.dofs), "made again: DOFs", lab, f"{len(x.dofs)} and {len(y.dofs)} DOFs")
            for i, (d, f) in enumerate(zip(y.dofs, x.forms)):
                R.ob(x.space.apply(d) == f, "made again: DOFs", f"{lab}: DOF {i}", "the functionals differ")
    R.guard("made again: functions", lab, again, sess=s)
    R.absorb(s)


def fsame(a, b):
    return a[0] == b[0] and (data_eq(a[1], b[1]) if a[0] == "all" else len(a[1]) == len(b[1]) and all(data_eq(p, q) for (_, p), (_, q) in zip(a[1], b[1])))


def exponents(r):
    ids = [sid(sym(q)) for q in ("x", "y", "z")]
    for m in r.num.t:
        d = dict(m)
        yield [d.get(i, 0) for i in ids]


def run(R):
    R.floor = 60
    R.explanation = ("Abstract interpretation of create_element and add_element on stub classes covering every branch, of the element table, and of every registered "
                     "constructor: what the element says about itself against its functions, and the element made from its init_kwargs against the original.")
    creating(R)
    registered(R)
    s = session(R)
    items = sweep_items(s, 4 if R.thorough else 2, 2 if R.thorough else 1)
    run_deadline(R, describe, items, 1800 if R.thorough else 80)
