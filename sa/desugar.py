"""Rewrites syntax the interpreter does not execute directly into equivalent syntax that it does: match statements
become if/elif chains and dataclasses get the methods their decorator generates."""
import ast


class _Desugar(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.datafields = {}

    # -- match
    def visit_Match(self, node):
        self.generic_visit(node)
        self.n += 1
        subj = f"__match{self.n}"
        out = [ast.Assign(targets=[ast.Name(subj, ast.Store())], value=node.subject)]
        chain = None
        for case in reversed(node.cases):
            try:
                conds = []
                self.pattern(case.pattern, ast.Name(subj, ast.Load()), conds)
            except NotImplementedError:
                return node
            if case.guard is not None:
                conds.append(case.guard)
            test = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds) if conds else ast.Constant(True)
            chain = ast.If(test=test, body=case.body, orelse=[chain] if chain is not None else [])
        out.append(chain)
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out

    def pattern(self, p, e, conds):
        L = ast.Load()
        if isinstance(p, ast.MatchValue):
            conds.append(ast.Compare(e, [ast.Eq()], [p.value]))
        elif isinstance(p, ast.MatchSingleton):
            conds.append(ast.Compare(e, [ast.Is()], [ast.Constant(p.value)]))
        elif isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self.pattern(p.pattern, e, conds)
            if p.name is not None:
                conds.append(ast.List([ast.NamedExpr(ast.Name(p.name, ast.Store()), e)], L))
        elif isinstance(p, ast.MatchOr):
            alts = []
            for q in p.patterns:
                c = []
                self.pattern(q, e, c)
                alts.append(c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c) if c else ast.Constant(True))
            conds.append(ast.BoolOp(ast.Or(), alts))
        elif isinstance(p, ast.MatchSequence):
            conds.append(ast.Call(ast.Name("isinstance", L), [e, ast.Tuple([ast.Name("list", L), ast.Name("tuple", L)], L)], []))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = ast.Call(ast.Name("len", L), [e], [])
            if not star:
                conds.append(ast.Compare(n, [ast.Eq()], [ast.Constant(len(p.patterns))]))
            else:
                conds.append(ast.Compare(n, [ast.GtE()], [ast.Constant(len(p.patterns) - 1)]))
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name is not None:
                        after = len(p.patterns) - 1 - i
                        hi = ast.UnaryOp(ast.USub(), ast.Constant(after)) if after else None
                        sl = ast.Subscript(e, ast.Slice(ast.Constant(i), hi, None), L)
                        conds.append(ast.List([ast.NamedExpr(ast.Name(q.name, ast.Store()), ast.Call(ast.Name("list", L), [sl], []))], L))
                    continue
                k = i - len(p.patterns) if star and i > star[0] else i
                idx = ast.Constant(k) if k >= 0 else ast.UnaryOp(ast.USub(), ast.Constant(-k))
                self.pattern(q, ast.Subscript(e, idx, L), conds)
        elif isinstance(p, ast.MatchClass):
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "float", "tuple", "list", "bool", "dict", "set") and not p.kwd_attrs:
                    conds.append(ast.Call(ast.Name("isinstance", L), [e, p.cls], []))
                    return self.pattern(p.patterns[0], e, conds)
                raise NotImplementedError
            conds.append(ast.Call(ast.Name("isinstance", L), [e, p.cls], []))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                self.pattern(q, ast.Attribute(e, a, L), conds)
        else:
            raise NotImplementedError

    # -- with suppress(...)
    def visit_With(self, node):
        self.generic_visit(node)
        for i, w in enumerate(node.items):
            c = w.context_expr
            if isinstance(c, ast.Call) and ast.unparse(c.func) in ("suppress", "contextlib.suppress") and not c.keywords:
                inner = node.body if i + 1 == len(node.items) else [ast.With(items=node.items[i + 1:], body=node.body)]
                t = ast.Try(body=inner, handlers=[ast.ExceptHandler(type=ast.Tuple(c.args, ast.Load()), name=None, body=[ast.Pass()])],
                            orelse=[], finalbody=[])
                out = t if i == 0 else ast.With(items=node.items[:i], body=[t])
                return ast.fix_missing_locations(ast.copy_location(out, node))
        return node

    # -- cached properties
    def cached(self, node):
        body = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and any(ast.unparse(d).split(".")[-1] == "cached_property" for d in s.decorator_list):
                n = s.name
                s.name = f"_uncached_{n}"
                s.decorator_list = [d for d in s.decorator_list if ast.unparse(d).split(".")[-1] != "cached_property"]
                f = ast.parse(f"@property\ndef {n}(self):\n    if not hasattr(self, '_cached_{n}'):\n        self._cached_{n} = self._uncached_{n}()\n    return self._cached_{n}").body[0]
                for q in ast.walk(f):
                    if hasattr(q, "lineno"):
                        q.lineno = q.end_lineno = s.lineno
                body += [s, f]
            else:
                body.append(s)
        node.body = body

    # -- dataclasses
    def visit_ClassDef(self, node):
        self.generic_visit(node)
        self.cached(node)
        for d in node.decorator_list:
            if ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass":
                self.dataclass(node)
                node.decorator_list = [q for q in node.decorator_list if q is not d]
                break
        return node

    def dataclass(self, node):
        fields = []
        for b in node.bases:
            fields += self.datafields.get(ast.unparse(b).split(".")[-1], [])
        body = []
        for s in node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                fields = [f for f in fields if f[0] != s.target.id] + [(s.target.id, s.value)]
                if s.value is None or (isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "field"):
                    continue
            body.append(s)
        self.datafields[node.name] = fields
        have = {s.name for s in node.body if isinstance(s, ast.FunctionDef)}
        names = [f for f, _ in fields]
        extra = []
        if "__init__" not in have:
            sig, lines = [], []
            for f, v in fields:
                fac = None
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "field":
                    kw = {k.arg: k.value for k in v.keywords}
                    fac, v = kw.get("default_factory"), kw.get("default")
                if fac is not None:
                    sig.append(f"{f}=None")
                    lines.append(f"self.{f} = {ast.unparse(fac)}() if {f} is None else {f}")
                else:
                    sig.append(f if v is None else f"{f}={ast.unparse(v)}")
                    lines.append(f"self.{f} = {f}")
            if "__post_init__" in have:
                lines.append("self.__post_init__()")
            extra.append(f"def __init__({', '.join(['self'] + sig)}):\n" + "".join(f"    {q}\n" for q in lines or ["pass"]))
        if "__eq__" not in have:
            tup = lambda o: "(" + "".join(f"{o}.{f}, " for f in names) + ")"
            extra.append(f"def __eq__(self, other):\n    if other.__class__ is not self.__class__:\n        return NotImplemented\n    return {tup('self')} == {tup('other')}\n")
        for src in extra:
            f = ast.parse(src).body[0]
            for q in ast.walk(f):
                if hasattr(q, "lineno"):
                    q.lineno = q.end_lineno = node.lineno
            body.append(f)
        node.body = body or [ast.Pass()]


def parse(src):
    return _Desugar().visit(ast.parse(src))
