"""Helpers a later edit extracted are put back where they are called.

The rules were confirmed on the functions listed in sa/known_functions.txt.  A function that is not
listed is a helper somebody split off since; when every use of it is a plain call, its body replaces
the call (parameters bound, local names kept apart, returns turned into the assignment the caller
makes) and the definition goes.  What cannot be put back exactly is left alone and is analysed as
an ordinary function.
"""
import ast
import copy
import os

from .normal import FUNCS, SCOPES, first, leaves, plain, pure, walk_own

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.txt")
ROUNDS = 8


class Line(float):
    """a line number between two lines: where an inlined statement stands"""
    def __str__(self):
        return str(int(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(int(self), spec)


def known():
    try:
        with open(TABLE, encoding="utf-8") as fh:
            return {ln.strip() for ln in fh if ln.strip() and not ln.startswith("#")}
    except OSError:
        return None


def functions(name, tree):
    """(qualified name, holder list, node, class or None, enclosing function or None) of every function of a module"""
    out = []

    def go(body, prefix, cls, outer):
        for s in body:
            if isinstance(s, FUNCS):
                q = f"{prefix}.{s.name}"
                out.append((q, body, s, cls, outer))
                go_stmts(s.body, q, None, s)
            elif isinstance(s, ast.ClassDef):
                go(s.body, f"{prefix}.{s.name}", s, None)
            else:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        go(b, prefix, cls, outer)
                for h in getattr(s, "handlers", ()):
                    go(h.body, prefix, cls, outer)

    def go_stmts(body, prefix, cls, outer):
        go(body, prefix, cls, outer)
    go(tree.body, name, None, None)
    return out


class Helper:
    def __init__(self, q, holder, node, cls, outer, module):
        self.q, self.holder, self.node, self.cls, self.outer, self.module = q, holder, node, cls, outer, module
        self.name = node.name
        decos = [ast.unparse(d).replace(" ", "") for d in node.decorator_list]
        self.static = "staticmethod" in decos
        self.klass = "classmethod" in decos
        self.prop = "property" in decos
        self.ok = all(d in ("staticmethod", "classmethod", "property") or d.startswith("logger.catch") for d in decos) and not isinstance(node, ast.AsyncFunctionDef)
        a = node.args
        self.ok &= a.vararg is None and a.kwarg is None and not (node.name.startswith("__") and node.name.endswith("__"))
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        self.body = body
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.ok &= all(isinstance(d, (ast.Constant, ast.Name)) or isinstance(d, ast.Tuple) and all(isinstance(x, ast.Constant) for x in d.elts) or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) for d in self.defaults.values())
        self.bound = cls is not None and not self.static
        self.ok &= not self.bound or bool(self.params)
        if self.klass and self.params:
            self.ok &= not any(isinstance(n, ast.Name) and n.id == self.params[0] for s in node.body for n in ast.walk(s))
        for n in ast.walk(node):
            if n is not node and isinstance(n, FUNCS + (ast.ClassDef, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                self.ok = False
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == self.name or isinstance(n.func, ast.Name) and n.func.id in (self.name, "locals", "super", "currentframe")):
                self.ok = False
            if isinstance(n, ast.Attribute) and n.attr == "currentframe":
                self.ok = False
        self.stored = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.stored.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.stored.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.stored.update((x.asname or x.name).split(".")[0] for x in n.names)
            elif isinstance(n, ast.Lambda):
                self.stored.update(x.arg for x in n.args.args)

    @property
    def expression(self):
        return self.body[0].value if len(self.body) == 1 and isinstance(self.body[0], ast.Return) and self.body[0].value is not None else None


class Cannot(Exception):
    pass


# ---------------------------------------------------------------- returns -> the caller's statement
def has_return(s):
    return any(isinstance(n, ast.Return) for n in walk_own([s]))


def tail(block, sink):
    """the block with every way of leaving it ending in what the caller does with the value"""
    out = []
    for i, s in enumerate(block):
        rest = block[i + 1:]
        if isinstance(s, ast.Return):
            return out + sink(s.value, s)
        if isinstance(s, ast.Raise):
            return out + [s]
        if not has_return(s):
            out.append(s)
            continue
        if isinstance(s, ast.If):
            bl, ol = leaves(s.body), bool(s.orelse) and leaves(s.orelse)
            if rest and not bl and not ol and sum(1 for r in rest for _ in ast.walk(r)) > 400:
                raise Cannot
            s.body = tail(s.body + ([] if bl else copy.deepcopy(rest) if not ol else rest), sink) or [ast.copy_location(ast.Pass(), s)]
            s.orelse = tail(s.orelse + ([] if ol else rest), sink)
            return out + [s]
        if isinstance(s, (ast.For, ast.While)):
            if s.orelse or any(isinstance(n, ast.Break) for n in walk_own(s.body, (ast.For, ast.While))):
                raise Cannot
            loop_returns(s.body, sink)
            s.orelse = tail(rest, sink)
            return out + [s]
        if isinstance(s, ast.With):
            if rest and not leaves(s.body):
                raise Cannot
            s.body = tail(s.body, sink) or [ast.copy_location(ast.Pass(), s)]
            return out + [s]
        if isinstance(s, ast.Try) and not s.finalbody:
            inside = any(has_return(x) for x in s.body)
            if inside:
                if s.orelse or rest and not leaves(s.body):
                    raise Cannot
                s.body = tail(s.body, sink)
            elif leaves(s.body):
                pass
            else:
                s.orelse = tail(s.orelse + copy.deepcopy(rest), sink)
            for h in s.handlers:
                h.body = tail(h.body + ([] if leaves(h.body) else copy.deepcopy(rest)), sink) or [ast.copy_location(ast.Pass(), h)]
            return out + [s]
        raise Cannot
    return out + sink(None, block[-1] if block else None)


def loop_returns(body, sink):
    i = 0
    while i < len(body):
        s = body[i]
        if isinstance(s, ast.Return):
            body[i:] = sink(s.value, s) + [ast.copy_location(ast.Break(), s)]
            return
        if has_return(s):
            if isinstance(s, ast.If):
                loop_returns(s.body, sink)
                loop_returns(s.orelse, sink)
            elif isinstance(s, ast.With):
                loop_returns(s.body, sink)
            elif isinstance(s, ast.Try) and not s.finalbody:
                loop_returns(s.body, sink)
                loop_returns(s.orelse, sink)
                for h in s.handlers:
                    loop_returns(h.body, sink)
            else:
                raise Cannot
        i += 1


class Subst(ast.NodeTransformer):
    def __init__(self, exprs, names):
        self.exprs, self.names = exprs, names

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.exprs[n.id]), n)
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n

    def visit_alias(self, n):
        nm = (n.asname or n.name).split(".")[0]
        if nm in self.names:
            n.asname = self.names[nm]
        return n

    def visit_Lambda(self, n):
        for a in n.args.args:
            if a.arg in self.names:
                a.arg = self.names[a.arg]
        self.generic_visit(n)
        return n


def shift(nodes, at, base):
    """the statements stand at the call, in their own order"""
    for s in nodes:
        for n in ast.walk(s):
            if hasattr(n, "lineno"):
                n.lineno = Line(at + max(n.lineno - base, 0) / 100000.0 + 0.00001)
                if getattr(n, "end_lineno", None) is not None:
                    n.end_lineno = Line(at + max(n.end_lineno - base, 0) / 100000.0 + 0.00001)


class Inliner:
    def __init__(self, modules, table):
        self.modules = modules      # name -> tree
        self.table = table
        self.done = []

    def run(self):
        for _ in range(ROUNDS):
            cands = self.candidates()
            if not cands:
                return self.done
            if not self.round(cands):
                return self.done
        return self.done

    def candidates(self):
        self.every, out = {}, {}
        self.bases, self.methods = {}, {}
        for m, tree in self.modules.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef):
                    self.bases[n.name] = [b.id if isinstance(b, ast.Name) else b.attr for b in n.bases if isinstance(b, (ast.Name, ast.Attribute))]
            for q, holder, node, cls, outer in functions(m, tree):
                h = Helper(q, holder, node, cls, outer, m)
                h.new = q not in self.table
                self.every.setdefault(node.name, []).append(h)
                if cls is not None:
                    self.methods.setdefault((cls.name, node.name), []).append(h)
                if h.new and h.ok and h.body:
                    out.setdefault(node.name, []).append(h)
        return out

    def method(self, cls, name):
        """the one method `self.name` can reach from a method of cls"""
        below = {cls}
        while True:
            more = {c for c, bs in self.bases.items() if c not in below and any(b in below for b in bs)}
            if not more:
                break
            below |= more
        if any((c, name) in self.methods for c in below - {cls}):
            return None
        todo, seen = [cls], set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            hs = self.methods.get((c, name))
            if hs:
                return hs[0] if len(hs) == 1 else None
            todo.extend(self.bases.get(c, ()))
        return None

    # ------------------------------------------------------------ finding the calls
    def round(self, cands):
        self.cands = cands
        self.changed = False
        self.left = {}
        for m, tree in self.modules.items():
            self.module = m
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name in cands:
                            self.left[a.name] = 9
        for m, tree in self.modules.items():
            self.module = m
            for q, holder, node, cls, outer in functions(m, tree):
                self.fn, self.scope, self.cls = node, self.names_of(node), cls
                self.in_try = any(isinstance(n, ast.Try) for n in ast.walk(node))
                node.body = self.block(node.body)
        refs = {}
        for tree in self.modules.values():
            for n in ast.walk(tree):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
                if nm in cands:
                    refs[nm] = refs.get(nm, 0) + 1
        used = {q for _, q in self.done}
        for nm, hs in cands.items():
            # the definitions go together: a use that is left may reach any of them
            if self.keep or nm in refs or nm in self.left:
                continue
            for h in hs:
                if h.q in used and any(x is h.node for x in h.holder):
                    h.holder[:] = [x for x in h.holder if x is not h.node] or [ast.copy_location(ast.Pass(), h.node)]
                    self.changed = True
        return self.changed

    @staticmethod
    def names_of(fn):
        out = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}
        for n in ast.walk(fn):
            if isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, FUNCS):
                out.add(n.name)
        return out

    def helper(self, call):
        """the helper a call reaches, with the receiver"""
        if not isinstance(call, ast.Call):
            return None
        f = call.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm not in self.cands or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        h = self.reach(nm, f)
        return h if h is not None and not h.prop and h.node is not self.fn else None

    def reach(self, nm, f):
        """the helper a name or attribute stands for"""
        hs = self.cands[nm]
        if isinstance(f, ast.Name):
            near = [h for h in hs if h.cls is None and h.module == self.module]
            inner = [h for h in near if h.outer is self.fn]
            if inner:
                return inner[0] if len(inner) == 1 else None
            near = [h for h in near if h.outer is None]
            every = [h for h in self.every[nm] if h.cls is None and h.outer is None and h.module == self.module]
            return near[0] if len(near) == 1 and len(every) == 1 and nm not in self.bound_names(self.fn) else None
        if not plain(f.value):
            return None
        recv = f.value
        if isinstance(recv, ast.Name) and recv.id in ("self", "cls") and self.cls is not None:
            h = self.method(self.cls.name, nm)
        else:
            h = hs[0] if len(self.every[nm]) == 1 and nm.startswith("_") else None
        return h if h is not None and h.new and h.ok and h.body and h.cls is not None and h.module == self.module else None

    @staticmethod
    def bound_names(fn):
        return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)}

    def arguments(self, h, call):
        ps = list(h.params)
        got = {}
        if h.bound:
            recv = call.func.value
            got[ps[0]] = recv
            ps = ps[1:]
        if len(call.args) > len(ps):
            raise Cannot
        got.update(zip(ps, call.args))
        for k in call.keywords:
            if k.arg in got or k.arg not in ps + h.kwonly:
                raise Cannot
            got[k.arg] = k.value
        for p in ps + h.kwonly:
            if p not in got:
                if p not in h.defaults:
                    raise Cannot
                got[p] = copy.deepcopy(h.defaults[p])
        return got

    def expand(self, h, call, dead=()):
        """(binding statements, renamed copy of the body)"""
        got = self.arguments(h, call)
        names, exprs, binds = {}, {}, []
        caller = self.scope
        keep = set()
        for p, a in got.items():
            if isinstance(a, ast.Name) and a.id == p and p in dead and p in h.stored:
                keep.add(p)
                continue
            if p not in h.stored and isinstance(a, (ast.Name, ast.Constant)):
                if isinstance(a, ast.Name) and a.id == p:
                    keep.add(p)
                    continue
                exprs[p] = a
                continue
            new = p if p not in caller else self.fresh(p, h)
            if new != p:
                names[p] = new
            binds.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(new, ast.Store()), call)], a), call))
            caller.add(new)
        for v in sorted(h.stored - set(got)):
            if v in caller:
                names[v] = self.fresh(v, h)
                caller.add(names[v])
            else:
                caller.add(v)
        body = copy.deepcopy(h.body)
        sub = Subst(exprs, names)
        body = [sub.visit(s) for s in body]
        base = min((n.lineno for s in h.body for n in ast.walk(s) if hasattr(n, "lineno")), default=0)
        shift(body, call.lineno, base)
        return binds, body

    def fresh(self, v, h):
        k = 1
        while f"{v}_{k}" in self.scope:
            k += 1
        return f"{v}_{k}"

    # ------------------------------------------------------------ statements
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, FUNCS + (ast.ClassDef,)):
                out.append(s)
                continue
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, self.block(b))
            for h in getattr(s, "handlers", ()):
                h.body = self.block(h.body)
            for c in getattr(s, "cases", ()):
                c.body = self.block(c.body)
            out.extend(self.statement(s))
        return out

    def statement(self, s):
        self.in_expressions(s)
        v = getattr(s, "value", None)
        try:
            if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) and v is not None and self.helper(v):
                return self.whole(s, v)
            if isinstance(s, ast.AnnAssign) and v is not None and self.helper(v) and isinstance(s.target, ast.Name):
                return self.whole(ast.copy_location(ast.Assign([s.target], v), s), v)
            f = {ast.If: "test", ast.Return: "value", ast.Assign: "value", ast.Expr: "value", ast.AugAssign: "value", ast.For: "iter", ast.Raise: "exc"}.get(type(s))
            if f and getattr(s, f) is not None:
                for holder, fld, k in [(s, f, None)] + first(getattr(s, f)):
                    e = getattr(holder, fld) if k is None else getattr(holder, fld)[k]
                    if self.helper(e):
                        tmp = self.fresh("value", None) if "value" in self.scope else "value"
                        asg = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(tmp, ast.Store()), e)], e), s)
                        new = self.whole(asg, e)
                        self.scope.add(tmp)
                        nm = ast.copy_location(ast.Name(tmp, ast.Load()), e)
                        if k is None:
                            setattr(holder, fld, nm)
                        else:
                            getattr(holder, fld)[k] = nm
                        return new + self.statement(s)
        except Cannot:
            pass
        return [s]

    def whole(self, s, call):
        h = self.helper(call)
        scope = set(self.scope)
        try:
            # the caller does not read these again
            dead = self.scope if isinstance(s, ast.Return) and not self.in_try else {n.id for t in getattr(s, "targets", ()) for n in ast.walk(t) if isinstance(n, ast.Name)}
            binds, body = self.expand(h, call, dead)
            if isinstance(s, ast.Return):
                new = body if leaves(body) or s is self.fn.body[-1] else body + [ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s)]
            elif isinstance(s, ast.Expr):
                new = tail(body, lambda v, at: [] if v is None or pure(v) else [ast.copy_location(ast.Expr(v), at)])
            else:
                new = tail(body, lambda v, at: [ast.copy_location(ast.Assign(copy.deepcopy(s.targets), v if v is not None else ast.copy_location(ast.Constant(None), s)), at or s)])
        except Cannot:
            self.scope = scope
            raise
        self.changed = True
        self.done.append((h.name, h.q))
        return (binds + new) or [ast.copy_location(ast.Pass(), s)]

    def in_expressions(self, s):
        """helpers that are one expression are put back anywhere"""
        inl = self

        class T(ast.NodeTransformer):
            def generic_visit(self, n):
                if isinstance(n, ast.stmt) and n is not s:
                    return n
                return super().generic_visit(n)

            def visit_Attribute(self, n):
                self.generic_visit(n)
                h = inl.reach(n.attr, n) if n.attr in inl.cands else None
                if h is not None and h.prop and h.expression is not None and h.node is not inl.fn and isinstance(n.ctx, ast.Load):
                    e = Subst({h.params[0]: n.value}, {}).visit(copy.deepcopy(h.expression))
                    shift([e], n.lineno, h.expression.lineno)
                    inl.changed = True
                    inl.done.append((h.name, h.q))
                    return e
                return n

            def visit_Call(self, n):
                self.generic_visit(n)
                h = inl.helper(n)
                if h is None or h.expression is None or h.stored & inl.scope:
                    return n
                try:
                    got = inl.arguments(h, n)
                except Cannot:
                    return n
                for p, a in got.items():
                    uses = sum(isinstance(x, ast.Name) and x.id == p for x in ast.walk(h.expression))
                    if p in h.stored or not (pure(a) or plain(a) or uses == 1 and len(got) <= 2 or uses <= 1 and sum(not (pure(b) or plain(b)) for b in got.values()) == 1):
                        return n
                e = Subst(got, {}).visit(copy.deepcopy(h.expression))
                shift([e], n.lineno, h.expression.lineno)
                inl.changed = True
                inl.done.append((h.name, h.q))
                return e
        # headers only: the blocks were handled before
        for f, v in ast.iter_fields(s):
            if f in ("body", "orelse", "finalbody", "handlers", "cases"):
                continue
            if isinstance(v, ast.expr):
                setattr(s, f, T().visit(v))
            elif isinstance(v, list):
                setattr(s, f, [T().visit(x) if isinstance(x, ast.expr) else x for x in v])
            if f == "items":
                for it in v:
                    it.context_expr = T().visit(it.context_expr)


def inline(modules, table=None, keep=False):
    """modules: name -> tree; table: the functions to leave alone (None: the recorded ones)"""
    table = known() if table is None else table
    if table is None:
        return []
    i = Inliner(modules, table)
    i.keep = keep
    return i.run()
