"""C31: decorators hand every argument to the operation and return exactly its result.

For every decorator application in the package whose decorator is a package
function, the closure it returns is checked with a small forward dataflow:
per path, how often the wrapped callable was called, with which arguments, and
which locals hold its result.  Library decorators are compared with the list of
those that leave outcomes alone.
"""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted, deco_name
from .c13 import full_name

TRANSPARENT = {"property", "classmethod", "staticmethod", "abstractmethod", "abc.abstractmethod", "functools.wraps", "loguru.logger.catch", "deprecat.deprecat",
               "functools.total_ordering", "typing.overload", "typing.final", "functools.singledispatch", "dataclasses.dataclass", "attrs.define", "attrs.frozen",
               "attr.s", "attr.attrs", "contextlib.contextmanager", "functools.cached_property", "typing.no_type_check", "deprecated.deprecated", "typing.override"}
CHANGES = {"functools.lru_cache": "returns a remembered result instead of running the operation", "functools.cache": "returns a remembered result instead of running the operation",
           "functools.singledispatchmethod": "runs a different operation for some arguments", "functools.partial": "fixes arguments of the operation",
           "contextlib.suppress": "drops exceptions", "atexit.register": "runs the operation at exit"}
MUTATORS = {"pop", "clear", "update", "setdefault", "popitem", "append", "extend", "remove", "insert", "sort", "reverse"}

RES, OTHER = "result of the operation", "something else"


class Path:
    __slots__ = ("env", "ncall", "bad")

    def __init__(self, env=None, ncall=frozenset([0]), bad=()):
        self.env = dict(env or {})
        self.ncall = ncall
        self.bad = list(bad)

    def copy(self):
        return Path(self.env, self.ncall, self.bad)


def join(ps):
    ps = [p for p in ps if p is not None]
    if not ps:
        return None
    r = ps[0].copy()
    for p in ps[1:]:
        r.ncall = r.ncall | p.ncall
        for k in set(r.env) | set(p.env):
            a, b = r.env.get(k, OTHER), p.env.get(k, OTHER)
            r.env[k] = a if a == b else (OTHER if "lost" not in (a, b) else "lost")
        r.bad += [x for x in p.bad if x not in r.bad]
    return r


class Wrapper:
    """one closure `w` around the callable named `fn`"""

    def __init__(self, prog, f, w, fn, report):
        self.prog, self.f, self.w, self.fn, self.report = prog, f, w, fn, report
        self.ncalls = 0
        self.returns = []       # (what, node, path)

    def run(self):
        w = self.w
        p0 = Path({w.vararg: "args", w.kwarg: "kwargs"} if True else {})
        for p in w.params + w.kwonly:
            p0.env[p] = ("param", p)
        p0.env[self.fn] = "fn"
        out = self.block(w.node.body, p0)
        if out is not None:
            self.returns.append((None, w.node, out))

    def good_call(self, c, p):
        """problem text, or None when every argument goes through unchanged"""
        w = self.w
        want = list(w.params)
        pos = list(c.args)
        for a in w.params:
            if pos and not isinstance(pos[0], ast.Starred) and self.val(pos[0], p) == ("param", a):
                pos.pop(0)
                want.remove(a)
        kws = {k.arg: k.value for k in c.keywords}
        for a in list(want) + list(w.kwonly):
            if a in kws and self.val(kws[a], p) == ("param", a):
                kws.pop(a)
                if a in want:
                    want.remove(a)
            elif a in w.kwonly:
                return f"the keyword argument '{a}' is not handed on"
        if want:
            return f"the argument '{want[0]}' is not handed on"
        if w.vararg:
            if not (pos and isinstance(pos[0], ast.Starred) and self.val(pos[0].value, p) == "args"):
                return "the positional arguments are not handed on as they came"
            pos.pop(0)
        if w.kwarg:
            if None not in kws or self.val(kws[None], p) != "kwargs":
                return "the keyword arguments are not handed on as they came"
            kws.pop(None)
        if pos or kws:
            return "the operation receives an argument the caller did not give"
        return None

    def val(self, e, p):
        if e is None:
            return OTHER
        if isinstance(e, ast.Name):
            return p.env.get(e.id, OTHER)
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, p)
            p.env[e.target.id] = v
            return v
        if isinstance(e, ast.Await):
            return self.val(e.value, p)
        if isinstance(e, ast.IfExp):
            self.val(e.test, p)
            a, b = p.copy(), p.copy()
            x, y = self.val(e.body, a), self.val(e.orelse, b)
            j = join([a, b])
            p.env, p.ncall, p.bad = j.env, j.ncall, j.bad
            return x if x == y else OTHER
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and p.env.get(e.func.id) == "fn":
                for a in ast.iter_child_nodes(e):
                    self.val(a, p) if isinstance(a, ast.expr) else None
                self.ncalls += 1
                prob = self.good_call(e, p)
                if prob:
                    self.report("arguments", prob, e)
                p.ncall = frozenset(min(2, n + 1) for n in p.ncall)
                return RES
            d = dotted(e.func)
            if d in ("tuple", "list", "dict") and len(e.args) == 1 and not e.keywords:
                v = self.val(e.args[0], p)
                if v in ("args", "kwargs"):
                    return v
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                v = p.env.get(e.func.value.id)
                if v in ("args", "kwargs") and e.func.attr == "copy":
                    return v
                if v in ("args", "kwargs") and e.func.attr in MUTATORS:
                    p.env[e.func.value.id] = "lost"
                if v == RES and e.func.attr in MUTATORS:
                    p.env[e.func.value.id] = OTHER
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return OTHER
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.val(ch, p)
            elif isinstance(ch, (ast.keyword, ast.comprehension)):
                for c2 in ast.iter_child_nodes(ch):
                    if isinstance(c2, ast.expr):
                        self.val(c2, p)
        return OTHER

    def store(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, OTHER, p)
        elif isinstance(t, ast.Starred):
            self.store(t.value, OTHER, p)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and p.env.get(t.value.id) in ("args", "kwargs", RES):
            p.env[t.value.id] = "lost"

    def block(self, body, p):
        for s in body:
            if p is None:
                return None
            p = self.stmt(s, p)
        return p

    def stmt(self, s, p):
        if isinstance(s, ast.Return):
            v = self.val(s.value, p)
            self.returns.append((v, s, p))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.Expr):
            self.val(s.value, p)
            return p
        if isinstance(s, ast.Assign):
            v = self.val(s.value, p)
            for t in s.targets:
                self.store(t, v, p)
            return p
        if isinstance(s, ast.AnnAssign):
            self.store(s.target, self.val(s.value, p), p)
            return p
        if isinstance(s, ast.AugAssign):
            self.val(s.value, p)
            self.store(s.target, "lost" if isinstance(s.target, ast.Name) and p.env.get(s.target.id) in ("args", "kwargs") else OTHER, p)
            return p
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.store(t, "lost", p)
            return p
        if isinstance(s, ast.If):
            self.val(s.test, p)
            t = s.test
            if isinstance(t, ast.Constant):
                return self.block(s.body if t.value else s.orelse, p)
            a = self.block(s.body, p.copy())
            b = self.block(s.orelse, p.copy())
            return join([a, b])
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.val(s.test, p)
                forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            else:
                self.val(s.iter, p)
                forever = False
            q = p.copy()
            if not isinstance(s, ast.While):
                self.store(s.target, OTHER, q)
            q1 = self.block(s.body, q)
            q2 = None
            if q1 is not None:
                q2 = self.block(s.body, q1.copy())
            brk = [n for n in ast.walk(s) if isinstance(n, ast.Break)]
            if forever and not brk:
                return None
            return self.block(s.orelse, join([p if not forever else None, q1, q2] + ([p] if brk and forever else []))) if True else None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.val(it.context_expr, p)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, OTHER, p)
            return self.block(s.body, p)
        if isinstance(s, ast.Try):
            before = p.copy()
            b = self.block(s.body, p)
            if b is not None:
                b = self.block(s.orelse, b)
            outs = [b]
            for h in s.handlers:
                hp = before.copy()
                if h.name:
                    hp.env[h.name] = OTHER
                outs.append(self.block(h.body, hp))
            j = join(outs)
            if s.finalbody:
                j2 = self.block(s.finalbody, j if j is not None else before.copy())
                return j2 if j is not None else None
            return j
        return p


def wrapper_of(prog, f):
    """(nested function, name of the wrapped callable) the decorator returns, or a problem text"""
    first = f.params[0] if f.params else f.vararg
    inner = []

    def find(g):
        for n in g.nested.values():
            called = {c.func.id for c in ast.walk(n.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)}
            names = [g.params[0]] if g.params else []
            hit = [x for x in names if x in called]
            if hit:
                inner.append((g, n, hit[0]))
            find(n)
    find(f)
    return inner, first


def check(prog, res):
    seen = {}
    for f in prog.funcs.values():
        for d in f.decorators:
            name = deco_name(d)
            res.count("decorator_applications")
            last = name.split(".")[-1]
            if last in ("setter", "getter", "deleter") and "." in name:
                continue
            tgt = prog.resolve_name(f.module, name) if "." not in name else None
            full = full_name(prog, f.module, None, name) or name
            if tgt and tgt[0] == "func" or (tgt is None and full in prog.funcs):
                g = tgt[1] if tgt and tgt[0] == "func" else prog.funcs[full]
                seen.setdefault(g.qual, (g, []))[1].append(f)
                continue
            if f.outer is not None and name in f.outer.all_params:
                continue
            if full in TRANSPARENT or name in TRANSPARENT or full.split(".")[-1] in ("deprecat", "deprecated"):
                continue
            if full in CHANGES:
                res.add(f"{f.qual}|@{full}", f"{f.qual} is wrapped in @{full}, which {CHANGES[full]}", f.loc())
                continue
            if tgt and tgt[0] == "class":
                res.undec(f"{f.qual}: decorated with the class {name}")
                continue
            res.undec(f"{f.qual}: decorator {full} is not in the list of known library decorators")
    for f in list(prog.funcs.values()):
        # public decorators the package offers without using them itself
        if f.outer is None and f.qual not in seen and any(w.vararg or w.kwarg for _, w, fn in wrapper_of(prog, f)[0]):
            seen[f.qual] = (f, [])
    for q, (g, users_) in sorted(seen.items()):
        inner, first = wrapper_of(prog, g)
        res.sample(f"{q} wraps {len(users_)} operations")
        if not inner:
            # a decorator that returns its argument leaves the outcome alone
            rets = [r for r in ast.walk(g.node) if isinstance(r, ast.Return)]
            if rets and all(isinstance(r.value, ast.Name) and r.value.id == first for r in rets):
                res.count("wrappers")
                continue
            named = [c for n in g.nested.values() for c in ast.walk(n.node) if isinstance(c, ast.Name) and c.id == first and isinstance(c.ctx, ast.Load)]
            # `func.__name__` alone does not run the operation
            named = [c for c in named if not any(isinstance(a, ast.Attribute) and a.value is c for n in g.nested.values() for a in ast.walk(n.node))]
            if g.nested and not named:
                res.add(f"{q}|calls", f"the wrapper built by {q} never calls the operation it wraps ({len(users_)} decorated operations)", g.loc())
            else:
                res.undec(f"{q}: no closure calling the decorated function was recognised")
            continue
        for outer, w, fn in inner:
            res.count("wrappers")

            def rep(kind, msg, node, q=q, g=g, n=len(users_)):
                res.add(f"{q}|{kind}|{msg}", f"wrapper of {q} ({n} decorated operations): {msg}", g.loc(node))
            W = Wrapper(prog, g, w, fn, rep)
            W.run()
            for what, node, p in W.returns:
                res.count("wrapper_exits")
                if 0 in p.ncall:
                    rep("calls", "a path finishes normally without calling the operation", node)
                if 2 in p.ncall:
                    rep("calls", "a path calls the operation more than once", node)
                if what != RES:
                    rep("result", "a path does not return what the operation returned", node)
            # the decorator must return the closure
            rets = [r for r in ast.walk(outer.node) if isinstance(r, ast.Return) and not any(r in ast.walk(nn.node) for nn in outer.nested.values())]
            alias = {w.name}
            for s in ast.walk(outer.node):
                if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Name, ast.Call)):
                    src = s.value.id if isinstance(s.value, ast.Name) else (s.value.args[0].id if len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Name) else None)
                    if src in alias:
                        alias |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            if not any(any(isinstance(x, ast.Name) and x.id in alias for x in ast.walk(r)) for r in rets):
                rep("closure", "the decorator does not return its wrapper", outer.node)


def run(ctx):
    res = Result("Every decorator application in the package: package-defined wrappers are analysed by forward dataflow (each normal exit of the wrapper returns the result of exactly one call of the wrapped function with the caller's arguments), library decorators must be transparent ones.")
    check(ctx.prog, res)
    res.floor("decorator_applications", 300)
    res.floor("wrappers", 1)
    res.assumptions += ["loguru's logger.catch with reraise=True, property, classmethod and the deprecation decorator return the operation's own result (logger.catch without reraise is C15's subject)"]
    return res


def selftest():
    pre = "import functools\n"
    good = pre + "def d(func):\n    def w(*args, **kw):\n        r = func(*args, **kw)\n        return r\n    return w\n@d\ndef op(a): return a\n"
    bads = [good.replace("return r\n", "pass\n", 1), good.replace("func(*args, **kw)", "func(*args)"), good.replace("return r\n", "return r or None\n", 1),
            good.replace("        r = func", "        kw.pop('x', None)\n        r = func"), good.replace("@d\n", "@functools.lru_cache(None)\n")]
    for src, n in [(good, 0)] + [(b, 1) for b in bads]:
        r = Result("x")
        check(Program.from_source(src), r)
        if len(r.findings) != n:
            raise AnalysisBroken(f"C31 self-example not decided: {[f.key for f in r.findings]}")
