"""Flow-sensitive type inference of what an accessor returns.

Structured forward dataflow over one function: each name maps to a set of type
names (None = unknown); branches are joined, `is None`, isinstance and truth
tests narrow.  Calls of package functions use their own inferred result, typed
matchers use the types of their result_type= and default= arguments.
"""
import ast

from .srcmodel import dotted
from .rules.c13 import full_name

N = "NoneType"
STR_M = {"strip": "str", "lstrip": "str", "rstrip": "str", "lower": "str", "upper": "str", "replace": "str", "format": "str", "join": "str", "title": "str", "capitalize": "str",
         "split": "list", "rsplit": "list", "splitlines": "list", "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isnumeric": "bool", "isalpha": "bool", "isspace": "bool",
         "find": "int", "rfind": "int", "index": "int", "count": "int", "encode": "bytes", "zfill": "str", "ljust": "str", "rjust": "str", "partition": "tuple", "rpartition": "tuple"}
CALLS = {"bool": "bool", "str": "str", "int": "int", "float": "float", "list": "list", "dict": "dict", "set": "set", "tuple": "tuple", "frozenset": "frozenset", "len": "int", "sorted": "list",
         "isinstance": "bool", "issubclass": "bool", "any": "bool", "all": "bool", "hasattr": "bool", "callable": "bool", "repr": "str", "hash": "int", "id": "int", "range": "range", "map": "map", "filter": "filter",
         "zip": "zip", "enumerate": "enumerate", "hex": "str", "bin": "str", "ord": "int", "chr": "str", "type": "type", "bytes": "bytes", "bytearray": "bytearray", "reversed": "iter", "iter": "iter", "round": "float"}
TYPED = {"re_match_typed", "re_match_iter_typed"}


def match_test(subj, p):
    """a test expression for a case pattern (an unknown name when it is not a constant pattern)"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
    if isinstance(p, ast.MatchOr):
        return ast.BoolOp(op=ast.Or(), values=[match_test(subj, x) for x in p.patterns])
    if isinstance(p, ast.MatchAs) and p.pattern is None:
        return ast.Constant(value=True)
    return ast.Name(id="?case", ctx=ast.Load())


class RT:
    def __init__(self, prog, interp=None):
        self.prog, self.interp = prog, interp
        self.memo = {}
        self.cl = {}
        self.nr = None
        self.busy = set()
        self.falls = {}          # qual -> True when the end of the body is reachable without return
        self.detail = {}         # qual -> [(types, node)] of every return

    def ret(self, f):
        q = f.qual
        if q in self.memo:
            return self.memo[q]
        if q in self.busy:
            return None
        self.busy.add(q)
        try:
            r = self.run(f)
        finally:
            self.busy.discard(q)
        self.memo[q] = r
        return r

    def run(self, f):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            self.falls[f.qual] = False
            self.detail[f.qual] = []
            return frozenset(["generator"])
        rets = []
        env = {}
        end = self.block(f, f.node.body, env, rets)
        self.falls[f.qual] = end is not None
        self.detail[f.qual] = rets
        out = frozenset()
        for t, _ in rets:
            if t is None:
                return None
            out |= t
        if end is not None:
            out |= {N}
        return out

    # ---- statements
    def join(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        keys = set().union(*envs)
        out = {}
        for k in keys:
            v = frozenset()
            for e in envs:
                if k in e:
                    if e[k] is None:
                        v = None
                        break
                    v |= e[k]
            out[k] = v
        return out

    def block(self, f, body, env, rets):
        for s in body:
            if env is None:
                return None
            env = self.stmt(f, s, env, rets)
        return env

    def set(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.set(x, None, env, f)
        elif isinstance(t, ast.Starred):
            self.set(t.value, frozenset(["list"]), env, f)

    def stmt(self, f, s, env, rets):
        if isinstance(s, ast.Return):
            rets.append((frozenset([N]) if s.value is None else self.ty(f, s.value, env), s))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loops[-1].append(env)
            return None
        if isinstance(s, ast.Assert):
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return self.narrow(f, s.test, env, True)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                if self.nr is None:
                    from .rules.c15 import NoReturn
                    self.nr = NoReturn(self.prog)
                if self.nr.call_never(s.value, f):
                    return None
            return env
        if isinstance(s, ast.Assign):
            v = self.ty(f, s.value, env)
            env = dict(env)
            gd = self.typed_dict(f, s.value, env)
            for t in s.targets:
                self.set(t, v, env, f)
                if isinstance(t, ast.Name):
                    env.pop(("alias", t.id), None)
                    if isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and f.params and s.value.value.id == f.params[0]:
                        env[("alias", t.id)] = frozenset([s.value.attr])
                    for k in [k for k in env if isinstance(k, tuple) and k[0] == t.id]:
                        del env[k]
                    for k, x in gd.items():
                        env[(t.id, k)] = x
            return env
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            if s.value is not None:
                self.set(s.target, self.ty(f, s.value, env), env, f)
            return env
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.ty(f, ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value), env)
            return env
        if isinstance(s, ast.If):
            a = self.narrow(f, s.test, env, True)
            b = self.narrow(f, s.test, env, False)
            return self.join([self.block(f, s.body, a, rets) if a is not None else None, self.block(f, s.orelse, b, rets) if b is not None else None])
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if not hasattr(self, "loops"):
                self.loops = []
            cur = env
            exits = []
            for i in range(3):
                self.loops.append([])
                mark = len(rets)
                e1 = self.narrow(f, s.test, cur, True) if isinstance(s, ast.While) else dict(cur)
                if e1 is None:
                    self.loops.pop()
                    break
                if not isinstance(s, ast.While):
                    self.set(s.target, self.elem(f, s.iter, cur), e1, f)
                e2 = self.block(f, s.body, e1, rets)
                brk = self.loops.pop()
                if i < 2:
                    del rets[mark:]
                nxt = self.join([cur, e2] + brk)
                exits = brk
                if nxt == cur and i < 2:
                    # stable: keep the returns of one more pass
                    pass
                cur = nxt
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                has = any(isinstance(n, ast.Break) for n in ast.walk(s))
                return self.join(exits) if has else None
            if isinstance(s, ast.While):
                cur = self.narrow(f, s.test, cur, False)
                if cur is None:
                    return self.join(exits)
            return self.block(f, s.orelse, cur, rets) if s.orelse else cur
        if isinstance(s, ast.Match):
            outs, cur = [], env
            for c in s.cases:
                t = match_test(s.subject, c.pattern)
                if c.guard is not None:
                    t = c.guard if isinstance(t, ast.Constant) and t.value is True else ast.BoolOp(op=ast.And(), values=[t, c.guard])
                if cur is None:
                    break
                a = self.narrow(f, t, cur, True)
                outs.append(self.block(f, c.body, a, rets) if a is not None else None)
                cur = self.narrow(f, t, cur, False)
            return self.join(outs + [cur])
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for it in s.items:
                if it.optional_vars is not None:
                    self.set(it.optional_vars, None, env, f)
            return self.block(f, s.body, env, rets)
        if isinstance(s, ast.Try):
            a = self.block(f, s.body, dict(env), rets)
            stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if a is not None and s.orelse:
                a = self.block(f, s.orelse, a, rets)
            outs = [a]
            for h in s.handlers:
                e = dict(env)
                for k in stored:
                    e[k] = None
                if h.name:
                    e[h.name] = None
                outs.append(self.block(f, h.body, e, rets))
            j = self.join(outs)
            if s.finalbody:
                j2 = self.block(f, s.finalbody, j if j is not None else dict(env), rets)
                return j2 if j is not None else None
            return j
        return env

    # ---- narrowing
    def narrow(self, f, t, env, truth):
        """environment in which test t has the given truth; None when impossible"""
        if isinstance(t, ast.Constant):
            return env if bool(t.value) == truth else None
        ct = self.closed_test(f, t, env, truth)
        if ct is not False:
            return ct
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(f, t.operand, env, not truth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for v in t.values:
                    env = self.narrow(f, v, env, truth)
                    if env is None:
                        return None
                return env
            outs = []
            cur = env
            for v in t.values:
                if cur is None:
                    break
                outs.append(self.narrow(f, v, cur, truth))
                cur = self.narrow(f, v, cur, not truth)
            return self.join(outs)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in env and env[t.left.id] is not None:
            c = t.comparators[0]
            v = env[t.left.id]
            if isinstance(c, ast.Constant) and c.value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                is_none = isinstance(t.ops[0], (ast.Is, ast.Eq)) == truth
                nv = v & {N} if is_none else v - {N}
                if not nv:
                    return None
                return {**env, t.left.id: nv}
            return env
        if isinstance(t, ast.Name) and t.id in env and env[t.id] is not None:
            v = env[t.id]
            nv = v - {N} if truth else v - {"Match", "generator", "function", "type"}
            if not nv:
                return None
            return {**env, t.id: nv}
        if isinstance(t, ast.Call) and dotted(t.func) == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            ks = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            names = {(dotted(k) or "?").split(".")[-1] for k in ks}
            if names <= {"str", "int", "float", "bool", "list", "dict", "set", "tuple", "Match"}:
                v = env.get(t.args[0].id)
                if truth:
                    if v is None:
                        return {**env, t.args[0].id: frozenset(names)} if t.args[0].id in env else env
                    nv = frozenset(x for x in v if x in names or (x == "bool" and "int" in names))
                    return {**env, t.args[0].id: nv} if nv else None
                if v is not None:
                    nv = frozenset(x for x in v if not (x in names or (x == "bool" and "int" in names)))
                    return {**env, t.args[0].id: nv} if nv else None
        return env

    def elem(self, f, it, env):
        return None

    # ---- expressions
    def ty(self, f, e, env):
        r = self._ty(f, e, env)
        if r is None and self.interp is not None:
            av = self.interp.nt.get(e)
            if av is not None and av.tags is not None and av.tags and not any(t.startswith("cls:") for t in av.tags):
                return frozenset(av.tags)
        return r

    def _ty(self, f, e, env):
        if isinstance(e, ast.Constant):
            return frozenset([type(e.value).__name__])
        if isinstance(e, ast.JoinedStr):
            return frozenset(["str"])
        if isinstance(e, (ast.List, ast.ListComp)):
            return frozenset(["list"])
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return frozenset(["dict"])
        if isinstance(e, (ast.Set, ast.SetComp)):
            return frozenset(["set"])
        if isinstance(e, ast.Tuple):
            return frozenset(["tuple"])
        if isinstance(e, ast.GeneratorExp):
            return frozenset(["generator"])
        if isinstance(e, ast.Lambda):
            return frozenset(["function"])
        if isinstance(e, ast.Compare):
            return frozenset(["bool"])
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return frozenset(["bool"])
            return self.ty(f, e.operand, env)
        if isinstance(e, ast.NamedExpr):
            return self.ty(f, e.value, env)
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.IfExp):
            a, b = self.narrow(f, e.test, env, True), self.narrow(f, e.test, env, False)
            ts = [self.ty(f, x, en) for x, en in ((e.body, a), (e.orelse, b)) if en is not None]
            return None if any(t is None for t in ts) else frozenset().union(*ts)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            cur = env
            isor = isinstance(e.op, ast.Or)
            for i, v in enumerate(e.values):
                if cur is None:
                    break
                t = self.ty(f, v, cur)
                if i < len(e.values) - 1:
                    if t is None:
                        return None
                    t = t - {N} if isor else t - {"Match", "function", "type", "generator"}
                if t is None:
                    return None
                out |= t
                cur = self.narrow(f, v, cur, not isor)
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.ty(f, e.left, env), self.ty(f, e.right, env)
            if a is None:
                return None
            if isinstance(e.op, ast.Mod) and a == {"str"}:
                return a
            if a == {"str"} or a == {"list"} or a == {"tuple"} or a == {"set"}:
                return a
            if b is not None and a | b <= {"int", "bool", "float"}:
                if isinstance(e.op, ast.Div):
                    return frozenset(["float"])
                return frozenset(["float"]) if "float" in a | b and len(a | b) == 1 else (frozenset(["int"]) if a | b <= {"int", "bool"} else frozenset(["float", "int"]))
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant):
                if isinstance(e.value, ast.Name) and (e.value.id, e.slice.value) in env:
                    return env[(e.value.id, e.slice.value)]
                if isinstance(e.value, ast.Call):
                    gd = self.typed_dict(f, e.value, env)
                    if e.slice.value in gd:
                        return gd[e.slice.value]
            b = self.ty(f, e.value, env)
            if b == {"str"}:
                return frozenset(["str"])
            if isinstance(e.slice, ast.Slice) and b is not None and b <= {"list", "tuple", "str"}:
                return b
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0] and f.kind in ("method", "property", "setter"):
                g = self.prog.find_prop(f.cls.name, e.attr)
                if g is not None:
                    return self.ret(g)
                if e.attr in ("text", "_text"):
                    return frozenset(["str"])
                return None
            if e.attr == "text" and isinstance(e.value, ast.Name):
                return frozenset(["str"])
            return None
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        return None

    def typed_dict(self, f, e, env):
        """{group name: types} of a typed matcher called with groupdict="""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in TYPED):
            return {}
        kw = {k.arg: k.value for k in e.keywords}
        gd = kw.get("groupdict")
        if not isinstance(gd, ast.Dict):
            return {}
        dt = self.ty(f, kw["default"], env) if "default" in kw else frozenset(["str"])
        out = {}
        for k, v in zip(gd.keys, gd.values):
            if isinstance(k, ast.Constant):
                n = dotted(v)
                out[k.value] = None if dt is None or n is None else frozenset([n.split(".")[-1]]) | dt
        return out

    # ---- attributes that only ever hold a few constants
    def closed(self, cls, attr):
        """the constants an instance attribute can hold, when every store of it in the class tree is a constant"""
        key = (cls, attr)
        if key in self.cl:
            return self.cl[key]
        self.cl[key] = None
        fam = [c for c in self.prog.classes.values() if any(x.name == cls for x in c.mro) or any(x is c for x in self.prog.classes[cls].mro)]
        vals = set()
        ok = True
        for g in self.prog.funcs.values():
            if g.cls is None or g.cls not in fam or not g.params:
                if not any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
                    continue
                if g.cls is None:
                    ok = False
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store):
                                if x is t and isinstance(n.value, ast.Constant):
                                    vals.add(n.value.value)
                                else:
                                    ok = False
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem)):
                    t = getattr(n, "target", None) or getattr(n, "optional_vars", None)
                    if isinstance(t, ast.Attribute) and t.attr == attr:
                        ok = False
        for c in fam:
            if attr in c.attrs:
                v = c.attrs[attr]
                if isinstance(v, ast.Constant):
                    vals.add(v.value)
                else:
                    ok = False
            p = c.props.get(attr)
            if p is not None:
                from .srcmodel import strip_doc
                body = strip_doc(p.node.body)
                a = body[-1].value if body and isinstance(body[-1], ast.Return) else None
                if isinstance(a, ast.Attribute) and a.attr != attr and isinstance(a.value, ast.Name):
                    sub = self.closed(cls, a.attr)
                    if sub is None:
                        ok = False
                    else:
                        vals |= sub
                else:
                    rs = [n for n in ast.walk(p.node) if isinstance(n, ast.Return)]
                    if rs and all(isinstance(n.value, ast.Constant) for n in rs):
                        vals |= {n.value.value for n in rs}
                    else:
                        ok = False
        self.cl[key] = frozenset(vals) if ok and vals else None
        return self.cl[key]

    def closed_test(self, f, t, env, truth):
        """narrowing on self.attr == constant; None: impossible; False: not such a test"""
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and f.cls is not None and f.params):
            return False
        a, c = t.left, t.comparators[0]
        if isinstance(a, ast.Constant) and not isinstance(c, ast.Constant):
            a, c = c, a
        if isinstance(a, ast.Name) and len(env.get(("alias", a.id)) or ()) == 1:
            a = ast.Attribute(value=ast.Name(id=f.params[0], ctx=ast.Load()), attr=next(iter(env[("alias", a.id)])), ctx=ast.Load())
        if not (isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == f.params[0]):
            return False
        if isinstance(c, ast.Constant) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            cs = {c.value}
        elif isinstance(c, (ast.Tuple, ast.Set, ast.List)) and all(isinstance(x, ast.Constant) for x in c.elts) and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            cs = {x.value for x in c.elts}
        else:
            return False
        vals = self.closed(f.cls.name, a.attr)
        if vals is None:
            return False
        key = ("self.", a.attr)
        cur = env.get(key, vals)
        pos = isinstance(t.ops[0], (ast.Eq, ast.In)) == truth
        cur = cur & cs if pos else cur - cs
        return {**env, key: frozenset(cur)} if cur else None

    def call(self, f, e, env):
        fn = e.func
        d = dotted(fn)
        if isinstance(fn, ast.Name):
            if fn.id in CALLS and fn.id not in env and self.prog.resolve_name(f.module, fn.id) is None:
                return frozenset([CALLS[fn.id]])
            r = self.prog.resolve_name(f.module, fn.id)
            if r and r[0] == "class":
                return frozenset([r[1].name])
            if r and r[0] == "func":
                return self.ret(r[1])
            if fn.id in ("max", "min", "sum"):
                return None
            return None
        if isinstance(fn, ast.Attribute):
            full = full_name(self.prog, f.module, f, d) if d else None
            if full in ("re.search", "re.match", "re.fullmatch"):
                return frozenset(["Match", N])
            if full in ("re.sub",):
                return frozenset(["str"])
            if full in ("re.split", "re.findall"):
                return frozenset(["list"])
            if fn.attr in TYPED:
                kw = {k.arg: k.value for k in e.keywords}
                g = next(iter(self.prog.by_name.get(fn.attr, ())), None)
                names = [p for p in (g.params[1:] if g is not None else [])]
                for i, a in enumerate(e.args):
                    if i < len(names):
                        kw.setdefault(names[i], a)
                gd = kw.get("groupdict")
                if gd is not None and not (isinstance(gd, ast.Constant) and gd.value is None):
                    return frozenset(["dict"])
                rt = dotted(kw["result_type"]) if "result_type" in kw else "str"
                if rt is None:
                    return None
                out = {rt.split(".")[-1]}
                u = kw.get("untyped_default")
                if u is not None and not (isinstance(u, ast.Constant) and u.value is False):
                    t = self.ty(f, kw["default"], env) if "default" in kw else frozenset(["str"])
                    if t is None:
                        return None
                    out |= t
                return frozenset(out)
            if isinstance(fn.value, ast.Name) and f.cls is not None and f.params and fn.value.id == f.params[0] and f.kind in ("method", "property", "setter"):
                g = self.prog.find_method(f.cls.name, fn.attr)
                if g is not None:
                    return self.ret(g)
            b = self.ty(f, fn.value, env)
            if b == {"str"} and fn.attr in STR_M:
                return frozenset([STR_M[fn.attr]])
            if b == {"Match"} or b == {"Match", N}:
                if fn.attr == "groupdict":
                    return frozenset(["dict"])
                if fn.attr == "groups":
                    return frozenset(["tuple"])
            if fn.attr in ("startswith", "endswith"):
                return frozenset(["bool"])
        return None
