"""Which strings of the package are regular expressions, and where each match goes.

A position is a *pattern position* when its value reaches the pattern argument
of the `re` module: directly, through a local alias, a template, a container
element, or a parameter of a package function that itself is a pattern
position (least fixpoint over the program).  `Sites` enumerates every
position together with the constant texts that reach it; `Matches` follows
match objects from the call that made them to the uses of their groups with a
structured reaching-definitions pass.
"""
import ast
import re

from .srcmodel import dotted
from .rules.c13 import full_name

RE_FUNCS = {"compile", "search", "match", "fullmatch", "split", "findall", "finditer", "sub", "subn"}
FLAGPOS = {"compile": 1, "search": 2, "match": 2, "fullmatch": 2, "split": 3, "findall": 2, "finditer": 2, "sub": 4, "subn": 4}
FLAGS = {"VERBOSE": re.VERBOSE, "X": re.VERBOSE, "I": re.I, "IGNORECASE": re.I, "M": re.M, "MULTILINE": re.M, "S": re.S, "DOTALL": re.S, "A": re.A, "ASCII": re.A, "U": 0, "UNICODE": 0}
HOLE = "\ue000"     # a part known only at run time
ESC = "\ue001"      # a part known only at run time that re.escape() made literal


class Text:
    """a constant pattern text with its flags; holes stand for parts known only at run time"""
    __slots__ = ("s", "flags", "module")

    def __init__(self, s, flags=0, module=None):
        self.s, self.flags, self.module = s, flags, module

    @property
    def exact(self):
        return HOLE not in self.s and ESC not in self.s

    def filled(self, r="x"):
        """the pattern with every unknown part replaced"""
        return self.s.replace(HOLE, r).replace(ESC, "x")

    def __eq__(self, o):
        return (self.s, self.flags) == (o.s, o.flags)

    def __hash__(self):
        return hash((self.s, self.flags))

    def __repr__(self):
        return f"<{self.s!r} {self.flags}>"


def re_call(prog, f, m, call):
    """name of the re-module function called, or None"""
    fn = call.func
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.attr in RE_FUNCS:
        nm = fn.value.id
        if f is not None and nm in f.all_params:
            dv = f.defaults.get(nm)
            if isinstance(dv, ast.Name):
                nm2 = full_name(prog, m, None, dv.id) or dv.id
                return fn.attr if nm2 == "re" else None
            return None
        full = full_name(prog, m, f, f"{nm}.{fn.attr}")
        return fn.attr if full == "re." + fn.attr else None
    if isinstance(fn, ast.Name):
        full = full_name(prog, m, f, fn.id)
        if full and full.startswith("re.") and full[3:] in RE_FUNCS:
            return full[3:]
    return None


def flag_value(prog, m, e):
    """integer value of a flags expression, or None when unknown"""
    if e is None:
        return 0
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = flag_value(prog, m, e.left), flag_value(prog, m, e.right)
        return None if a is None or b is None else a | b
    d = dotted(e)
    if d and d.split(".")[-1] in FLAGS and (full_name(prog, m, None, d) or d).startswith("re."):
        return FLAGS[d.split(".")[-1]]
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    return None


class Resolver:
    def __init__(self, prog):
        self.prog = prog
        self.assigns = {}       # id(func node) -> {name: [value or None]}

    def local_values(self, f):
        k = id(f.node)
        if k in self.assigns:
            return self.assigns[k]
        d = {}

        def put(t, v):
            if isinstance(t, ast.Name):
                d.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    put(x, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None)
            elif isinstance(t, ast.Starred):
                put(t.value, None)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    put(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                put(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                put(n.target, ast.BinOp(left=ast.Constant(HOLE), op=n.op, right=n.value) if isinstance(n.op, ast.Add) else None)
            elif isinstance(n, ast.NamedExpr):
                put(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                # a loop over a literal binds each element
                if isinstance(n.iter, (ast.Tuple, ast.List, ast.Set)):
                    for e in n.iter.elts:
                        put(n.target, e)
                else:
                    put(n.target, ("elem", n.iter))
            elif isinstance(n, (ast.With,)):
                for it in n.items:
                    if it.optional_vars is not None:
                        put(it.optional_vars, None)
        self.assigns[k] = d
        return d

    def texts(self, f, m, e, depth=0, seen=()):
        """set of Text the pattern expression can be; None inside means 'something else too'"""
        if depth > 10 or e is None:
            return {None}
        if isinstance(e, tuple) and e[0] == "elem":
            it = e[1]
            out = set()
            if isinstance(it, ast.Name) and f is not None:
                for v in self.local_values(f).get(it.id, []):
                    if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
                        for x in v.elts:
                            out |= self.texts(f, m, x, depth + 1, seen)
                    else:
                        out.add(None)
            try:
                v = self.prog.const(m, it)
                if isinstance(v, (tuple, list, set)) and all(isinstance(x, str) for x in v):
                    return {Text(x, 0, m) for x in v}
            except ValueError:
                pass
            return out or {None}
        if isinstance(e, ast.Constant):
            return {Text(e.value, 0, m)} if isinstance(e.value, str) else {None}
        if isinstance(e, ast.IfExp):
            return self.texts(f, m, e.body, depth + 1, seen) | self.texts(f, m, e.orelse, depth + 1, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.texts(f, m, v, depth + 1, seen)
            return out
        if isinstance(e, ast.Name):
            fn = f
            while fn is not None:
                lv = self.local_values(fn)
                if e.id in lv or e.id in fn.all_params:
                    if (id(fn.node), e.id) in seen:
                        return {None}
                    out = set()
                    if e.id in fn.all_params:
                        given = self.bound(fn, e.id)
                        if given is None:
                            out.add(None)
                        for a in given or []:
                            out |= self.texts(fn.outer, m, a, depth + 1, seen + ((id(fn.node), e.id),))
                    for v in lv.get(e.id, []):
                        out |= self.texts(fn, m, v, depth + 1, seen + ((id(fn.node), e.id),))
                    return out
                fn = fn.outer
            r = self.prog.resolve_name(m, e.id)
            if r and r[0] == "global":
                vals = r[1].globals.get(r[2], [])
                out = set()
                for v in vals:
                    out |= self.texts(None, r[1], v, depth + 1, seen)
                return out or {None}
            return {None}
        if isinstance(e, ast.Attribute):
            cls = None
            if f is not None and f.cls is not None and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0]:
                cls = f.cls.name
            elif isinstance(e.value, ast.Name):
                r = self.prog.resolve_name(m, e.value.id)
                if r and r[0] == "class":
                    cls = r[1].name
                elif r and r[0] == "module":
                    return self.texts(None, r[1], ast.Name(id=e.attr, ctx=ast.Load()), depth + 1, seen)
            if cls:
                out = set()
                for k in self.prog.classes[cls].mro:
                    if e.attr in k.attrs and k.attrs[e.attr] is not None:
                        return self.texts(None, k.module, k.attrs[e.attr], depth + 1, seen) | self.self_assigned(cls, e.attr, depth, seen)
                return self.self_assigned(cls, e.attr, depth, seen) or {None}
            return {None}
        if isinstance(e, ast.Call):
            if re_call(self.prog, f, m, e) == "compile":
                fl = flag_value(self.prog, m, next((k.value for k in e.keywords if k.arg == "flags"), e.args[1] if len(e.args) > 1 else None))
                src = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "pattern"), None)
                out = set()
                for t in self.texts(f, m, src, depth + 1, seen):
                    out.add(None if t is None or fl is None else Text(t.s, t.flags | fl, t.module))
                return out
            fn = e.func
            if isinstance(fn, ast.Name):
                r = self.prog.resolve_name(m, fn.id)
                if r and r[0] == "func" and not e.args and not e.keywords and r[1] is not f:
                    return self.returned(r[1], depth, seen)
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f is not None and f.params and fn.value.id == f.params[0] and f.cls is not None and not e.args:
                g = self.prog.find_method(f.cls.name, fn.attr)
                if g is not None and g is not f:
                    return self.returned(g, depth, seen)
            if isinstance(fn, ast.Attribute) and fn.attr in ("format", "join"):
                bases = self.texts(f, m, fn.value, depth + 1, seen)
                out = set()
                for b in bases:
                    if b is None:
                        out.add(None)
                        continue
                    if fn.attr == "format":
                        combos = [[]]
                        for a in e.args:
                            ts = [t.s if t is not None else HOLE for t in sorted(self.texts(f, m, a, depth + 1, seen), key=repr)]
                            combos = [c + [t] for c in combos for t in ts][:16]
                        kw = {}
                        for k in e.keywords:
                            ts = sorted(self.texts(f, m, k.value, depth + 1, seen), key=repr)
                            if k.arg:
                                kw[k.arg] = ts[0].s if ts and ts[0] is not None and len(ts) == 1 else HOLE
                        for c in combos:
                            try:
                                out.add(Text(b.s.format(*c, **kw), b.flags, b.module))
                            except Exception:
                                out.add(None)
                    else:
                        try:
                            v = self.prog.const(m, e)
                            out.add(Text(v, 0, m) if isinstance(v, str) else None)
                        except ValueError:
                            vals = None
                            if e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
                                vals = e.args[0].elts
                            if vals is not None:
                                parts = [sorted(self.texts(f, m, v, depth + 1, seen), key=repr)[0] for v in vals]
                                out.add(Text(b.s.join(p.s if p is not None else HOLE for p in parts), 0, m))
                            else:
                                out.add(Text(HOLE, 0, m))
                return out
            if isinstance(fn, ast.Attribute) and fn.attr in ("strip", "lower", "upper", "replace", "lstrip", "rstrip"):
                try:
                    v = self.prog.const(m, e)
                    return {Text(v, 0, m)} if isinstance(v, str) else {None}
                except ValueError:
                    return {None}
            if dotted(fn) == "str" and len(e.args) == 1:
                return self.texts(f, m, e.args[0], depth + 1, seen)
            if (full_name(self.prog, m, f, dotted(fn) or "?") or "") == "re.escape":
                return {Text(ESC, 0, m)}
            return {None}
        if isinstance(e, ast.JoinedStr):
            combos = [""]
            for v in e.values:
                if isinstance(v, ast.Constant):
                    combos = [c + str(v.value) for c in combos]
                else:
                    ts = [t.s if t is not None else HOLE for t in sorted(self.texts(f, m, v.value, depth + 1, seen), key=repr)]
                    combos = [c + t for c in combos for t in ts][:16]
            return {Text(c, 0, m) for c in combos}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.texts(f, m, e.left, depth + 1, seen), self.texts(f, m, e.right, depth + 1, seen)
            out = set()
            for x in sorted(a, key=repr)[:16]:
                for y in sorted(b, key=repr)[:16]:
                    out.add(Text((x.s if x else HOLE) + (y.s if y else HOLE), 0, m))
            if all(t.s.strip(HOLE + ESC) == "" for t in out):
                return {None}
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            out = set()
            for b in self.texts(f, m, e.left, depth + 1, seen):
                if b is None:
                    out.add(None)
                    continue
                args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
                vals = []
                for a in args:
                    ts = sorted(self.texts(f, m, a, depth + 1, seen), key=repr)
                    vals.append(ts[0].s if len(ts) == 1 and ts[0] is not None else HOLE)
                try:
                    out.add(Text(re.sub(r"%[0-9]*[di]", "%s", b.s) % tuple(vals), b.flags, b.module))
                except Exception:
                    out.add(None)
            return out
        if isinstance(e, ast.Subscript):
            try:
                v = self.prog.const(m, e.value)
                k = self.prog.const(m, e.slice)
                return {Text(v[k], 0, m)} if isinstance(v[k], str) else {None}
            except Exception:
                return {None}
        return {None}

    def bound(self, fn, pname):
        """the expressions a parameter of a local helper function is given, if every use of the helper is a plain call of it"""
        if fn.outer is None or not isinstance(fn.node, ast.FunctionDef) or pname not in fn.params or fn.node.decorator_list:
            return None
        heads, out = set(), []
        for n in ast.walk(fn.outer.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fn.node.name:
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    return None
                heads.add(id(n.func))
                i = fn.params.index(pname)
                kw = [k.value for k in n.keywords if k.arg == pname]
                if kw:
                    out.append(kw[0])
                elif i < len(n.args):
                    out.append(n.args[i])
                elif pname in fn.defaults:
                    out.append(fn.defaults[pname])
                else:
                    return None
        if any(isinstance(n, ast.Name) and n.id == fn.node.name and id(n) not in heads for n in ast.walk(fn.outer.node)):
            return None
        return out or None

    def returned(self, g, depth, seen):
        out = set()
        for r in ast.walk(g.node):
            if isinstance(r, ast.Return):
                out |= self.texts(g, g.module, r.value, depth + 1, seen)
        return out or {None}

    def self_assigned(self, cls, attr, depth, seen):
        out = set()
        for k in self.prog.classes[cls].mro:
            for f in list(k.methods.values()) + list(k.props.values()):
                if not f.params:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == f.params[0]:
                                if (id(n), attr) in seen:
                                    continue
                                out |= self.texts(f, f.module, n.value, depth + 1, seen + ((id(n), attr),))
        return out


class Sites:
    """every call whose argument is a pattern: .sites = [(func or None, module, call node, kind, pattern expr, set of Text)]"""

    def __init__(self, prog):
        self.prog = prog
        self.res = Resolver(prog)
        self.params = {}          # func qual -> {param}: pattern parameters
        self.fix()
        self.sites = []
        self.collect()

    def calls(self):
        if not hasattr(self, "_calls"):
            out = []
            for f in self.prog.funcs.values():
                from .rules.c17 import nodes_of
                for n in nodes_of(f):
                    if isinstance(n, ast.Call):
                        out.append((f, f.module, n))
            for m in self.prog.modules.values():
                for st in m.tree.body:
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    if isinstance(st, ast.ClassDef):
                        inner = [x for x in st.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
                    else:
                        inner = [st]
                    for s in inner:
                        for n in ast.walk(s):
                            if isinstance(n, ast.Call):
                                out.append((None, m, n))
            self._calls = out
        return self._calls

    def positions(self, f, m, n):
        """[(kind, expr, flags expr or 0)] pattern positions of this call"""
        out = []
        k = re_call(self.prog, f, m, n)
        if k:
            e = n.args[0] if n.args else next((q.value for q in n.keywords if q.arg == "pattern"), None)
            fl = n.args[FLAGPOS[k]] if len(n.args) > FLAGPOS[k] else next((q.value for q in n.keywords if q.arg == "flags"), None)
            if e is not None:
                out.append(("re." + k, e, fl))
            return out
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else None)
        if nm is None:
            return out
        for g in self.prog.by_name.get(nm, ()):
            pp = self.params.get(g.qual)
            if not pp:
                continue
            if isinstance(n.func, ast.Name) and g.kind != "function":
                continue
            if isinstance(n.func, ast.Attribute) and g.kind == "function":
                continue
            ps = list(g.params)
            if g.kind in ("method", "classmethod", "property") and ps:
                ps = ps[1:]
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    break
                if i < len(ps) and ps[i] in pp:
                    out.append((g.qual, a, None))
            for q in n.keywords:
                if q.arg in pp:
                    out.append((g.qual, q.value, None))
        uniq = {}
        for k2, e, fl in out:
            uniq.setdefault(id(e), (k2, e, fl))
        return list(uniq.values())

    def fix(self):
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for f, m, n in self.calls():
                if f is None:
                    continue
                for kind, e, fl in self.positions(f, m, n):
                    for p, owner in self.param_roots(f, e):
                        s = self.params.setdefault(owner.qual, set())
                        if p not in s:
                            s.add(p)
                            changed = True

    def param_roots(self, f, e, depth=0, seen=()):
        """parameters the pattern expression is made of"""
        if depth > 8 or not isinstance(e, ast.AST):
            if isinstance(e, tuple) and e[0] == "elem":
                yield from self.param_roots(f, e[1], depth + 1, seen)
            return
        for x in [e]:
            if isinstance(x, ast.Name):
                fn = f
                while fn is not None:
                    if x.id in fn.all_params and fn.outer is None:
                        yield x.id, fn
                    vals = self.res.local_values(fn).get(x.id, [])
                    if (id(fn.node), x.id) not in seen:
                        for v in vals:
                            yield from self.param_roots(fn, v, depth + 1, seen + ((id(fn.node), x.id),))
                    if vals or x.id in fn.all_params:
                        break
                    fn = fn.outer
            elif isinstance(x, ast.Subscript):
                yield from self.param_roots(f, x.value, depth + 1, seen)
            elif isinstance(x, ast.IfExp):
                yield from self.param_roots(f, x.body, depth + 1, seen)
                yield from self.param_roots(f, x.orelse, depth + 1, seen)
            elif isinstance(x, ast.BoolOp):
                for v in x.values:
                    yield from self.param_roots(f, v, depth + 1, seen)
            elif isinstance(x, ast.Call) and (re_call(self.prog, f, f.module, x) == "compile" or dotted(x.func) in ("str",)) and x.args:
                yield from self.param_roots(f, x.args[0], depth + 1, seen)

    def collect(self):
        for f, m, n in self.calls():
            for kind, e, fl in self.positions(f, m, n):
                ts = self.res.texts(f, m, e)
                fv = flag_value(self.prog, m, fl) if fl is not None else 0
                full = set()
                for t in ts:
                    if t is None:
                        full.add(None)
                    else:
                        full.add(Text(t.s, t.flags | (fv or 0), t.module))
                self.sites.append((f, m, n, kind, e, full))


def where(f, m, n):
    return f"{m.rel}:{getattr(n, 'lineno', 0)}"


def owner(f, m):
    return f.qual if f is not None else f"{m.name}.<module>"


class MatchFlow:
    """Reaching definitions of match objects and captured texts in one function.

    .uses  = [(kind, node, texts, group, strict)]   kind: group | dictkey | unpack | sub
    .convs = [(node, typename, texts, group, guarded)]
    Values: ("match", texts) ("gdict", texts) ("groups", texts) ("cap", texts, group) ("typed", keys)
    """

    def __init__(self, prog, sites, f):
        self.prog, self.sites, self.f, self.m = prog, sites, f, f.module
        self.uses, self.convs = [], []
        self.final = {}
        self.guards = []
        self.block(f.node.body, {})

    # values
    def value(self, e, env):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.NamedExpr):
            v = self.value(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.IfExp):
            self.value(e.test, env)
            self.guards.append(e.test)
            a = self.value(e.body, env)
            self.guards.pop()
            return a | self.value(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for v in e.values:
                out |= self.value(v, env)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Subscript):
            b = self.value(e.value, env)
            k = e.slice
            self.value(k, env)
            out = set()
            for v in b:
                if isinstance(k, ast.Constant):
                    if v[0] == "match":
                        self.uses.append(("group", e, v[1], k.value, True))
                        out.add(("cap", v[1], k.value))
                    elif v[0] == "gdict":
                        self.uses.append(("dictkey", e, v[1], k.value, True))
                        out.add(("cap", v[1], k.value))
                    elif v[0] == "groups" and isinstance(k.value, int) and k.value >= 0:
                        self.uses.append(("group", e, v[1], k.value + 1, True))
                        out.add(("cap", v[1], k.value + 1))
                    elif v[0] == "typed" and isinstance(e.ctx, ast.Load) and k.value not in v[1]:
                        self.uses.append(("typedkey", e, v[1], k.value, True))
            return frozenset(out)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            for g in e.generators:
                self.bind_iter(g.target, self.value(g.iter, env), env)
                for t in g.ifs:
                    self.value(t, env)
            if isinstance(e, ast.DictComp):
                self.value(e.key, env)
                self.value(e.value, env)
            else:
                self.value(e.elt, env)
            return frozenset()
        if isinstance(e, ast.Lambda):
            return frozenset()
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.value(ch, env)
        return frozenset()

    def bind_iter(self, t, v, env):
        it = frozenset(("match", x[1]) for x in v if x[0] == "iter")
        self.store(t, it, env)

    def call(self, e, env):
        fn = e.func
        args = [self.value(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.value(k.value, env) for k in e.keywords}
        k = re_call(self.prog, self.f, self.m, e)
        if k in ("search", "match", "fullmatch", "finditer", "sub", "subn"):
            src = e.args[0] if e.args else next((q.value for q in e.keywords if q.arg == "pattern"), None)
            fl = e.args[FLAGPOS[k]] if len(e.args) > FLAGPOS[k] else next((q.value for q in e.keywords if q.arg == "flags"), None)
            fv = flag_value(self.prog, self.m, fl) or 0
            ts = frozenset(None if t is None else Text(t.s, t.flags | fv, t.module) for t in self.sites.res.texts(self.f, self.m, src))
            if k in ("sub", "subn"):
                r = e.args[1] if len(e.args) > 1 else next((q.value for q in e.keywords if q.arg == "repl"), None)
                if isinstance(r, ast.Constant) and isinstance(r.value, str):
                    self.uses.append(("sub", e, ts, r.value, True))
                return frozenset()
            return frozenset([("iter" if k == "finditer" else "match", ts)])
        if isinstance(fn, ast.Attribute):
            if fn.attr in ("search", "match", "fullmatch", "finditer", "sub") and not k:
                ts = self.sites.res.texts(self.f, self.m, fn.value)
                # only when the receiver is a compiled pattern
                if self.is_compiled(fn.value):
                    if fn.attr == "sub":
                        if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                            self.uses.append(("sub", e, frozenset(ts), e.args[0].value, True))
                        return frozenset()
                    return frozenset([("iter" if fn.attr == "finditer" else "match", frozenset(ts))])
            b = self.value(fn.value, env)
            out = set()
            for v in b:
                if v[0] == "match":
                    if fn.attr == "group":
                        ids = [a.value if isinstance(a, ast.Constant) else None for a in e.args] or [0]
                        for i in ids:
                            if i is not None:
                                self.uses.append(("group", e, v[1], i, True))
                        if len(ids) == 1 and ids[0] is not None:
                            out.add(("cap", v[1], ids[0]))
                    elif fn.attr == "groupdict":
                        out.add(("gdict", v[1]))
                    elif fn.attr == "groups":
                        out.add(("groups", v[1]))
                    elif fn.attr in ("start", "end", "span") and e.args and isinstance(e.args[0], ast.Constant):
                        self.uses.append(("group", e, v[1], e.args[0].value, True))
                elif v[0] == "gdict" and fn.attr in ("get", "pop", "setdefault") and e.args and isinstance(e.args[0], ast.Constant):
                    self.uses.append(("dictkey", e, v[1], e.args[0].value, False))
                    out.add(("cap", v[1], e.args[0].value))
                elif v[0] == "gdict" and fn.attr == "copy":
                    out.add(v)
                elif v[0] == "cap" and fn.attr in ("strip", "rstrip", "lstrip"):
                    out.add(v)
                elif v[0] == "typed" and fn.attr == "get" and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value not in v[1]:
                    self.uses.append(("typedkey", e, v[1], e.args[0].value, False))
            nm = fn.attr
        else:
            out = set()
            nm = fn.id if isinstance(fn, ast.Name) else None
        if nm == "dict" and isinstance(fn, ast.Name) and len(args) == 1:
            return frozenset(v for v in args[0] if v[0] == "gdict")
        if nm in ("int", "float") and isinstance(fn, ast.Name) and len(e.args) == 1 and not e.keywords:
            for v in args[0]:
                if v[0] == "cap":
                    self.convs.append((e, nm, v[1], v[2], isinstance(e.args[0], (ast.BoolOp, ast.IfExp)) or self.guarded(e.args[0])))
        if nm == "get_typed_dict":
            mv = kws.get("regex", args[0] if args else frozenset())
            td = next((q.value for q in e.keywords if q.arg == "type_dict"), e.args[1] if len(e.args) > 1 else None)
            if isinstance(td, ast.Dict):
                for v in mv:
                    if v[0] == "match":
                        for kk, tt in zip(td.keys, td.values):
                            if isinstance(kk, ast.Constant):
                                self.uses.append(("dictkey", e, v[1], kk.value, False))
        if nm in ("re_match_iter_typed", "get_typed_dict"):
            gd = next((q.value for q in e.keywords if q.arg in ("groupdict", "type_dict")), None)
            if isinstance(gd, ast.Name):
                vals = self.sites.res.local_values(self.f).get(gd.id, [])
                gd = vals[0] if len(vals) == 1 else None
            if isinstance(gd, ast.Dict) and all(isinstance(x, ast.Constant) for x in gd.keys):
                return frozenset([("typed", frozenset(x.value for x in gd.keys))])
        return frozenset(out)

    def is_compiled(self, e):
        if isinstance(e, ast.Call):
            return re_call(self.prog, self.f, self.m, e) == "compile"
        if isinstance(e, ast.Name):
            for v in self.sites.res.local_values(self.f).get(e.id, []):
                if isinstance(v, ast.AST) and self.is_compiled(v):
                    return True
            r = self.prog.resolve_name(self.m, e.id)
            if r and r[0] == "global":
                return any(isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "compile" for v in r[1].globals.get(r[2], []) if v is not None)
            return False
        if isinstance(e, ast.Attribute):
            ts = e.attr
            for c in self.prog.classes.values():
                v = c.attrs.get(ts)
                if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "compile":
                    return True
            for g in self.prog.funcs.values():
                pass
            return "RE" in ts.upper().split("_") or "RGX" in ts.upper() or "REGEX" in ts.upper()
        return False

    def guarded(self, e):
        """an enclosing condition talks about the converted expression"""
        txt = ast.unparse(e)
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        for g in self.guards:
            if txt in ast.unparse(g) or (isinstance(e, ast.Name) and names & {n.id for n in ast.walk(g) if isinstance(n, ast.Name)}):
                return True
        return False

    # statements
    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in v:
                if x[0] == "groups" and not any(isinstance(y, ast.Starred) for y in t.elts):
                    self.uses.append(("unpack", t, x[1], len(t.elts), True))
            for i, x in enumerate(t.elts):
                self.store(x, frozenset(("cap", y[1], i + 1) for y in v if y[0] == "groups"), env)
        elif isinstance(t, ast.Subscript):
            self.value(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id in env:
                # writing a key: later reads of it are not groups
                env[t.value.id] = frozenset(x for x in env[t.value.id] if x[0] not in ("gdict", "typed"))

    def join(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = dict(envs[0])
        for e in envs[1:]:
            for k in set(out) | set(e):
                out[k] = out.get(k, frozenset()) | e.get(k, frozenset())
        return out

    def block(self, body, env):
        pushed = 0
        for s in body:
            if env is None:
                break
            env = self.stmt(s, env)
            # `if x is None: return` guards what follows
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                self.guards.append(s.test)
                pushed += 1
        for _ in range(pushed):
            self.guards.pop()
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.Return, ast.Raise)):
            for ch in ast.iter_child_nodes(s):
                self.value(ch, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assign):
            v = self.value(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.store(t, v, env)
            return env
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            self.store(s.target, self.value(s.value, env), env)
            return env
        if isinstance(s, ast.If):
            env = dict(env)
            self.value(s.test, env)
            self.guards.append(s.test)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            self.guards.pop()
            return self.join([a, b])
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            env = dict(env)
            loop = env
            n0, c0 = len(self.uses), len(self.convs)
            for _ in range(2):
                e1 = dict(loop)
                if isinstance(s, ast.While):
                    self.value(s.test, e1)
                    self.guards.append(s.test)
                else:
                    self.bind_iter(s.target, self.value(s.iter, e1), e1)
                e2 = self.block(s.body, e1)
                if isinstance(s, ast.While):
                    self.guards.pop()
                # names bound by any exit of the body
                exits = self.join([e2, loop])
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        exits.setdefault(n.id, frozenset())
                loop = exits
            return self.join([self.block(s.orelse, dict(loop)) if s.orelse else loop, loop])
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            if a is not None:
                a = self.block(s.orelse, a)
            outs = [a]
            for h in s.handlers:
                outs.append(self.block(h.body, dict(env)))
            j = self.join(outs)
            if s.finalbody:
                j2 = self.block(s.finalbody, j if j is not None else dict(env))
                return j2 if j is not None else None
            return j
        if isinstance(s, ast.With):
            for it in s.items:
                self.value(it.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return env
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.value(ch, env)
        return env
