"""Whole-program abstract interpretation: types, points-to/aliasing, effects.

Domain of a value (AV): a set of type terms (None = unknown) and a set of
abstract locations.  A location is (root, path): root is a parameter
("p:name"), a module global ("g:mod.name"), a class attribute holder
("c:Class"), or an allocation site ("s:...", always with empty path; its
fields live in the local heap).  Each function gets a summary - what it
mutates (as access paths of parameters / globals / class attributes), what it
returns, what it stores where - computed bottom-up to a fixpoint over the whole
package with joins at merges; no path is enumerated and nothing is executed.
"""
import ast
import sys

from .srcmodel import Program, dotted, target_names, strip_doc, deco_name

sys.setrecursionlimit(10000)

TOP = None
MAXPATH = 5
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse",
            "update", "add", "discard", "setdefault", "popitem", "popleft", "appendleft",
            "rotate", "__setitem__", "__delitem__", "__setattr__", "__delattr__", "difference_update", "intersection_update",
            "symmetric_difference_update"}
STR_METHODS = {m for m in dir(str) if not m.startswith("__")}
BUILTIN_CONTAINER = {"list", "dict", "set", "tuple", "frozenset", "deque", "iter", "gen"}
SCALAR = {"str", "int", "bool", "float", "NoneType", "bytes", "complex", "Pattern", "Match", "ext", "type", "func", "slice", "range"}
SAFE_LIBS = ("os", "sys", "re", "json", "copy", "logging", "loguru", "functools", "itertools", "operator")


class AV:
    __slots__ = ("types", "locs", "const", "_h")

    def __init__(self, types=TOP, locs=frozenset(), const=None):
        self.types = types
        self.locs = locs
        self.const = const
        self._h = None

    def __eq__(self, o):
        return isinstance(o, AV) and self.types == o.types and self.locs == o.locs and self.const == o.const

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.types, self.locs, self.const))
        return self._h

    def __repr__(self):
        return f"AV({sorted(map(str, self.types)) if self.types is not None else 'TOP'}, {sorted(self.locs)})"

    @property
    def tags(self):
        """simple tags of the types, or None"""
        if self.types is None:
            return None
        return {t if isinstance(t, str) else t[0] for t in self.types}


BOT = AV(frozenset())
UNKNOWN = AV(TOP)
MAXTYPES = 24


def jt(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    # merge container types with the same tag
    out = {}
    for t in list(a) + list(b):
        if isinstance(t, tuple):
            if t[0] in out:
                o = out[t[0]]
                out[t[0]] = (t[0],) + tuple(jt(x, y) for x, y in zip(o[1:], t[1:]))
            else:
                out[t[0]] = t
        else:
            out.setdefault(t, t)
    r = frozenset(out.values())
    if len(r) > MAXTYPES:
        return None
    return r


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    c = a.const if a.const == b.const else None
    return AV(jt(a.types, b.types), a.locs | b.locs, c)


def depth_limit(t, d=3):
    if t is None or isinstance(t, str):
        return t
    if isinstance(t, frozenset):
        if d <= 0:
            return None if any(isinstance(x, tuple) for x in t) else t
        return frozenset(depth_limit(x, d) for x in t)
    return (t[0],) + tuple(depth_limit(x, d - 1) for x in t[1:])


def T(*tags):
    return frozenset(tags)


def listof(elem):
    return frozenset([("list", depth_limit(elem))])


STR = AV(T("str"))
INT = AV(T("int"))
BOOL = AV(T("bool"))
NONE = AV(T("NoneType"))


class Summary:
    def __init__(self):
        self.muts = {}       # (root, path, what) -> provenance tuple ((qual, line), ...)
        self.ret = BOT
        self.heap = {}       # (loc, field) -> AV reachable from params / ret
        self.events = []

    def key(self):
        return (frozenset(self.muts), self.ret, frozenset(self.heap.items()))


class Interp:
    def __init__(self, prog, seeds=None, max_rounds=12):
        self.p = prog
        self.sum = {}
        self.attr = {}          # (Cls, attr) -> types
        self.ptypes = {}        # (qual, param) -> types (join over call sites)
        self.gtypes = {}        # (mod, name) -> AV types
        self.seeds = seeds or {}
        self.rounds = 0
        self.collect = False
        self.calls = {}         # qual -> list of call events (final round)
        self.nt = {}            # expression node -> joined abstract value (final round)
        self.unresolved = 0
        self.resolved = 0
        for (c, a), t in (self.seeds.get("attr") or {}).items():
            self.attr[(c, a)] = t
        self.attr_changed = False
        self.prop_names = {}
        self.field_names = set()
        for c in prog.classes.values():
            for n in c.props:
                self.prop_names.setdefault(n, []).append(c.props[n])
        self.deps = {}
        self.run(max_rounds)

    # ---------------------------------------------------------------
    def run(self, max_rounds):
        funcs = [f for f in self.p.funcs.values() if f.outer is None]
        for f in funcs:
            self.sum[f.qual] = Summary()
        for m in self.p.modules.values():
            self._module_globals(m)
        # order: callees tend to be leaf methods; iterate to a fixpoint
        callers = {}
        self._cur_deps = None
        dirty = {f.qual for f in funcs}
        byq = {f.qual: f for f in funcs}
        for rnd in range(max_rounds):
            self.rounds = rnd + 1
            changed = set()
            self.changed_attrs = set()
            self.changed_params = set()
            for f in funcs:
                if f.qual not in dirty:
                    continue
                self._cur_deps = set()
                s = FuncEval(self, f).run()
                for d in self._cur_deps:
                    callers.setdefault(d, set()).add(f.qual)
                old = self.sum[f.qual]
                if s.key() != old.key():
                    # monotone join to guarantee termination
                    changed.add(f.qual)
                self.sum[f.qual] = s
            nd = set()
            for q in changed:
                nd |= callers.get(q, set())
            for a in self.changed_attrs:
                nd |= callers.get(("attr", a), set())
            for qp in self.changed_params:
                nd.add(qp)
            if not nd:
                break
            dirty = {q for q in nd if q in byq}
        # final collecting round
        self.collect = True
        self._cur_deps = set()
        for f in funcs:
            fe = FuncEval(self, f)
            self.sum[f.qual] = fe.run()
        self.collect = False

    def _module_globals(self, m):
        for name, vals in m.globals.items():
            av = BOT
            for v in vals:
                if v is None:
                    av = join(av, UNKNOWN)
                elif isinstance(v, ast.Constant):
                    av = join(av, AV(T(type(v.value).__name__)))
                elif isinstance(v, (ast.List, ast.ListComp)):
                    av = join(av, AV(listof(TOP)))
                elif isinstance(v, (ast.Dict, ast.DictComp)):
                    av = join(av, AV(frozenset([("dict", None, None)])))
                elif isinstance(v, (ast.Set, ast.SetComp)):
                    av = join(av, AV(frozenset([("set", None)])))
                elif isinstance(v, ast.JoinedStr):
                    av = join(av, STR)
                elif isinstance(v, ast.Call) and dotted(v.func) in ("re.compile",):
                    av = join(av, AV(T("Pattern")))
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("format", "join", "strip"):
                    av = join(av, STR)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set"):
                    av = join(av, AV({"dict": frozenset([("dict", None, None)]), "list": listof(TOP), "set": frozenset([("set", None)])}[v.func.id]))
                else:
                    av = join(av, UNKNOWN)
            self.gtypes[(m.name, name)] = av.types if vals else TOP

    def note_attr(self, cls, attr, types):
        if (cls, attr) in (self.seeds.get("attr") or {}):
            return
        k = (cls, attr)
        old = self.attr.get(k, frozenset())
        new = jt(old, depth_limit(types)) if types is not None else None
        if k not in self.attr or new != old:
            self.attr[k] = new
            self.changed_attrs.add(k)

    def attr_types(self, cls, attr):
        """declared/inferred types of instance attribute; (found, types)"""
        c = self.p.classes.get(cls)
        if c is None:
            return False, None
        found, t = False, frozenset()
        names = [k.name for k in c.mro] + sorted(self.p.subclasses.get(cls, ()))
        for k in names:
            if self._cur_deps is not None:
                self._cur_deps.add(("attr", (k, attr)))
            if (k, attr) in self.attr:
                found = True
                t = jt(t, self.attr[(k, attr)])
            kc = self.p.classes.get(k)
            if kc is not None and attr in kc.attrs and k in {x.name for x in c.mro}:
                found = True
                v = kc.attrs[attr]
                if isinstance(v, ast.Constant):
                    t = jt(t, T(type(v.value).__name__))
                elif isinstance(v, ast.List):
                    t = jt(t, listof(frozenset()))
                elif isinstance(v, ast.Dict):
                    t = jt(t, frozenset([("dict", frozenset(), frozenset())]))
                elif isinstance(v, ast.Call) and dotted(v.func) == "re.compile":
                    t = jt(t, T("Pattern"))
                else:
                    t = None
        return found, t

    def note_param(self, qual, param, types):
        k = (qual, param)
        old = self.ptypes.get(k, frozenset())
        new = jt(old, depth_limit(types)) if types is not None else None
        if k not in self.ptypes or new != old:
            self.ptypes[k] = new
            self.changed_params.add(qual)


ANN = {"str": T("str"), "int": T("int"), "bool": T("bool"), "float": T("float"), "list": listof(TOP),
       "dict": frozenset([("dict", None, None)]), "set": frozenset([("set", None)]), "tuple": frozenset([("tuple", None)])}


class FuncEval:
    def __init__(self, I, f, env=None, heap=None, muts=None, depth=0):
        self.I = I
        self.p = I.p
        self.f = f
        self.m = f.module
        self.heap = {} if heap is None else heap
        self.muts = {} if muts is None else muts
        self.ret = BOT
        self.env0 = env
        self.depth = depth
        self.breaks = []
        self.globals_decl = set()
        self.inl_depth = depth

    # ---------------------------------------------------------------
    def run(self):
        f = self.f
        env = {}
        for i, p in enumerate(f.all_params):
            root = "p:" + p
            t = self.param_type(p, i)
            if p == f.vararg:
                t = frozenset([("tuple", None)])
            elif p == f.kwarg:
                t = frozenset([("dict", None, None)])
            env[p] = AV(t, frozenset([(root, ())]))
        env["<dead>"] = False
        out = self.block(strip_doc(f.node.body), env)
        if out is not None:
            self.ret = join(self.ret, NONE)
        s = Summary()
        s.muts = {k: v for k, v in self.muts.items() if not k[0].startswith("s:")}
        s.ret, s.heap = self.close(self.ret)
        return s

    def close(self, ret):
        """keep the part of the heap reachable from params/globals or ret"""
        keep = {}
        work = [l for l in ret.locs]
        seen = set()
        for (loc, fld), av in self.heap.items():
            if not loc[0].startswith("s:"):
                keep[(loc, fld)] = av
                work += list(av.locs)
        byloc = {}
        for (loc, fld), av in self.heap.items():
            byloc.setdefault(loc, []).append((fld, av))
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            for fld, av in byloc.get(l, ()):
                keep[(l, fld)] = av
                work += list(av.locs)
        return ret, keep

    def param_type(self, p, i):
        f = self.f
        if f.cls is not None and i == 0 and f.kind in ("method", "property", "setter", "deleter"):
            return T(f.cls.name)
        if f.cls is not None and i == 0 and f.kind == "classmethod":
            return T("cls:" + f.cls.name)
        k = (f.qual, p)
        if k in (self.I.seeds.get("param") or {}):
            return self.I.seeds["param"][k]
        if p in (self.I.seeds.get("pname") or {}) and self.I.seeds["pname"][p] is not None:
            return self.I.seeds["pname"][p]
        # private helper: types from its call sites
        if (f.name.startswith("_") and not f.name.startswith("__")) or f.outer is not None:
            if k in self.I.ptypes:
                t = self.I.ptypes[k]
                d = f.defaults.get(p)
                if d is not None and isinstance(d, ast.Constant):
                    t = jt(t, T(type(d.value).__name__)) if t is not None else None
                return t
        ann = None
        for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs:
            if a.arg == p:
                ann = a.annotation
        if ann is not None and isinstance(ann, ast.Name):
            if ann.id in ANN:
                return ANN[ann.id]
            if ann.id in self.p.classes:
                return T(ann.id)
        return TOP

    # ---- statements -------------------------------------------------
    def block(self, body, env):
        if env is None:
            return None
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def jenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            if k == "<dead>":
                continue
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                out[k] = a.get(k) or b.get(k)
        return out

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(s):
                if isinstance(ch, ast.expr):
                    self.ev(ch, env)
            return env
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)
        # a validating helper: `helper(x, (T,..))` whose body raises unless isinstance(x, T)
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            r = self.p.resolve_name(self.m, v.func.id)
            if r is not None and r[0] == "func":
                g = self.guard_fn(r[1])
                if g is not None:
                    got = dict(zip(r[1].params, v.args))
                    got.update({k.arg: k.value for k in v.keywords})
                    x, tn = got.get(r[1].params[0]), got.get(g)
                    if tn is not None and isinstance(x, ast.Name) and x.id in env:
                        test = ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()), args=[x, tn], keywords=[])
                        return self.refine(test, env, True)
        return env

    def guard_fn(self, f):
        """f(v, t): raises when not isinstance(v, t) -> name of t"""
        ps = f.params
        if len(ps) < 2:
            return None
        for st in strip_doc(f.node.body):
            if isinstance(st, ast.If) and isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not):
                c = st.test.operand
                if isinstance(c, ast.Call) and dotted(c.func) == "isinstance" and len(c.args) == 2 \
                        and dotted(c.args[0]) == ps[0] and dotted(c.args[1]) == ps[1] and isinstance(st.body[-1], ast.Raise):
                    return ps[1]
        return None

    def s_Pass(self, s, env):
        return env

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else NONE
        self.ret = join(self.ret, v)
        return None

    def s_Raise(self, s, env):
        if s.exc is not None:
            self.ev(s.exc, env)
        return None

    def s_Break(self, s, env):
        if self.breaks:
            self.breaks[-1].append(dict(env))
        return None

    def s_Continue(self, s, env):
        if self.breaks:
            self.breaks[-1].append(dict(env))
        return None

    def s_Global(self, s, env):
        self.globals_decl.update(s.names)
        return env

    def s_Nonlocal(self, s, env):
        return env

    def s_Import(self, s, env):
        for a in s.names:
            env[(a.asname or a.name.split(".")[0])] = AV(T("ext"))
        return env

    def s_ImportFrom(self, s, env):
        for a in s.names:
            nm = a.asname or a.name
            if a.name in self.p.classes:
                env[nm] = AV(T("cls:" + a.name))
            else:
                env[nm] = AV(TOP)
        return env

    def s_FunctionDef(self, s, env):
        g = self.p.func_by_node.get(s)
        env[s.name] = AV(T("local:" + (g.qual if g else s.name)))
        return env

    def s_ClassDef(self, s, env):
        env[s.name] = UNKNOWN
        return env

    def s_Assert(self, s, env):
        self.ev(s.test, env)
        return self.refine(s.test, env, True)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, env)
                self.ev(t.slice, env)
                self.mutate(base, "delitem", s)
                self.dunder(base, "__delitem__", [UNKNOWN], s)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, env)
                self.mutate(base, "delattr:" + t.attr, s)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return env

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return env

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s)
        return env

    def s_AugAssign(self, s, env):
        rhs = self.ev(s.value, env)
        cur = self.ev(s.target, env, store_ctx=True)
        # in-place on mutable containers
        tags = cur.tags
        mutable = tags is None or any((x in ("list", "set", "dict", "deque") or x in self.p.classes) for x in tags)
        if tags is None and rhs.tags is not None and rhs.tags <= {"int", "str", "float", "bool"}:
            mutable = False
        if mutable:
            onlyc = cur
            self.mutate(onlyc, "augassign", s)
            for l in cur.locs:
                self.hput(l, "[]", self.elem(rhs, s))
            name = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__"}.get(type(s.op))
            r = None
            if name:
                r = self.dunder(cur, name, [rhs], s)
            v = join(cur, self.binop_result(cur, rhs, s))
            if r is not None:
                v = join(v, r)
        else:
            v = self.binop_result(cur, rhs, s)
        self.assign(s.target, v, env, s)
        return env

    def s_If(self, s, env):
        self.ev(s.test, env)
        a = self.block(s.body, self.refine(s.test, dict(env), True))
        b = self.block(s.orelse, self.refine(s.test, dict(env), False))
        return self.jenv(a, b)

    def s_While(self, s, env):
        self.breaks.append([])
        e = dict(env)
        for _ in range(2):
            self.ev(s.test, e)
            o = self.block(s.body, dict(e))
            for x in self.breaks[-1]:
                o = self.jenv(o, x)
            e = self.jenv(e, o)
        br = self.breaks.pop()
        if s.orelse:
            e = self.block(s.orelse, e)
        return e

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        self.breaks.append([])
        e = dict(env)
        for _ in range(2):
            b = dict(e)
            self.assign_iter(s.target, s.iter, it, b, s)
            o = self.block(s.body, b)
            for x in self.breaks[-1]:
                o = self.jenv(o, x)
            e = self.jenv(e, o)
        self.breaks.pop()
        if s.orelse:
            e2 = self.block(s.orelse, dict(e))
            e = self.jenv(e, e2) if e2 is not None else e
        return e

    s_AsyncFor = s_For

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, AV(TOP, v.locs), env, s)
        return self.block(s.body, env)

    s_AsyncWith = s_With

    def s_Try(self, s, env):
        pre = dict(env)
        body = self.block(s.body, dict(env))
        # state at a handler: any prefix of body; approximate with join(pre, body-any)
        h_in = dict(pre)
        probe = dict(pre)
        for st in s.body:
            if probe is None:
                break
            h_in = self.jenv(h_in, probe)
            sv = self.ret
            probe = self.stmt(st, dict(probe))
        if probe is not None:
            h_in = self.jenv(h_in, probe)
        outs = body
        if body is not None and s.orelse:
            outs = self.block(s.orelse, body)
        for h in s.handlers:
            he = dict(h_in)
            if h.name:
                he[h.name] = AV(T("exc"))
            outs = self.jenv(outs, self.block(h.body, he))
        if s.finalbody:
            if outs is None:
                self.block(s.finalbody, dict(h_in))
            else:
                outs = self.block(s.finalbody, outs)
        return outs

    s_TryStar = s_Try

    def s_Match(self, s, env):
        self.ev(s.subject, env)
        out = dict(env)
        for c in s.cases:
            e = dict(env)
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    e[nm] = UNKNOWN
            out = self.jenv(out, self.block(c.body, e))
        return out

    # ---- refinement ---------------------------------------------------
    def refine(self, test, env, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and truth) or (isinstance(test.op, ast.Or) and not truth):
                for v in test.values:
                    env = self.refine(v, env, truth)
                    if env is None:
                        return None
            elif isinstance(test.op, ast.Or) and truth:
                # isinstance(x,A) or isinstance(x,B)
                outs = None
                for v in test.values:
                    outs = self.jenv(outs, self.refine(v, dict(env), True))
                return outs
            return env
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            nm = test.args[0]
            if isinstance(nm, ast.Name) and nm.id in env:
                ts = self.class_tags(test.args[1], env)
                if ts is not None:
                    cur = env[nm.id]
                    sure = cur.const == ("sure", None)
                    if sure and cur.types is not None:
                        inside = [t for t in cur.types if self.tag_matches(t, ts)]
                        definite = [t for t in cur.types if self.tag_matches(t, ts, strict=True)]
                        if truth and not inside:
                            return None
                        if not truth and len(definite) == len(cur.types):
                            return None
                    if truth:
                        if cur.types is None:
                            env[nm.id] = AV(frozenset(self.tag_type(t) for t in ts), cur.locs, ("sure", None))
                        else:
                            keep = frozenset(t for t in cur.types if self.tag_matches(t, ts))
                            if not keep:
                                keep = frozenset(self.tag_type(t) for t in ts)
                            env[nm.id] = AV(keep, cur.locs, cur.const if sure else None)
                    elif cur.types is not None:
                        keep = frozenset(t for t in cur.types if not self.tag_matches(t, ts, strict=True))
                        env[nm.id] = AV(keep or cur.types, cur.locs)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isop = isinstance(test.ops[0], (ast.Is, ast.Eq))
            cur = env[test.left.id]
            if cur.types is not None:
                if isop == truth:
                    env[test.left.id] = AV(T("NoneType"), frozenset())
                else:
                    k = frozenset(t for t in cur.types if t != "NoneType")
                    env[test.left.id] = AV(k or cur.types, cur.locs)
        return env

    def class_tags(self, n, env):
        if isinstance(n, ast.Tuple):
            out = set()
            for e in n.elts:
                t = self.class_tags(e, env)
                if t is None:
                    return None
                out |= t
            return out
        d = dotted(n)
        if d is None:
            return None
        d = d.split(".")[-1]
        if d in self.p.classes:
            return {d}
        if d in ("str", "int", "bool", "float", "list", "dict", "set", "tuple", "bytes", "frozenset", "deque"):
            return {d}
        if d == "Pattern" or d == "Match":
            return {d}
        return None

    def tag_type(self, t):
        if t in ("list", "set", "tuple", "frozenset", "deque"):
            return (t, None)
        if t == "dict":
            return ("dict", None, None)
        return t

    def tag_matches(self, t, ts, strict=False):
        tag = t if isinstance(t, str) else t[0]
        if tag in ts:
            return True
        if tag == "bool" and "int" in ts:
            return True
        if tag in self.p.classes:
            return any(self.p.is_subclass(tag, x) or (not strict and self.p.is_subclass(x, tag)) for x in ts)
        return False

    # ---- heap ---------------------------------------------------------
    def hput(self, loc, fld, av):
        k = (loc, fld)
        av = AV(depth_limit(av.types), av.locs)
        if len(av.locs) > 40:
            av = AV(av.types, frozenset(sorted(av.locs)[:40]))
        if k in self.heap:
            self.heap[k] = join(self.heap[k], av)
        else:
            self.heap[k] = av

    def mk_loc(self, loc, fld):
        root, path = loc
        if len(path) >= MAXPATH:
            return (root, path)
        # recursive structure: collapse repeated parent / children chains
        if fld in path and fld != "[]":
            i = path.index(fld)
            return (root, path[:i + 1])
        if fld == "[]" and path and path[-1] == "[]":
            if len(path) > 1 and path[-2] == "[]":
                return loc
        return (root, path + (fld,))

    def hget(self, av, fld):
        """locations and stored AVs reachable by field"""
        locs = set()
        out = None
        for l in av.locs:
            if not l[0].startswith("s:"):
                locs.add(self.mk_loc(l, fld))
            k = (l, fld)
            if k in self.heap:
                out = join(out, self.heap[k])
        return frozenset(locs), out

    def elem(self, av, node=None):
        """an element of a container value"""
        locs, out = self.hget(av, "[]")
        t = frozenset()
        if av.types is None:
            t = None
        else:
            for x in av.types:
                if isinstance(x, tuple):
                    e = x[1]
                    t = jt(t, e) if e is not None else None
                elif x == "str":
                    t = jt(t, T("str"))
                elif x in self.p.classes:
                    g = self.p.find_method(x, "__iter__") or self.p.find_method(x, "__getitem__")
                    e = (self.I.seeds.get("elem") or {}).get(x)
                    t = jt(t, e) if e is not None else None
                elif x in ("NoneType", "int", "bool", "float", "Match", "Pattern"):
                    pass
                elif x == "range":
                    t = jt(t, T("int"))
                else:
                    t = None
                if t is None:
                    break
        if av.types is not None and any(x in self.p.classes for x in av.types if isinstance(x, str)):
            # iterating an in-package sequence: elements of its backing list
            l2 = set()
            for l in av.locs:
                if not l[0].startswith("s:"):
                    l2.add(self.mk_loc(self.mk_loc(l, "._list"), "[]"))
                else:
                    k = (l, "._list")
                    if k in self.heap:
                        inner = self.heap[k]
                        ll, oo = self.hget(inner, "[]")
                        l2 |= ll
                        out = join(out, oo) if oo is not None else out
            locs = locs | frozenset(l2)
        r = AV(t, locs)
        if out is not None:
            r = AV(jt(t, out.types) if t is not None else (out.types if t == frozenset() else None), locs | out.locs)
            if t is None and out.types is not None:
                r = AV(None, locs | out.locs)
        return r

    def new(self, types, node, content=None, extra=""):
        sid = f"s:{self.f.qual}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}{extra}"
        loc = (sid, ())
        if content is not None:
            self.hput(loc, "[]", content)
        return AV(types, frozenset([loc]))

    def mutate(self, av, what, node, via=()):
        tags = av.tags
        if tags is not None and tags <= SCALAR and tags:
            return
        for l in av.locs:
            if l[0].startswith("s:"):
                continue
            k = (l[0], l[1], what)
            if k not in self.muts:
                self.muts[k] = ((self.f.qual, getattr(node, "lineno", 0)),) + tuple(via)

    # ---- assignment ----------------------------------------------------
    def assign_iter(self, target, iternode, it, env, s):
        # enumerate / zip / items precise enough through elem()
        self.assign(target, self.iter_elem(iternode, it, env, s), env, s)

    def iter_elem(self, iternode, it, env, s):
        return self.elem(it, s)

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            if t.id in self.globals_decl:
                av = AV(TOP, frozenset([("g:" + self.m.name + "." + t.id, ())]))
                self.muts.setdefault(("g:" + self.m.name, (), "rebind:" + t.id), ((self.f.qual, s.lineno),))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            # tuple types carry one joined element type; use positional when known
            for i, e in enumerate(t.elts):
                locs, out = self.hget(v, f"[{i}]")
                if out is not None:
                    x = out
                else:
                    x = self.elem(v, s)
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.new(listof(x.types), s, x), env, s)
                else:
                    self.assign(e, x, env, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            self.setattr(base, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            self.mutate(base, "setitem", s)
            for l in base.locs:
                self.hput(l, "[]", v)
            self.dunder(base, "__setitem__", [idx, v], s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, s)

    def setattr(self, base, attr, v, s):
        # property setter?
        handled = False
        if base.types is not None:
            for x in base.types:
                if isinstance(x, str) and x in self.p.classes:
                    r = self.p.lookup(x, attr, ("setters",))
                    if r:
                        handled = True
                        self.apply_summary(r[2], [base, v], {}, s)
                    else:
                        self.I.note_attr(x, attr, v.types)
                elif isinstance(x, str) and x.startswith("cls:"):
                    self.muts.setdefault(("c:" + x[4:], (), "setattr:" + attr), ((self.f.qual, s.lineno),))
                    self.I.note_attr(x[4:], attr, v.types)
        else:
            for c in self.p.classes.values():
                if attr in c.setters:
                    # unknown receiver: possible setter
                    self.apply_summary(c.setters[attr], [base, v], {}, s)
                    break
        self.mutate(base, "setattr:" + attr, s)
        for l in base.locs:
            self.hput(l, "." + attr, v)

    # ---- expressions -----------------------------------------------------
    def ev(self, n, env, store_ctx=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.expr):
                    self.ev(ch, env)
            return UNKNOWN
        v = m(n, env)
        if self.I.collect:
            o = self.I.nt.get(n)
            self.I.nt[n] = v if o is None else join(o, v)
        return v

    def e_Constant(self, n, env):
        v = n.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return UNKNOWN
        c = v if isinstance(v, (str, int, bool, float)) else None
        return AV(T(type(v).__name__), frozenset(), (type(v).__name__, c) if c is not None else None)

    def e_JoinedStr(self, n, env):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, env)
                self.dunder(x, "__str__", [], n)
        return STR

    def e_FormattedValue(self, n, env):
        self.ev(n.value, env)
        return STR

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        r = self.p.resolve_name(self.m, n.id)
        if r is None:
            # nested function of an enclosing function
            f = self.f
            while f is not None:
                if n.id in f.nested:
                    return AV(T("local:" + f.nested[n.id].qual))
                f = f.outer
            if n.id in ("str", "int", "list", "dict", "set", "tuple", "float", "bool", "object"):
                return AV(T("type"), frozenset(), ("type", n.id))
            return UNKNOWN
        if r[0] == "class":
            return AV(T("cls:" + r[1].name), frozenset([("c:" + r[1].name, ())]))
        if r[0] == "func":
            return AV(T("func"), frozenset(), ("func", r[1].qual))
        if r[0] == "global":
            mod, name = r[1], r[2]
            t = self.I.gtypes.get((mod.name, name))
            return AV(t, frozenset([("g:" + mod.name + "." + name, ())]))
        return AV(T("ext"))

    def e_Attribute(self, n, env):
        base = self.ev(n.value, env)
        return self.getattr(base, n.attr, n)

    def getattr(self, base, attr, n):
        out = None
        locs, stored = self.hget(base, "." + attr)
        t = frozenset()
        if base.types is None:
            # unknown receiver: any property of that name
            cands = self.I.prop_names.get(attr, [])
            for g in cands:
                r = self.apply_summary(g, [base], {}, n, quiet_ret=True)
                out = join(out, r) if out is not None else r
            t = None
            # a seeded attribute name
            st = (self.I.seeds.get("attrname") or {}).get(attr)
            if st is not None:
                t = st
        else:
            known = False
            for x in base.types:
                if isinstance(x, str) and x in self.p.classes:
                    r = self.p.lookup(x, attr, ("props",))
                    subs = [r[2]] if r else []
                    for sc in sorted(self.p.subclasses.get(x, ())):
                        if attr in self.p.classes[sc].props and self.p.classes[sc].props[attr] not in subs:
                            subs.append(self.p.classes[sc].props[attr])
                    if subs and r:
                        for g in subs:
                            rr = self.apply_summary(g, [base], {}, n)
                            out = join(out, rr) if out is not None else rr
                        # properties produce no direct field location
                        known = True
                        continue
                    if subs:
                        for g in subs:
                            rr = self.apply_summary(g, [base], {}, n)
                            out = join(out, rr) if out is not None else rr
                    mm = self.p.lookup(x, attr, ("methods",))
                    if mm:
                        t = jt(t, T("bound"))
                        known = True
                        continue
                    found, at = self.I.attr_types(x, attr)
                    if found:
                        known = True
                        t = jt(t, at) if at is not None else None
                    elif not subs:
                        t = None
                elif isinstance(x, str) and x.startswith("cls:"):
                    cn = x[4:]
                    r = self.p.lookup(cn, attr)
                    if r and r[0] == "attrs":
                        # class-level object, shared by every instance
                        locs = locs | frozenset([("c:" + r[1].name, ("." + attr,))])
                        t = None if t is None else jt(t, self.I.attr_types(cn, attr)[1])
                    else:
                        t = jt(t, T("func")) if t is not None else None
                else:
                    t = None
                if t is None:
                    break
            if known and out is not None and t == frozenset() and all(
                    isinstance(x, str) and x in self.p.classes and self.p.lookup(x, attr, ("props",)) for x in base.types):
                if stored is not None:
                    out = join(out, stored)
                return out
        r = AV(t, locs)
        if stored is not None:
            r = AV(jt(t, stored.types) if t is not None else None, locs | stored.locs)
        if out is not None:
            r = AV(jt(r.types, out.types), r.locs | out.locs)
        st = (self.I.seeds.get("attrname") or {}).get(attr)
        if r.types is None and st is not None:
            r = AV(st, r.locs)
        return r

    def e_Subscript(self, n, env):
        base = self.ev(n.value, env)
        idx = self.ev(n.slice, env)
        if isinstance(n.slice, ast.Slice):
            t = base.types
            if base.tags is not None and base.tags <= {"str", "bytes"} and base.tags:
                return AV(t)
            e = self.elem(base, n)
            r = self.dunder(base, "__getitem__", [AV(T("slice"))], n)
            nt = frozenset(x for x in t if not (isinstance(x, str) and x in self.p.classes)) if t is not None else None
            v = self.new(nt if nt != frozenset() or r is None else frozenset(), n, e)
            return join(v, r) if r is not None else v
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            locs, out = self.hget(base, f"[{n.slice.value}]")
            if out is not None:
                return out
        if base.types is not None:
            ts = frozenset()
            for x in base.types:
                if isinstance(x, tuple) and x[0] == "dict":
                    ts = jt(ts, x[2]) if x[2] is not None else None
                elif x == "Match":
                    ts = jt(ts, T("str", "NoneType"))
                elif x == "NoneType":
                    pass
                else:
                    e = self.elem(AV(frozenset([x])), n)
                    ts = jt(ts, e.types) if e.types is not None else None
                if ts is None:
                    break
            e = self.elem(base, n)
            r = self.dunder(base, "__getitem__", [idx], n)
            v = AV(ts if ts is None or e.types is None else ts, e.locs)
            if ts == frozenset():
                v = AV(e.types, e.locs)
            if r is not None:
                # element of an in-package sequence
                v = AV(v.types, v.locs | r.locs)
            return v
        return self.elem(base, n)

    def e_Slice(self, n, env):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ev(x, env)
        return AV(T("slice"))

    def e_List(self, n, env):
        c = BOT
        for e in n.elts:
            v = self.ev(e.value if isinstance(e, ast.Starred) else e, env)
            c = join(c, self.elem(v, n) if isinstance(e, ast.Starred) else v)
        return self.new(listof(c.types), n, c)

    def e_Tuple(self, n, env):
        c = BOT
        vs = []
        for e in n.elts:
            v = self.ev(e.value if isinstance(e, ast.Starred) else e, env)
            vs.append(v)
            c = join(c, self.elem(v, n) if isinstance(e, ast.Starred) else v)
        r = self.new(frozenset([("tuple", depth_limit(c.types))]), n, c)
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            for l in r.locs:
                for i, v in enumerate(vs):
                    self.hput(l, f"[{i}]", v)
        return r

    def e_Set(self, n, env):
        c = BOT
        for e in n.elts:
            c = join(c, self.ev(e, env))
        return self.new(frozenset([("set", depth_limit(c.types))]), n, c)

    def e_Dict(self, n, env):
        c = BOT
        kt = BOT
        for k, v in zip(n.keys, n.values):
            if k is not None:
                kt = join(kt, self.ev(k, env))
                c = join(c, self.ev(v, env))
            else:
                c = join(c, self.elem(self.ev(v, env), n))
        return self.new(frozenset([("dict", depth_limit(kt.types), depth_limit(c.types))]), n, c)

    def comp(self, n, env, elts):
        e = dict(env)
        for g in n.generators:
            it = self.ev(g.iter, e)
            self.assign_iter(g.target, g.iter, it, e, n)
            for c in g.ifs:
                self.ev(c, e)
                e = self.refine(c, e, True) or e
        return [self.ev(x, e) for x in elts]

    def e_ListComp(self, n, env):
        (v,) = self.comp(n, env, [n.elt])
        return self.new(listof(v.types), n, v)

    def e_GeneratorExp(self, n, env):
        (v,) = self.comp(n, env, [n.elt])
        return self.new(frozenset([("gen", depth_limit(v.types))]), n, v)

    def e_SetComp(self, n, env):
        (v,) = self.comp(n, env, [n.elt])
        return self.new(frozenset([("set", depth_limit(v.types))]), n, v)

    def e_DictComp(self, n, env):
        k, v = self.comp(n, env, [n.key, n.value])
        return self.new(frozenset([("dict", depth_limit(k.types), depth_limit(v.types))]), n, v)

    def e_BoolOp(self, n, env):
        out = None
        e = dict(env)
        for v in n.values:
            x = self.ev(v, e)
            out = join(out, x) if out is not None else x
            e = self.refine(v, e, isinstance(n.op, ast.And)) or e
        return out

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        te, fe = self.refine(n.test, dict(env), True), self.refine(n.test, dict(env), False)
        if te is None:
            return self.ev(n.orelse, env)
        if fe is None:
            return self.ev(n.body, env)
        return join(self.ev(n.body, te), self.ev(n.orelse, fe))

    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, env)
            if isinstance(op, (ast.In, ast.NotIn)):
                self.dunder(r, "__contains__", [l], n)
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                self.dunder(l, "__eq__", [r], n)
            elif isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                self.dunder(l, {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)], [r], n)
            l = r
        return BOOL

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return BOOL if isinstance(n.op, ast.Not) else AV(v.types)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        if isinstance(n.op, ast.Mod) and a.tags is not None and a.tags <= {"str"} and a.tags:
            return STR
        name = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__"}.get(type(n.op))
        r = self.dunder(a, name, [b], n) if name else None
        v = self.binop_result(a, b, n)
        if r is not None:
            if a.types is not None and all(isinstance(x, str) and x in self.p.classes for x in a.types):
                return r
            return join(v, r)
        return v

    def binop_result(self, a, b, n):
        ta, tb = a.tags, b.tags
        if ta is not None and ta and ta <= {"int", "bool", "float", "str", "NoneType"}:
            if tb is not None and tb <= {"int", "bool", "float", "str"} and tb:
                if "str" in ta or "str" in tb:
                    return STR
                return AV(T("float") if "float" in ta | tb else T("int"))
            if ta <= {"str"}:
                return STR
            return AV(jt(a.types, b.types) if tb is not None else None)
        if tb is not None and tb <= {"str"} and tb and ta is not None:
            return STR
        c = join(self.elem(a, n), self.elem(b, n))
        t = jt(a.types, b.types) if a.types is not None and b.types is not None else None
        return self.new(t, n, AV(c.types, c.locs), "+")

    def e_Lambda(self, n, env):
        e = dict(env)
        for a in n.args.args:
            e[a.arg] = UNKNOWN
        self.ev(n.body, e)
        return AV(T("func"))

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env, n)
        return v

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_Await(self, n, env):
        return self.ev(n.value, env)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value else NONE
        self.ret = join(self.ret, self.new(frozenset([("gen", depth_limit(v.types))]), self.f.node, v))
        return UNKNOWN

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        e = self.elem(v, n)
        self.ret = join(self.ret, self.new(frozenset([("gen", depth_limit(e.types))]), self.f.node, e))
        return UNKNOWN

    # ---- calls --------------------------------------------------------------
    def dunder(self, recv, name, args, n):
        """call an in-package dunder on receivers of known class type"""
        if recv.types is None:
            return None
        out = None
        for x in recv.types:
            if isinstance(x, str) and x in self.p.classes:
                g = self.p.find_method(x, name)
                if g is not None:
                    r = self.apply_summary(g, [recv] + args, {}, n)
                    out = join(out, r) if out is not None else r
        return out

    def e_Call(self, n, env):
        fn = n.func
        args = []
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args.append(self.elem(v, n))
                star = True
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star = True
            else:
                kw[k.arg] = v
        # super().x(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == "super":
            return self.super_call(fn.attr, args, kw, n, env)
        if isinstance(fn, ast.Name):
            return self.name_call(fn.id, args, kw, n, env)
        if isinstance(fn, ast.Attribute):
            d = dotted(fn)
            if d is not None:
                rootname = d.split(".")[0]
                if rootname not in env:
                    r = self.p.resolve_name(self.m, rootname)
                    if r is not None and r[0] == "ext":
                        full = r[1] + d[len(rootname):]
                        return self.ext_call(full, args, kw, n, env)
                    if r is not None and r[0] == "module":
                        rest = d.split(".")[1:]
                        if len(rest) == 1:
                            if rest[0] in r[1].functions:
                                return self.apply_summary(r[1].functions[rest[0]], args, kw, n)
                            if rest[0] in r[1].classes:
                                return self.instantiate(r[1].classes[rest[0]], args, kw, n)
                elif rootname == "re" and env[rootname].types is None:
                    return self.ext_call(d, args, kw, n, env)
            recv = self.ev(fn.value, env)
            return self.method_call(recv, fn.attr, args, kw, n, env)
        v = self.ev(fn, env)
        return self.value_call(v, args, kw, n, env)

    def value_call(self, v, args, kw, n, env):
        out = None
        if v.types is not None:
            for x in v.types:
                if isinstance(x, str) and x.startswith("cls:") and x[4:] in self.p.classes:
                    r = self.instantiate(self.p.classes[x[4:]], args, kw, n)
                    out = join(out, r) if out is not None else r
                elif isinstance(x, str) and x.startswith("local:"):
                    r = self.local_call(x[6:], args, kw, n, env)
                    out = join(out, r) if out is not None else r
        if v.const is not None and v.const[0] == "func":
            return self.apply_summary(self.p.funcs[v.const[1]], args, kw, n)
        return out if out is not None else UNKNOWN

    def local_call(self, qual, args, kw, n, env):
        g = self.p.funcs.get(qual)
        if g is None or self.inl_depth > 3:
            return UNKNOWN
        e = dict(env)
        names = g.params
        for i, a in enumerate(args):
            if i < len(names):
                e[names[i]] = a
        for k, v in kw.items():
            e[k] = v
        for p in g.all_params:
            if p not in e or (p not in names[:len(args)] and p not in kw):
                d = g.defaults.get(p)
                e[p] = self.ev(d, env) if d is not None else UNKNOWN
        sub = FuncEval(self.I, self.f, heap=self.heap, muts=self.muts, depth=self.inl_depth + 1)
        sub.f = self.f
        sub.m = self.m
        sub.inl_depth = self.inl_depth + 1
        out = sub.block(strip_doc(g.node.body), e)
        r = sub.ret
        if out is not None:
            r = join(r, NONE)
        return r

    def super_call(self, attr, args, kw, n, env):
        c = self.f.cls
        if c is None:
            return UNKNOWN
        selfav = env.get(self.f.params[0]) if self.f.params else UNKNOWN
        for k in c.mro[1:]:
            if attr in k.methods:
                g = k.methods[attr]
                return self.apply_summary(g, [selfav] + args, kw, n)
            if attr in k.props:
                return self.apply_summary(k.props[attr], [selfav], {}, n)
        if attr in LIST_MUT:
            self.mutate(selfav, "call:super." + attr, n)
        if attr == "__setattr__":
            self.mutate(selfav, "setattr:?", n)
        return UNKNOWN

    def name_call(self, name, args, kw, n, env):
        if name in env:
            v = env[name]
            if v.types is not None and any(isinstance(x, str) and (x.startswith("cls:") or x.startswith("local:")) for x in v.types):
                return self.value_call(v, args, kw, n, env)
            if v.const is not None and v.const[0] in ("func",):
                return self.value_call(v, args, kw, n, env)
            if name not in ("list", "dict", "set", "str", "int"):
                return UNKNOWN
        r = self.p.resolve_name(self.m, name)
        if r is not None:
            if r[0] == "func":
                return self.apply_summary(r[1], args, kw, n)
            if r[0] == "class":
                return self.instantiate(r[1], args, kw, n)
            if r[0] == "ext":
                return self.ext_call(r[1], args, kw, n, env)
            if r[0] == "global":
                return UNKNOWN
        f = self.f
        while f is not None:
            if name in f.nested:
                return self.local_call(f.nested[name].qual, args, kw, n, env)
            f = f.outer
        return self.builtin_call(name, args, kw, n, env)

    def builtin_call(self, name, args, kw, n, env):
        a0 = args[0] if args else None
        if name == "super":
            return UNKNOWN
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "filter", "deque"):
            src = args[1] if name == "filter" and len(args) > 1 else a0
            c = self.elem(src, n) if src is not None else BOT
            tag = {"sorted": "list", "reversed": "list", "iter": "iter", "filter": "iter"}.get(name, name)
            if src is not None:
                self.dunder(src, "__iter__", [], n)
            return self.new(frozenset([(tag, depth_limit(c.types))]), n, c)
        if name == "enumerate":
            c = self.elem(a0, n) if a0 is not None else BOT
            tup = self.new(frozenset([("tuple", jt(c.types, T("int")) if c.types is not None else None)]), n, join(INT, c), "t")
            for l in tup.locs:
                self.hput(l, "[0]", INT)
                self.hput(l, "[1]", c)
            return self.new(frozenset([("iter", depth_limit(tup.types))]), n, tup)
        if name == "zip":
            cs = [self.elem(a, n) for a in args]
            j = BOT
            for c in cs:
                j = join(j, c)
            tup = self.new(frozenset([("tuple", depth_limit(j.types))]), n, j, "t")
            for l in tup.locs:
                for i, c in enumerate(cs):
                    self.hput(l, f"[{i}]", c)
            return self.new(frozenset([("iter", depth_limit(tup.types))]), n, tup)
        if name == "map":
            for a in args[1:]:
                self.elem(a, n)
            # calling a known function over elements
            r = UNKNOWN
            fnn = n.args[0] if n.args else None
            if isinstance(fnn, ast.Lambda):
                e = dict(env)
                for p, a in zip(fnn.args.args, args[1:]):
                    e[p.arg] = self.elem(a, n)
                r = self.ev(fnn.body, e)
            elif isinstance(fnn, ast.Name) and fnn.id in ("int", "str", "float"):
                r = AV(T(fnn.id))
            elif args and args[0].const is not None and args[0].const[0] == "func":
                r = self.apply_summary(self.p.funcs[args[0].const[1]], [self.elem(a, n) for a in args[1:]], {}, n)
            return self.new(frozenset([("iter", depth_limit(r.types))]), n, r)
        if name == "dict":
            c = self.elem(a0, n) if a0 is not None else BOT
            for v in kw.values():
                c = join(c, v)
            return self.new(frozenset([("dict", None, None if c.types is None else depth_limit(c.types))]), n, c)
        if name in ("str", "repr", "format", "chr", "ascii", "hex", "bin", "oct", "input"):
            if a0 is not None:
                self.dunder(a0, "__str__" if name == "str" else "__repr__", [], n)
            return STR
        if name in ("int", "len", "ord", "hash", "id", "sum", "round", "abs"):
            if a0 is not None:
                dn = {"len": "__len__", "hash": "__hash__", "int": "__int__"}.get(name)
                if dn:
                    self.dunder(a0, dn, [], n)
            return INT
        if name == "float":
            return AV(T("float"))
        if name in ("bool", "isinstance", "issubclass", "hasattr", "callable", "any", "all"):
            if a0 is not None and name == "bool":
                self.dunder(a0, "__bool__", [], n)
            return BOOL
        if name == "range":
            return AV(T("range"))
        if name in ("min", "max"):
            if len(args) == 1:
                return self.elem(a0, n)
            out = None
            for a in args:
                out = join(out, a) if out is not None else a
            return out or UNKNOWN
        if name == "next":
            return self.elem(a0, n) if a0 is not None else UNKNOWN
        if name == "getattr":
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                r = self.getattr(a0, n.args[1].value, n)
                if len(args) > 2:
                    r = join(r, args[2])
                return r
            return UNKNOWN
        if name in ("setattr", "delattr"):
            nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else "?"
            if name == "setattr" and len(args) > 2:
                self.setattr(a0, str(nm), args[2], n)
            else:
                self.mutate(a0, "delattr:" + str(nm), n)
            return NONE
        if name == "print":
            return NONE
        if name == "type":
            if a0 is not None and len(args) == 1 and a0.types is not None:
                return AV(frozenset("cls:" + x for x in a0.types if isinstance(x, str) and x in self.p.classes) or T("type"))
            return AV(T("type"))
        if name == "vars":
            return AV(frozenset([("dict", None, None)]), a0.locs if a0 is not None else frozenset())
        return UNKNOWN

    def ext_call(self, full, args, kw, n, env):
        if full in ("copy.deepcopy",):
            return self.new(args[0].types if args else TOP, n)
        if full == "copy.copy":
            a = args[0] if args else UNKNOWN
            v = self.new(a.types, n, self.elem(a, n))
            return v
        if full in ("re.compile",):
            return AV(T("Pattern"))
        if full in ("re.search", "re.match", "re.fullmatch"):
            return AV(T("Match", "NoneType"))
        if full in ("re.sub", "re.escape"):
            return STR
        if full in ("re.split", "re.findall"):
            return self.new(listof(T("str")), n, STR)
        if full in ("random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop", "bisect.insort") and args:
            self.mutate(args[0], "call:" + full, n)
            return UNKNOWN
        if full in ("operator.setitem", "operator.delitem", "operator.iadd", "operator.iconcat") and args:
            self.mutate(args[0], "call:" + full, n)
            return UNKNOWN
        if full in ("collections.deque",):
            c = self.elem(args[0], n) if args else BOT
            return self.new(frozenset([("deque", depth_limit(c.types))]), n, c)
        if full in ("itertools.repeat",) and args:
            return self.new(frozenset([("iter", depth_limit(args[0].types))]), n, args[0])
        if full in ("functools.reduce", "itertools.chain", "itertools.chain.from_iterable", "itertools.islice"):
            c = BOT
            for a in args:
                c = join(c, self.elem(a, n))
            return self.new(frozenset([("iter", depth_limit(c.types))]), n, c)
        return AV(TOP)

    def instantiate(self, c, args, kw, n):
        g = None
        for k in c.mro:
            if "__init__" in k.methods:
                g = k.methods["__init__"]
                break
        obj = self.new(T(c.name), n)
        if g is not None:
            self.apply_summary(g, [obj] + args, kw, n)
        return obj

    def method_call(self, recv, name, args, kw, n, env):
        out = None
        targets = []
        tags = recv.types
        plain = True            # may be a builtin container method
        if tags is not None:
            plain = False
            for x in tags:
                if isinstance(x, str) and x in self.p.classes:
                    g = self.p.find_method(x, name)
                    tl = []
                    if g is not None:
                        tl.append(g)
                    for sc in sorted(self.p.subclasses.get(x, ())):
                        h = self.p.classes[sc].methods.get(name)
                        if h is not None and h not in tl:
                            tl.append(h)
                    if tl:
                        targets += [t for t in tl if t not in targets]
                    else:
                        plain = True
                elif isinstance(x, str) and x.startswith("cls:"):
                    g = self.p.find_method(x[4:], name) if x[4:] in self.p.classes else None
                    if g is not None:
                        if g.kind == "classmethod":
                            r = self.apply_summary(g, [AV(T(x))] + args, kw, n)
                        else:
                            r = self.apply_summary(g, args, kw, n)
                        out = join(out, r) if out is not None else r
                        continue
                    plain = True
                else:
                    plain = True
        else:
            if name in STR_METHODS or name in ("items", "keys", "values", "get", "group", "groups", "groupdict", "search", "match", "copy"):
                targets = []
            else:
                targets = [g for g in self.p.by_name.get(name, []) if g.cls is not None and g.kind in ("method", "classmethod", "staticmethod")]
                self.I.unresolved += self.I.collect
        for g in targets:
            if g.kind == "staticmethod":
                r = self.apply_summary(g, args, kw, n)
            elif g.kind == "classmethod":
                r = self.apply_summary(g, [AV(T("cls:" + g.cls.name))] + args, kw, n)
            else:
                rv = recv if tags is None else AV(frozenset(x for x in tags if isinstance(x, str) and x in self.p.classes), recv.locs)
                r = self.apply_summary(g, [rv] + args, kw, n)
            out = join(out, r) if out is not None else r
        if plain:
            b = self.builtin_method(recv, name, args, kw, n, env)
            if tags is None and targets:
                b = AV(None, b.locs)
            out = join(out, b) if out is not None else b
        if out is None:
            out = UNKNOWN
        return out

    def builtin_method(self, recv, name, args, kw, n, env):
        tags = recv.tags
        strs = tags is not None and tags <= {"str", "NoneType", "bytes"} and bool(tags)
        if strs or (tags is None and name in ("strip", "lstrip", "rstrip", "lower", "upper", "format", "join", "replace", "title", "capitalize",
                                              "zfill", "ljust", "rjust", "encode", "decode", "expandtabs")):
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                return self.new(listof(T("str")), n, STR)
            if name in ("startswith", "endswith", "isdigit", "isalpha", "isspace", "isnumeric", "isupper", "islower"):
                return BOOL
            if name in ("find", "index", "count", "rfind"):
                return INT
            return STR
        if tags is None and name in ("split", "rsplit", "splitlines"):
            return self.new(listof(T("str")), n, STR)
        if tags is None and name in ("startswith", "endswith", "isdigit"):
            return BOOL
        if name in LIST_MUT:
            cont = recv if tags is None else AV(recv.types, recv.locs)
            self.mutate(cont, "call:" + name, n)
            c = BOT
            if name in ("append", "add", "appendleft") and args:
                c = args[0]
            elif name == "insert" and len(args) > 1:
                c = args[1]
            elif name in ("extend", "update") and args:
                c = self.elem(args[0], n)
            elif name == "setdefault" and len(args) > 1:
                c = args[1]
            if c is not BOT:
                for l in recv.locs:
                    self.hput(l, "[]", c)
            if name in ("pop", "popleft", "setdefault", "popitem"):
                return self.elem(recv, n)
            return NONE
        if name == "copy":
            return self.new(recv.types, n, self.elem(recv, n))
        if name in ("items",):
            e = self.elem(recv, n)
            tup = self.new(frozenset([("tuple", None)]), n, e, "t")
            for l in tup.locs:
                self.hput(l, "[0]", STR if recv.types is not None and any(isinstance(x, tuple) and x[0] == "dict" and x[1] == T("str") for x in recv.types) else UNKNOWN)
                self.hput(l, "[1]", e)
            return self.new(frozenset([("iter", None)]), n, tup)
        if name in ("values", "keys"):
            e = self.elem(recv, n) if name == "values" else UNKNOWN
            return self.new(frozenset([("iter", depth_limit(e.types))]), n, e)
        if name == "get":
            e = self.elem(recv, n)
            if recv.types is not None:
                for x in recv.types:
                    if isinstance(x, tuple) and x[0] == "dict":
                        e = AV(x[2], e.locs)
            d = args[1] if len(args) > 1 else NONE
            return AV(jt(e.types, d.types) if e.types is not None else None, e.locs | d.locs)
        if name in ("union", "intersection", "difference", "symmetric_difference", "__add__"):
            c = self.elem(recv, n)
            for a in args:
                c = join(c, self.elem(a, n))
            return self.new(recv.types, n, c)
        if name in ("group",):
            if tags is None or "Match" in tags:
                return AV(T("str", "NoneType"))
        if name == "groups":
            return self.new(frozenset([("tuple", T("str", "NoneType"))]), n)
        if name == "groupdict":
            return self.new(frozenset([("dict", T("str"), T("str", "NoneType"))]), n)
        if name in ("search", "match", "fullmatch") and (tags is None or "Pattern" in tags):
            return AV(T("Match", "NoneType"))
        if name == "sub" and tags is not None and "Pattern" in tags:
            return STR
        if name in ("index", "count", "find") and tags is not None:
            return INT
        # method of an unknown / external object: assumed not to mutate package objects
        return UNKNOWN

    # ---- summaries -------------------------------------------------------------
    def apply_summary(self, g, args, kw, n, quiet_ret=False):
        I = self.I
        q = g.qual
        if I._cur_deps is not None:
            I._cur_deps.add(q)
        bind = {}
        params = g.params
        for i, a in enumerate(args):
            if i < len(params):
                bind[params[i]] = a
            elif g.vararg:
                bind[g.vararg] = join(bind.get(g.vararg, BOT), a)
        extra_kw = BOT
        for k, v in kw.items():
            if k in params or k in g.kwonly:
                bind[k] = v
            elif g.kwarg:
                extra_kw = join(extra_kw, v)
        if g.kwarg and extra_kw is not BOT:
            bind[g.kwarg] = extra_kw
        start = 1 if g.cls is not None and g.kind in ("method", "property", "setter", "classmethod") else 0
        for i, p in enumerate(params):
            if i < start:
                continue
            if p in bind:
                I.note_param(q, p, bind[p].types)
        if I.collect:
            I.calls.setdefault(self.f.qual, []).append((n, q, dict(bind)))
            I.resolved += 1
        s = I.sum.get(q)
        if s is None:
            return UNKNOWN
        # defaults: constants only -> no locations
        sitemap = {}
        self._inst_n = getattr(n, "lineno", 0), getattr(n, "col_offset", 0)

        def tr_loc(l):
            root, path = l
            if root.startswith("p:"):
                base = bind.get(root[2:])
                if base is None:
                    return ()
                cur = base
                # walk the path from the bound value
                for fld in path:
                    cur = self.walk(cur, fld)
                return cur.locs
            if root.startswith("s:"):
                if l not in sitemap:
                    sid = f"s:{self.f.qual}:{self._inst_n[0]}:{self._inst_n[1]}<{len(sitemap) if len(sitemap) < 6 else 'x'}"
                    sitemap[l] = (sid, ())
                return (sitemap[l],)
            return (l,)

        def tr_av(av):
            locs = set()
            for l in av.locs:
                locs.update(tr_loc(l))
            return AV(av.types, frozenset(locs))
        # effects
        prov = None
        for (root, path, what), chain in s.muts.items():
            if root.startswith("p:"):
                b = bind.get(root[2:])
                if b is not None and b.tags is not None and b.tags and b.tags <= SCALAR:
                    continue
                for l in tr_loc((root, path)):
                    if l[0].startswith("s:"):
                        continue
                    if l[0].startswith("g:") and not l[1] and self.scalar_global(l[0]):
                        continue
                    k = (l[0], l[1], what)
                    if k not in self.muts:
                        self.muts[k] = ((self.f.qual, getattr(n, "lineno", 0)),) + tuple(chain[:6])
            else:
                k = (root, path, what)
                if k not in self.muts:
                    self.muts[k] = ((self.f.qual, getattr(n, "lineno", 0)),) + tuple(chain[:6])
        for (loc, fld), av in s.heap.items():
            tav = tr_av(av)
            for l in tr_loc(loc):
                self.hput(l, fld, tav)
        r = tr_av(s.ret)
        if not s.ret.locs and s.ret.types == frozenset():
            return AV(frozenset())
        return r

    def scalar_global(self, root):
        parts = root[2:].rsplit(".", 1)
        if len(parts) != 2:
            return False
        t = self.I.gtypes.get((parts[0], parts[1]))
        return t is not None and all(isinstance(x, str) and x in SCALAR for x in t)

    def walk(self, cur, fld):
        locs, out = self.hget(cur, fld)
        r = AV(TOP, locs)
        if out is not None:
            r = AV(TOP, locs | out.locs)
        return r


CONTAINER_WHATS = ("setitem", "delitem", "augassign")


def is_container_mut(what):
    return what in CONTAINER_WHATS or what.startswith("call:")
