"""C33: argument checks of an edit operation precede its first change.

Per function of the configuration classes: a path-sensitive walk carrying
(has the configuration been changed on this path, which checks of the caller's
arguments have already passed on it).  A raise/assert reached after a change,
or a call that may reject one of the operation's own arguments after a change
without the same check having passed before, is a finding.
"""
import ast

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc
from ..walk import Walk
from ..edits import RAW, Lists, callees, edit_methods, is_reparse, self_call

FAMILIES = ("ConfigList", "CiscoConfParse", "BaseCfgLine")
TEXT_STORES = {"_text", "text", "children", "parent", "_list"}
CHILD_OPS = {"children"}
RE_ARGS = {"compile": (0,), "search": (0,), "match": (0,), "fullmatch": (0,), "findall": (0,), "finditer": (0,), "split": (0,), "sub": (0, 1), "subn": (0, 1)}
STR_METHODS = {"strip", "lstrip", "rstrip", "lower", "upper", "format", "replace", "join", "split", "splitlines", "translate", "encode", "expandtabs", "title"}


def family(prog, f):
    c = f.cls or (f.outer.cls if f.outer else None)
    return c is not None and any(prog.is_subclass(c.name, b) for b in FAMILIES)


class Derived:
    """local names that carry one of the function's own arguments (or text made of it)"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        ps = list(f.params)
        if f.kind in ("method", "property", "setter", "classmethod") and ps:
            ps = ps[1:]
        self.roots = set(ps) | set(f.kwonly) | ({f.vararg} if f.vararg else set()) | ({f.kwarg} if f.kwarg else set())
        self.names = {p: {p} for p in self.roots}
        vals = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                vals.setdefault(n.id, []).append(None)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name):
                vals[n.targets[0].id] = vals.get(n.targets[0].id, []) + [n.value]
        # name = other_name, once, where the other name is never rebound
        self.copies = {k: [x for x in v if x is not None][0] for k, v in vals.items() if k not in self.roots and len(v) == 2 and sum(x is None for x in v) == 1
                       and not vals.get([x for x in v if x is not None][0].id)}
        for _ in range(4):
            n0 = sum(len(v) for v in self.names.values())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, n.value)
                elif isinstance(n, ast.AugAssign):
                    self.bind(n.target, n.value)
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self.bind(n.target, n.iter)
                elif isinstance(n, ast.comprehension):
                    self.bind(n.target, n.iter)
                elif isinstance(n, ast.NamedExpr):
                    self.bind(n.target, n.value)
            if sum(len(v) for v in self.names.values()) == n0:
                break

    def bind(self, t, v):
        r = self.of(v)
        if not r:
            return
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.names.setdefault(x.id, set()).update(r)

    def text(self, e):
        """the argument, seen through plain copies of a name"""
        seen = 0
        while isinstance(e, ast.Name) and e.id in self.copies and seen < 5:
            e, seen = self.copies[e.id], seen + 1
        return ast.unparse(e)

    def of(self, e):
        """the parameters an argument expression is made of"""
        if isinstance(e, ast.Name):
            return set(self.names.get(e.id, ()))
        if isinstance(e, ast.BinOp):
            return self.of(e.left) | self.of(e.right)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.of(v) for v in e.values))
        if isinstance(e, ast.IfExp):
            return self.of(e.body) | self.of(e.orelse)
        if isinstance(e, ast.JoinedStr):
            return set().union(set(), *(self.of(v.value) for v in e.values if isinstance(v, ast.FormattedValue)))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return set().union(set(), *(self.of(v) for v in e.elts))
        if isinstance(e, ast.Dict):
            return set().union(set(), *(self.of(v) for v in e.values))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return set().union(set(), *(self.of(g.iter) for g in e.generators))
        if isinstance(e, ast.Starred):
            return self.of(e.value)
        if isinstance(e, ast.Subscript):
            return self.of(e.value)
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in STR_METHODS | {"get", "items", "values", "keys"}:
                r = self.of(fn.value)
                if fn.attr in ("format", "join"):
                    for a in list(e.args) + [k.value for k in e.keywords]:
                        r = r | self.of(a)
                return r
            d = dotted(fn) or ""
            g = self.prog.resolve_name(self.f.module, d) if d and "." not in d else None
            if d in ("str", "list", "tuple", "set", "sorted", "reversed", "enumerate", "iter", "zip") or d == "re.escape" or d == "re.compile" or g and g[0] == "func":
                return set().union(set(), *(self.of(a) for a in list(e.args) + [k.value for k in e.keywords]))
        return set()


def bind_args(g, call, bound):
    """parameter name -> argument expressions"""
    out = {}
    ps = list(g.params)
    if g.kind in ("method", "classmethod", "setter") and bound:
        ps = ps[1:]
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            for p in ps[i:]:
                out.setdefault(p, []).append(a.value)
            break
        if i < len(ps):
            out.setdefault(ps[i], []).append(a)
        elif g.vararg:
            out.setdefault(g.vararg, []).append(a)
        i += 1
    for k in call.keywords:
        if k.arg is None:
            for p in ps:
                out.setdefault(p, []).append(k.value)
        elif k.arg in g.all_params:
            out.setdefault(k.arg, []).append(k.value)
        elif g.kwarg:
            out.setdefault(g.kwarg, []).append(k.value)
    return out


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.names = edit_methods(prog)
        self.der = {}
        self.lists = {}
        self.rej = {}
        self.mut = {}
        self.sites = set()
        self.checks = set()
        self.followed = set()

    def derived(self, f):
        if f.qual not in self.der:
            self.der[f.qual] = Derived(self.prog, f)
        return self.der[f.qual]

    def L(self, f):
        if f.qual not in self.lists:
            self.lists[f.qual] = Lists(self.prog, f)
        return self.lists[f.qual]

    def targets(self, f, call):
        """package functions a call may reach, with whether a receiver is bound"""
        fn = call.func
        if is_reparse(call):
            return []
        if isinstance(fn, ast.Name):
            r = self.prog.resolve_name(f.module, fn.id)
            if r and r[0] == "class":
                g = self.prog.find_method(r[1].name, "__init__")
                return [(g, True)] if g else []
        if isinstance(fn, ast.Subscript) and isinstance(fn.value, ast.Name) and "BaseCfgLine" in self.prog.classes:
            r = self.prog.resolve_name(f.module, fn.value.id)
            if r and r[0] == "global":
                g = self.prog.find_method("BaseCfgLine", "__init__")
                return [(g, True)] if g else []
        if isinstance(fn, ast.Attribute) and fn.attr in ("__class__",):
            return []
        return [(g, isinstance(fn, ast.Attribute)) for g, _b in callees(self.prog, f, self.L(f), call, self.names)]

    # -- which parameters a function may reject
    def rejects(self, g, stack=()):
        if g.qual in self.rej:
            return self.rej[g.qual]
        if g.qual in stack or len(stack) > 6:
            return set()
        D = self.derived(g)
        out = set()

        def guard(body, tests):
            for s in body:
                if isinstance(s, (ast.Raise, ast.Assert)):
                    ts = tests + ([s.test] if isinstance(s, ast.Assert) else [])
                    for t in ts:
                        out.update(used(t))
                elif isinstance(s, ast.If):
                    guard(s.body, tests + [s.test])
                    guard(s.orelse, tests + [s.test])
                elif isinstance(s, (ast.For, ast.While)):
                    guard(s.body, tests + ([s.test] if isinstance(s, ast.While) else []))
                    guard(s.orelse, tests)
                elif isinstance(s, ast.With):
                    guard(s.body, tests)
                elif isinstance(s, ast.Try):
                    if not s.handlers:
                        guard(s.body, tests)
                    else:
                        guard(s.body, tests)
                    guard(s.orelse, tests)
                    guard(s.finalbody, tests)
                elif isinstance(s, ast.Match):
                    for c in s.cases:
                        guard(c.body, tests + [s.subject])

        def used(t):
            r = set()
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    r |= D.names.get(x.id, set())
            return r
        guard(strip_doc(g.node.body), [])
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                for _p, args in self.rejected_args(g, n, stack + (g.qual,)):
                    for a in args:
                        out |= D.of(a)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    s = self.setter(g, t)
                    if s is not None and D.of(n.value) and self.rejects(s, stack + (g.qual,)):
                        out |= D.of(n.value)
        if not stack:
            self.rej[g.qual] = out
        return out

    def setter(self, f, t):
        c = f.cls or (f.outer.cls if f.outer else None)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and c is not None and f.params and t.value.id == f.params[0]:
            return self.prog.find_setter(c.name, t.attr)
        return None

    def rejected_args(self, f, call, stack=()):
        """[(check name, argument expressions)] the call may refuse"""
        d = dotted(call.func) or ""
        if d.startswith("re.") and d[3:] in RE_ARGS:
            r = self.prog.resolve_name(f.module, "re")
            if r and r[0] == "ext":
                return [("re template" if i else "re pattern", [call.args[i]]) for i in RE_ARGS[d[3:]] if i < len(call.args)]
        if d in ("int", "float") and call.args and "int" not in f.module.functions:
            return [(d, [call.args[0]])]
        out = []
        for g, bound in self.targets(f, call):
            ps = self.rejects(g, stack)
            b = bind_args(g, call, bound)
            for p in sorted(ps):
                if p in b:
                    out.append((f"{g.qual}({p})", b[p]))
        return out

    # -- which functions change the configuration
    def mutates(self, g, stack=()):
        if g.qual in self.mut:
            return self.mut[g.qual]
        if g.qual in stack or g.name == "__init__" or len(stack) > 8:
            return False
        r = False
        for n in ast.walk(g.node):
            if self.mutation(g, n) is not None:
                r = True
                break
            if isinstance(n, ast.Call) and any(self.mutates(h, stack + (g.qual,)) for h, _b in self.targets(g, n)):
                r = True
                break
        if r or not stack:
            self.mut[g.qual] = r
        return r

    def mutation(self, f, n):
        """the node itself changes the line list, a line's text or its links"""
        L = self.L(f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RAW:
            if L.kind(n.func.value) == "raw":
                return n
            if isinstance(n.func.value, ast.Attribute) and n.func.value.attr in CHILD_OPS:
                return n
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and L.kind(n.value) in ("raw", "obj"):
            return n
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in TEXT_STORES and family(self.prog, f):
            return n
        return None


class Track(Walk):
    """value: (changed at, checks passed)"""

    def __init__(self, an, f):
        super().__init__(f.node)
        self.an, self.f = an, f
        self.D = an.derived(f)
        self.late = []

    def sig(self, name, args):
        """identity of a check: what is checked, on which of the operation's own arguments"""
        out = []
        for a in args:
            if self.D.of(a):
                out.append(self.D.text(a))
        return (name, tuple(out)) if out else None

    def call(self, n, val):
        at, passed = val
        for name, args in self.an.rejected_args(self.f, n):
            k = self.sig(name, args)
            if k is None:
                continue
            self.an.checks.add((self.f.qual, n.lineno, name))
            # the argument may also have been checked under its own name
            if at is not None and k not in passed:
                self.late.append((n, k, at))
                self.raises.append((frozenset({(frozenset(), val)}), n))
            passed = passed | {k}
        m = self.an.mutation(self.f, n) is not None or any(self.an.mutates(g) for g, _b in self.an.targets(self.f, n)) or is_reparse(n)
        if m:
            self.an.sites.add((self.f.qual, n.lineno))
            at = at or n.lineno
        return ((at, passed),)

    def store(self, t, s, val):
        at, passed = val
        if isinstance(t, ast.Name):
            gone = {k for k in passed if any(t.id in name_set(a) for a in k[1])}
            return ((at, passed - gone),)
        g = self.an.setter(self.f, t)
        v = getattr(s, "value", None)
        if g is not None and isinstance(s, ast.Assign) and v is not None:
            for p in sorted(self.an.rejects(g)):
                k = self.sig(f"{g.qual}({p})", [v])
                if k is not None:
                    self.an.checks.add((self.f.qual, s.lineno, k[0]))
                    if at is not None and k not in passed:
                        self.late.append((s, k, at))
                        self.raises.append((frozenset({(frozenset(), val)}), s))
                    passed = passed | {k}
        if self.an.mutation(self.f, t) is not None:
            self.an.sites.add((self.f.qual, t.lineno))
            at = at or t.lineno
        return ((at, passed),)


_NS = {}


def name_set(src):
    if src not in _NS:
        _NS[src] = {x.id for x in ast.walk(ast.parse(src, mode="eval")) if isinstance(x, ast.Name)}
    return _NS[src]


def follow(an, f, res):
    w = Track(an, f)
    w.run((None, frozenset()))
    if f.qual not in an.followed:
        an.followed.add(f.qual)
        res.count("edit operations followed")
    for st, node in w.raises:
        late = [v for _f, v in st if v[0] is not None]
        if not late:
            continue
        if isinstance(node, ast.Raise) and node.exc is None:
            continue      # passes on a failure that happened elsewhere
        if isinstance(node, (ast.Raise, ast.Assert)):
            what = ast.unparse(node.exc if isinstance(node, ast.Raise) and node.exc is not None else node)[:60]
            res.add(f"{f.qual}|{type(node).__name__.lower()}", f"{f.qual} can refuse the call ({what}) after it has already changed the configuration (line {late[0][0]})", f.loc(node))
        else:
            ks = sorted({k for n, k, _a in w.late if n is node})
            for k in ks:
                res.add(f"{f.qual}|{k[0]}", f"{f.qual} hands {', '.join(k[1])} to a check ({k[0]}) that may refuse it after the configuration has already been changed (line {late[0][0]})", f.loc(node))


def lazy(an, f, res):
    """list.extend() and += store the elements of an iterator one by one: a check made while it runs comes after the first change"""
    L, D = an.L(f), an.derived(f)
    vals = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            vals.setdefault(n.targets[0].id, []).append(n.value)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "extend" and n.args and L.kind(n.func.value) == "raw":
            it = n.args[0]
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and L.kind(n.target) == "raw":
            it = n.value
        else:
            continue
        if isinstance(it, ast.Name) and len(vals.get(it.id, [])) == 1:
            it = vals[it.id][0]
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("iter", "filter", "reversed") and it.args:
            it = it.args[-1]
        calls = []
        if isinstance(it, ast.GeneratorExp):
            calls = [x for x in ast.walk(it) if isinstance(x, ast.Call) and not any(x is y for y in ast.walk(it.generators[0].iter))]
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "map" and len(it.args) > 1:
            calls = [ast.copy_location(ast.Call(func=it.args[0], args=list(it.args[1:]), keywords=[]), it)]
        for x in calls:
            for name, args in an.rejected_args(f, x):
                if any(D.of(a) for a in args):
                    res.add(f"{f.qual}|lazy {name}", f"{f.qual} stores the elements of an iterator one by one while {name} may still refuse a later one: the elements before it stay in the configuration", f.loc(n))


def check(prog, res):
    if not all(c in prog.classes for c in FAMILIES):
        raise AnalysisBroken("a configuration class no longer exists")
    an = Analysis(prog)
    done = set()
    for f in prog.all_funcs():
        if f.outer is not None or f.name in ("__init__", "__new__") or f.name == "bootstrap_obj_init_ng" or f.qual in done:
            continue
        done.add(f.qual)
        mods = family(prog, f)
        if not mods:
            continue
        if not an.mutates(f):
            continue
        follow(an, f, res)
        lazy(an, f, res)
    res.count("changes of the configuration", len(an.sites))
    res.count("argument checks ordered", len(an.checks))
    for q, ln, name in sorted(an.checks)[:12]:
        res.sample(f"{q}:{ln} {name}")


def run(ctx):
    res = Result("Path-sensitive ordering of argument checks and changes in every edit operation of the configuration, its list and its lines: after the first "
                 "change no raise/assert, and no call that may refuse one of the operation's own arguments unless the same check passed before on that path.")
    check(ctx.prog, res)
    res.floor("edit operations followed", 20)
    res.floor("argument checks ordered", 20)
    res.assumptions.append("a check that passed for an argument passes again for the same argument; text the parser itself refuses at a re-parse is outside the property")
    return res


EX = '''
import re
def need_str(v):
    if not isinstance(v, str): raise ValueError(v)
class ConfigList:
    def build(self, v):
        if not isinstance(v, str): raise ValueError(v)
        return v
    def ok_insert(self, i, v):
        self._list.insert(i, self.build(v))
    def ok_many(self, vs):
        self._list.extend([self.build(v) for v in vs])
    def bad_many(self, vs):
        for v in vs:
            self._list.append(self.build(v))
    def ok_same(self, where, v):
        for i in where:
            self._list.insert(i, self.build(v))
    def bad_late(self, v, n):
        self._list.append(v)
        if n < 0:
            raise ValueError(n)
    def bad_helper(self, v, spec):
        self._list.append(v)
        need_str(spec)
class BaseCfgLine:
    def ok_rx(self, rx, rep):
        self._text = re.sub(rx, rep, self._text)
    def bad_rx(self, rx, text):
        self._text = text
        return re.search(rx, text)
class CiscoConfParse:
    def ok_loop(self, rx, rep):
        for o in self.objs:
            o.ok_rx(rx, rep)
    def bad_loop(self, rx, rep, ex):
        for o in self.objs:
            o.ok_rx(rx, rep)
            if re.search(ex, o.text):
                break
    def ok_loop2(self, rx, rep, ex):
        exr = re.compile(ex)
        for o in self.objs:
            if exr.search(o.text):
                continue
            o.ok_rx(rx, rep)
'''


def selftest():
    p = Program.from_source(EX)
    r = Result("x")
    check(p, r)
    got = sorted({f.key.split("|")[0] for f in r.findings})
    want = sorted(["ConfigList.bad_many", "ConfigList.bad_late", "ConfigList.bad_helper", "BaseCfgLine.bad_rx", "CiscoConfParse.bad_loop"])
    if got != want:
        raise AnalysisBroken(f"C33 self-example: {got}")
