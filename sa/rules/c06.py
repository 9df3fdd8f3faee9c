"""C06: commits and atomic edits re-parse the whole current text under the configuration's own settings."""
import ast

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc
from ..walk import Walk
from ..edits import Lists, callees, edit_methods, is_reparse, self_call
from ..lines import TextLines
from .c33 import Analysis as Effects, FAMILIES, family

ROLES = {"syntax": "syntax", "comment_delimiter": "comment", "comment": "comment", "factory": "factory", "ignore_blank_lines": "ignore_blank_lines"}
# a line class is told its comment delimiter; the syntax is the class itself
STATE = ("syntax", "comment_delimiter", "factory", "ignore_blank_lines")


def text_arg(g, call):
    if call.args:
        return call.args[0]
    name = g.params[1] if g is not None and len(g.params) > 1 else "text_list"
    return next((k.value for k in call.keywords if k.arg == name), None)


def reparses(prog, res):
    boot = prog.find_method("ConfigList", "bootstrap_obj_init_ng")
    for f in prog.all_funcs():
        if f.outer is not None:
            continue
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and is_reparse(n)]
        if not calls or f.name == "__init__":
            continue
        T = TextLines(prog, f)
        for n in calls:
            res.count("re-parses")
            a = text_arg(boot, n)
            k = T.kind(a)
            res.sample(f"{f.qual}: {ast.unparse(a)[:60] if a is not None else 'no text'}")
            if k is None:
                res.undec(f"{f.qual}: text handed to the re-parse (`{ast.unparse(a)[:50] if a is not None else ''}`)")
            elif k != ("all",):
                res.add(f"{f.qual}|text", f"{f.qual} re-parses something else than the current text of every line in order: {k[1]}", f.loc(n))
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and is_reparse(s.value):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "_list" and ast.unparse(t.value) != ast.unparse(s.value.func.value):
                        k1, k2 = T.L.kind(t.value), T.L.kind(s.value.func.value)
                        if not (k1 == k2 == "obj"):
                            res.undec(f"{f.qual}: result of the re-parse is stored in {ast.unparse(t)}")
    # the text listing itself
    for cn in ("ConfigList", "CiscoConfParse"):
        p = prog.find_prop(cn, "ioscfg")
        if p is None:
            if cn == "CiscoConfParse":
                raise AnalysisBroken(f"{cn}.ioscfg no longer exists")
            continue
        k = TextLines(prog, p).returned(p)
        res.count("text listings")
        if k is None:
            res.undec(f"{p.qual}: what it lists")
        elif k != ("all",):
            res.add(f"{p.qual}|listing", f"{p.qual} does not list the current text of every line in order: {k[1]}", p.loc())


# -- settings -----------------------------------------------------------------
def role_of(prog, f, e, vals, depth=0):
    """which setting an expression carries: role, 'const', or None"""
    if depth > 4:
        return None
    if isinstance(e, ast.Constant):
        return "const"
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in prog.classes and e.value.id not in f.all_params:
        return "const"      # the class's own default, not this configuration's setting
    if isinstance(e, ast.Attribute) and e.attr in ROLES:
        return ROLES[e.attr]
    if isinstance(e, ast.Name):
        vs = vals.get(e.id, [])
        if e.id in f.all_params:
            if not vs:
                return ROLES.get(e.id)
            rs = {role_of(prog, f, v, vals, depth + 1) for v in vs} | {ROLES.get(e.id)}
            return rs.pop() if len(rs) == 1 else None
        rs = {role_of(prog, f, v, vals, depth + 1) for v in vs}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(e, ast.BoolOp):
        rs = {role_of(prog, f, v, vals, depth + 1) for v in e.values}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool", "str") and len(e.args) == 1:
        return role_of(prog, f, e.args[0], vals, depth + 1)
    return None


def line_builders(prog):
    """functions on the way from a text to a line object, with the settings they take"""
    out = {}
    for m in prog.modules.values():
        for g in m.functions.values():
            if {"syntax", "comment_delimiter"} <= set(g.all_params) and any(p in g.all_params for p in ("line", "txt")):
                out[g.name] = g
    return out


def targets(prog, f, call, builders):
    """(callable name, its parameter names) when the call builds a line, the line list or a parser of this configuration"""
    fn = call.func
    if isinstance(fn, ast.Name):
        r = prog.resolve_name(f.module, fn.id)
        if r and r[0] == "func" and r[1] in builders.values():
            return r[1].name, r[1].params, [p for p in r[1].params if p in ROLES]
        if r and r[0] == "class" and (prog.is_subclass(r[1].name, "ConfigList") or prog.is_subclass(r[1].name, "BaseCfgLine")):
            g = prog.find_method(r[1].name, "__init__")
            if g is not None:
                ps = g.params[1:]
                return r[1].name, ps, [p for p in ps if p in ROLES]
    if isinstance(fn, ast.Subscript) and isinstance(fn.value, ast.Name):
        r = prog.resolve_name(f.module, fn.value.id)
        if r and r[0] == "global" and "BaseCfgLine" in prog.classes:
            g = prog.find_method("BaseCfgLine", "__init__")
            ps = g.params[1:]
            return f"{fn.value.id}[...]", ps, [p for p in ps if p in ROLES]
    return None


def settings(prog, res):
    builders = line_builders(prog)
    scope = []
    for f in prog.all_funcs():
        if f.outer is not None:
            continue
        if f.qual in {g.qual for g in builders.values()} or f.cls is not None and (prog.is_subclass(f.cls.name, "ConfigList") or prog.is_subclass(f.cls.name, "CiscoConfParse")):
            scope.append(f)
    for f in scope:
        vals = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, []).append(n.value)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                r = prog.resolve_name(f.module, n.value.id)
                if r and r[0] == "global" and n.value.id.isupper() and "CFG" in n.value.id:
                    res.count("settings handed on")
                    k = role_of(prog, f, n.slice, vals)
                    if k == "const" or k not in (None, "syntax"):
                        res.add(f"{f.qual}|class", f"{f.qual} picks the line class by {ast.unparse(n.slice)}, not by the configuration's syntax", f.loc(n))
                    elif k is None:
                        res.undec(f"{f.qual}: line class picked by {ast.unparse(n.slice)}")
            if not isinstance(n, ast.Call):
                continue
            tg = targets(prog, f, n, builders)
            if tg is None:
                continue
            name, ps, want = tg
            got, star = {}, False
            for p, a in zip(ps, n.args):
                got[p] = a
                star |= isinstance(a, ast.Starred)
            for k in n.keywords:
                if k.arg is None:
                    star = True
                else:
                    got[k.arg] = k.value
            for p in want:
                role = ROLES[p]
                if p not in got:
                    if star:
                        res.undec(f"{f.qual}: {p} of {name} comes in through * or **")
                    else:
                        res.count("settings handed on")
                        res.add(f"{f.qual}|{name}|{p}", f"{f.qual} does not hand the configuration's {p} to {name}: its default is used instead", f.loc(n))
                    continue
                res.count("settings handed on")
                k = role_of(prog, f, got[p], vals)
                if k == role:
                    continue
                if k is None:
                    res.undec(f"{f.qual}: {p} of {name} is `{ast.unparse(got[p])[:40]}`")
                else:
                    res.add(f"{f.qual}|{name}|{p}", f"{f.qual} hands {ast.unparse(got[p])[:40]} to {name} as {p}, not the configuration's own setting", f.loc(n))
        # where the settings are stored
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in STATE and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0] and f.cls is not None:
                st = next((s for s in ast.walk(f.node) if isinstance(s, ast.Assign) and n in s.targets), None)
                if st is None:
                    continue
                res.count("settings stored")
                k = role_of(prog, f, st.value, vals)
                if f.name != "__init__":
                    if f.kind != "setter" and f.name not in ("__setattr__", "__setstate__", "__copy__"):
                        res.add(f"{f.qual}|{n.attr}", f"{f.qual} changes the configuration's {n.attr} after it was created", f.loc(n))
                elif k is None:
                    res.undec(f"{f.qual}: value stored as {n.attr}")
                elif k != ROLES[n.attr]:
                    res.add(f"{f.qual}|{n.attr}", f"{f.qual} stores {ast.unparse(st.value)} as {n.attr}", f.loc(n))


# -- atomic -------------------------------------------------------------------
class Atomic(Walk):
    """value: the line at which the configuration was changed since the last re-parse, or None"""

    def __init__(self, an, f):
        super().__init__(f.node)
        self.an, self.f = an, f
        self.fresh = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.fresh.setdefault(n.targets[0].id, []).append(n.value)

    def atomic_arg(self, g, call, bound):
        """what the callee's atomic option is: True, False, 'own' (ours), None (unknown)"""
        ps = g.params[1:] if bound else g.params
        e = None
        for p, a in zip(ps, call.args):
            if p == "atomic":
                e = a
        for k in call.keywords:
            if k.arg == "atomic":
                e = k.value
            elif k.arg is None:
                return None
        if e is None:
            d = g.defaults.get("atomic") if isinstance(g.defaults, dict) else None
            return d.value if isinstance(d, ast.Constant) else None
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name) and e.id == "atomic" and "atomic" in self.f.all_params:
            return "own"
        return None

    def call(self, n, val):
        if is_reparse(n):
            return (None,)
        out = val
        for g, bound in self.an.eff.targets(self.f, n):
            if self.an.cleans(g):
                out = None
            elif "atomic" in g.all_params and self.an.eff.mutates(g):
                a = self.atomic_arg(g, n, bound)
                out = None if a in (True, "own") else n.lineno if a is False else out
            elif self.an.eff.mutates(g):
                out = n.lineno
        if self.an.eff.mutation(self.f, n) is not None:
            out = n.lineno
        return (out,)

    def store(self, t, s, val):
        if isinstance(t, ast.Attribute) and t.attr == "_list":
            v = getattr(s, "value", None)
            vs = self.fresh.get(v.id, []) if isinstance(v, ast.Name) else [v]
            if vs and all(isinstance(x, ast.Call) and is_reparse(x) for x in vs):
                return (None,)
        if self.an.eff.mutation(self.f, t) is not None:
            return (t.lineno,)
        return (val,)


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.eff = Effects(prog)
        self.cl = {}

    def cleans(self, g, stack=()):
        """every normal exit leaves the configuration freshly parsed"""
        if g.qual in self.cl:
            return self.cl[g.qual]
        self.cl[g.qual] = False
        has = any(isinstance(n, ast.Call) and (is_reparse(n) or any(h.qual != g.qual and self.cleans(h) for h, _b in self.eff.targets(g, n))) for n in ast.walk(g.node))
        if not has or g.name == "bootstrap_obj_init_ng":
            return False
        w = Atomic(self, g)
        w.run(1)
        r = bool(w.returns) and all(v is None for st, _n in w.returns for _f, v in st)
        self.cl[g.qual] = r
        return r


def atomic(prog, res):
    an = Analysis(prog)
    for f in prog.all_funcs():
        if f.outer is not None or not family(prog, f):
            continue
        if f.name in ("atomic", "commit") and f.cls.name == "CiscoConfParse":
            res.count("commit operations")
            w = Atomic(an, f)
            w.run(1)
            if any(v is not None for st, _n in w.returns for _f, v in st):
                res.add(f"{f.qual}|always", f"{f.qual} can return without having re-parsed the configuration", f.loc())
            continue
        if "atomic" not in f.all_params:
            continue
        body = [s for s in strip_doc(f.node.body) if not isinstance(s, (ast.Raise, ast.Pass))]
        if not body:
            continue
        if not an.eff.mutates(f):
            continue
        res.count("edit operations with an atomic option")
        w = Atomic(an, f)
        w.ns["atomic"] = frozenset({"atomic"})
        st = frozenset({(frozenset({("atomic", True)}), None)})
        out = w.block(strip_doc(f.node.body), st)
        if out:
            w.returns.append((out, f.node))
        for st, node in w.returns:
            bad = [v for fs, v in st if v is not None]
            if bad:
                res.add(f"{f.qual}|atomic", f"{f.qual} can return from an atomic edit (changed at line {bad[0]}) without re-parsing the configuration", f.loc(node))
                break


def check(prog, res):
    if not all(c in prog.classes for c in FAMILIES):
        raise AnalysisBroken("a configuration class no longer exists")
    reparses(prog, res)
    settings(prog, res)
    atomic(prog, res)


def run(ctx):
    res = Result("Value flow of the text and of the settings into every re-parse and every line builder, and a path-sensitive must-reach analysis: after a change made "
                 "with atomic true, every normal exit of the operation lies behind a re-parse.")
    check(ctx.prog, res)
    res.floor("re-parses", 3)
    res.floor("settings handed on", 10)
    res.floor("edit operations with an atomic option", 6)
    res.floor("commit operations", 2)
    return res


EX = '''
CFGLINE = {}
def build(text, line, syntax=None, comment_delimiter=None):
    return CFGLINE[syntax](line=line, comment_delimiter=comment_delimiter)
class ConfigList:
    def __init__(self, initlist, syntax="ios", comment_delimiter="!"):
        self.syntax = syntax
        self.comment_delimiter = comment_delimiter
        self._list = self.bootstrap_obj_init_ng(initlist)
    @property
    def ioscfg(self): return [o.text for o in self._list]
    def bootstrap_obj_init_ng(self, text_list):
        return [build(text_list, t, syntax=self.syntax, comment_delimiter=self.comment_delimiter) for t in text_list]
    def bad_build(self, t): return build([], t, syntax="ios", comment_delimiter=self.comment_delimiter)
    def bad_build2(self, t): return build([], t, syntax=self.syntax)
    def ok_ins(self, v, atomic=False):
        self._list.insert(0, v)
        if atomic is True:
            self._list = self.bootstrap_obj_init_ng(self.ioscfg)
    def bad_ins(self, v, w, atomic=False):
        self._list.insert(0, v)
        if not w:
            return None
        if atomic:
            self._list = self.bootstrap_obj_init_ng(self.ioscfg)
    def bad_part(self):
        self._list = self.bootstrap_obj_init_ng([o.text for o in self._list if o.text])
class BaseCfgLine:
    def __init__(self, all_lines=None, line="", comment_delimiter="!"): pass
    def edit(self, t): self._text = t
class CiscoConfParse:
    @property
    def ioscfg(self): return [o.text for o in self.ConfigObjs]
    def atomic(self):
        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
    def commit(self):
        if self.ready:
            self.atomic()
    def ok_fwd(self, v, atomic=False):
        return self.ConfigObjs.ok_ins(v, atomic=atomic)
    def bad_fwd(self, v, atomic=False):
        return self.ConfigObjs.ok_ins(v)
    def ok_edit(self, spec, t, atomic=False):
        for o in self.find_objects(spec):
            o.edit(t)
        if atomic:
            self.atomic()
    def bad_edit(self, spec, t, atomic=False):
        for o in self.find_objects(spec):
            o.edit(t)
            if atomic and o.text == t:
                self.atomic()
'''


def selftest():
    p = Program.from_source(EX)
    r = Result("x")
    check(p, r)
    got = sorted(f.key for f in r.findings)
    want = sorted(["ConfigList.bad_build|build|syntax", "ConfigList.bad_build2|build|comment_delimiter", "ConfigList.bad_ins|atomic", "ConfigList.bad_part|text",
                   "CiscoConfParse.commit|always", "CiscoConfParse.bad_fwd|atomic", "CiscoConfParse.bad_edit|atomic"])
    got = [g for g in got if not g.startswith("ConfigList|")]
    if got != want:
        raise AnalysisBroken(f"C06 self-example: {got} not {want}")
