"""Effects of functions on the list of configuration lines.

The configuration has one ordered list of line objects (ConfigList and the
Python list inside it).  This module recognises the expressions that denote it
and summarises, per function, what it does to it: change it, renumber it,
re-parse it.
"""
import ast

from .srcmodel import dotted, strip_doc
from .walk import Walk

RAW = {"append", "insert", "pop", "remove", "clear", "reverse", "sort", "extend"}
# attributes whose value is the list object, on any receiver
LIST_ATTRS = {"confobj", "ConfigObjs"}
OPS = {"del": "__delitem__", "set": "__setitem__", "aug+": "__iadd__", "aug*": "__imul__"}
# names of edit operations that no other type in reach shares
EDIT_NAMES_CLASSES = ("ConfigList", "CiscoConfParse", "BaseCfgLine")


def list_classes(prog):
    return prog.subclasses.get("ConfigList", set())


class Lists:
    """which expressions denote the line list inside one function"""

    def __init__(self, prog, f, params=()):
        self.prog, self.f = prog, f
        self.cls = f.cls or (f.outer.cls if f.outer else None)
        self.selfname = f.params[0] if f.params and f.kind in ("method", "property", "setter") else (f.outer.params[0] if f.outer and f.outer.params else None)
        self.obj, self.raw = set(), set()
        for p, kind in dict(params).items():
            (self.raw if kind == "raw" else self.obj).add(p)
        for _ in range(3):
            before = len(self.obj) + len(self.raw)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    k = self.kind(n.value)
                    if k:
                        (self.raw if k == "raw" else self.obj).add(n.targets[0].id)
            if len(self.obj) + len(self.raw) == before:
                break

    def kind(self, e):
        """'obj' (ConfigList), 'raw' (the Python list inside it) or None"""
        if isinstance(e, ast.Name):
            if e.id in self.raw:
                return "raw"
            if e.id in self.obj:
                return "obj"
            if e.id == self.selfname and self.cls is not None and self.cls.name in list_classes(self.prog):
                return "obj"
            return None
        if isinstance(e, ast.Attribute):
            if e.attr == "_list":
                return "raw" if self.kind(e.value) == "obj" else None
            if e.attr in LIST_ATTRS:
                return "obj"
            if e.attr == "objs" and self.owner(e.value):
                return "obj"
        return None

    def owner(self, e):
        """the expression is a CiscoConfParse object"""
        if isinstance(e, ast.Name) and e.id == self.selfname and self.cls is not None:
            return self.prog.is_subclass(self.cls.name, "CiscoConfParse")
        return isinstance(e, ast.Attribute) and e.attr in ("ccp_ref", "CiscoConfParse")


def self_call(prog, f, call):
    """the method a call on the own instance reaches"""
    fn = call.func
    if not isinstance(fn, ast.Attribute):
        return None
    cls = f.cls or (f.outer.cls if f.outer else None)
    if cls is None:
        return None
    me = f.params[0] if f.cls and f.params and f.kind in ("method", "property", "setter", "classmethod") else (f.outer.params[0] if f.outer and f.outer.params else None)
    if isinstance(fn.value, ast.Name) and fn.value.id == me:
        return prog.find_method(cls.name, fn.attr)
    if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
        for k in cls.mro[1:]:
            if fn.attr in k.methods:
                return k.methods[fn.attr]
    return None


def edit_methods(prog):
    """method name -> functions, for names only the configuration classes define"""
    out = {}
    for c in prog.classes.values():
        for n, g in c.methods.items():
            out.setdefault(n, []).append((c, g))
    r = {}
    for n, gs in out.items():
        if n.startswith("__") or n in RAW:
            continue
        if all(any(prog.is_subclass(c.name, b) for b in EDIT_NAMES_CLASSES) for c, _ in gs):
            r[n] = [g for _, g in gs]
    return r


def callees(prog, f, L, call, names):
    """package functions a call may reach, as far as they may edit the list; plus parameters bound to the list"""
    fn = call.func
    out = []
    if isinstance(fn, ast.Name):
        g = f.nested.get(fn.id) or (f.outer.nested.get(fn.id) if f.outer else None)
        if g is None:
            r = prog.resolve_name(f.module, fn.id)
            if r and r[0] == "func":
                g = r[1]
        if g is not None:
            out = [g]
    elif isinstance(fn, ast.Attribute):
        g = self_call(prog, f, call)
        if g is not None:
            out = [g]
        else:
            k = L.kind(fn.value)
            if k == "obj":
                m = prog.find_method("ConfigList", fn.attr)
                out = [m] if m else []
            elif k is None and L.owner(fn.value):
                m = prog.find_method("CiscoConfParse", fn.attr)
                out = [m] if m else []
            elif k is None:
                out = names.get(fn.attr, [])
    res = []
    for g in out:
        b = {}
        ps = list(g.params)
        if g.kind in ("method",) and isinstance(fn, ast.Attribute):
            ps = ps[1:]
        for p, a in zip(ps, call.args):
            k = L.kind(a)
            if k:
                b[p] = k
        for kw in call.keywords:
            k = L.kind(kw.value)
            if kw.arg and k:
                b[kw.arg] = k
        res.append((g, tuple(sorted(b.items()))))
    return res


def is_reparse(call):
    fn = call.func
    return isinstance(fn, ast.Attribute) and fn.attr == "bootstrap_obj_init_ng"
