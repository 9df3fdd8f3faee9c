"""Resolved program model of the ciscoconfparse package (syntax trees only).

Parses every module of the package from the repository's *current* source,
builds class tables (with linearised inheritance), function tables (methods,
properties, setters, nested functions), import tables and constant folding for
module level names.  Nothing of the analysed package is imported or executed.
"""
import ast
import hashlib
import os

from .inline import inline
from .normal import normalise

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "ciscoconfparse"
# models_all.py is not importable on the pinned tree (it imports names that do
# not exist) and nothing imports it: it is dead code and not part of the library.
EXCLUDE = {"models_all.py"}


class AnalysisBroken(Exception):
    """The analysed program lost something the rule is anchored on."""


class Func:
    __slots__ = ("name", "qual", "module", "cls", "node", "kind", "decorators",
                 "params", "defaults", "vararg", "kwarg", "kwonly", "outer", "nested", "_par",
                 "posonly", "is_abstract")

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def line(self):
        return self.node.lineno

    @property
    def file(self):
        return self.module.rel

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.rel}:{n.lineno}"

    @property
    def all_params(self):
        r = list(self.params)
        if self.vararg:
            r.append(self.vararg)
        r += self.kwonly
        if self.kwarg:
            r.append(self.kwarg)
        return r


class Cls:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []           # names
        self.methods = {}         # name -> Func (method/classmethod/static)
        self.props = {}           # name -> Func (getter)
        self.setters = {}         # name -> Func
        self.attrs = {}           # name -> value node (class level assignment)
        self.aliases = {}         # name -> name (x = y at class level)
        self.mro = [self]
        self.external_bases = []

    def __repr__(self):
        return f"<Cls {self.name}>"

    @property
    def qual(self):
        return self.name


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, encoding="utf-8") as fh:
            self.src = fh.read()
        self.tree = normalise(ast.parse(self.src, filename=rel))
        self.imports = {}      # local name -> dotted external / ('mod', name)
        self.functions = {}
        self.classes = {}
        self.globals = {}      # name -> list of value nodes
        self.digest = hashlib.sha256(self.src.encode()).hexdigest()[:16]


def deco_name(d):
    """dotted text of a decorator, call arguments dropped"""
    if isinstance(d, ast.Call):
        d = d.func
    return dotted(d) or "?"


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f"{b}.{n.attr}" if b else None
    return None


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


class Program:
    def __init__(self, root=None, pkgdir=None, example=False):
        self.root = root or REPO
        self.pkgdir = pkgdir or os.path.join(self.root, PKG)
        self.modules = {}
        self.classes = {}       # simple name -> Cls (names are unique in the package)
        self.funcs = {}         # qual -> Func
        self.by_name = {}       # method/function simple name -> [Func]
        self.func_by_node = {}
        if not os.path.isdir(self.pkgdir):
            raise AnalysisBroken(f"package directory {self.pkgdir} is missing")
        for dirpath, dirs, files in os.walk(self.pkgdir):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py") or fn in EXCLUDE:
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                name = os.path.relpath(path, self.pkgdir)[:-3].replace(os.sep, ".")
                self.modules[name] = Module(name, path, rel)
        self.inlined = [] if example else inline({n: m.tree for n, m in self.modules.items()})
        if self.inlined:
            for m in self.modules.values():
                normalise(m.tree)
        for m in self.modules.values():
            self._index_module(m)
        self._link()

    # ------------------------------------------------------------------
    @classmethod
    def from_source(cls, src, name="m"):
        """A one-module program from text: for the rules' built-in examples."""
        import tempfile
        d = tempfile.mkdtemp(prefix="sa_ex_")
        try:
            os.mkdir(os.path.join(d, PKG))
            with open(os.path.join(d, PKG, name + ".py"), "w") as fh:
                fh.write(src)
            return cls(root=d, example=True)
        finally:
            for base, _, files in os.walk(d, topdown=False):
                for f in files:
                    os.unlink(os.path.join(base, f))
                os.rmdir(base)

    # ------------------------------------------------------------------
    def _index_module(self, m):
        def walk_body(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._index_import(m, n)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mk_func(m, None, n, None)
                    m.functions[n.name] = f
                elif isinstance(n, ast.ClassDef):
                    self._index_class(m, n)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        for nm in target_names(t):
                            m.globals.setdefault(nm, []).append(n.value if isinstance(t, ast.Name) else None)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    m.globals.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    m.globals.setdefault(n.target.id, []).append(None)
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        walk_body(getattr(n, fld, []) or [])
                    if isinstance(n, ast.For):
                        for nm in target_names(n.target):
                            m.globals.setdefault(nm, []).append(None)
                    for h in getattr(n, "handlers", []) or []:
                        walk_body(h.body)
        walk_body(m.tree.body)
        # function-level imports count for name resolution of that function; record too
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for nm in n.names:
                    m.globals.setdefault(nm, [])

    def _index_import(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.imports[a.asname] = ("mod", a.name)
                else:
                    m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            mod = n.module or ""
            if n.level:
                mod = PKG + ("." + mod if mod else "")
            for a in n.names:
                m.imports[a.asname or a.name] = ("from", mod, a.name)

    def _index_class(self, m, n):
        c = Cls(n.name, m, n)
        m.classes[n.name] = c
        self.classes[n.name] = c
        for b in n.bases:
            c.bases.append(dotted(b) or "?")

        def walk(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mk_func(m, c, s, None)
                    if f.kind == "property":
                        c.props[s.name] = f
                    elif f.kind == "setter":
                        c.setters[s.name] = f
                    elif f.kind == "deleter":
                        pass
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                            if isinstance(s.value, ast.Name):
                                c.aliases[t.id] = s.value.id
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    walk(s.body)
                    walk(s.orelse)
        walk(n.body)

    def _mk_func(self, m, c, n, outer):
        f = Func()
        f.name = n.name
        f.module = m
        f.cls = c
        f.node = n
        f.outer = outer
        f.nested = {}
        f.decorators = n.decorator_list
        names = [deco_name(d) for d in n.decorator_list]
        f.kind = "function"
        if c is not None and outer is None:
            f.kind = "method"
        for d in names:
            if d in ("property", "cached_property", "functools.cached_property"):
                f.kind = "property"
            elif d.endswith(".setter"):
                f.kind = "setter"
            elif d.endswith(".deleter"):
                f.kind = "deleter"
            elif d == "classmethod":
                f.kind = "classmethod"
            elif d == "staticmethod":
                f.kind = "staticmethod"
        f.is_abstract = any(d.split(".")[-1] == "abstractmethod" for d in names)
        if n.name == "__new__" and f.kind == "method":
            f.kind = "staticmethod"
        a = n.args
        f.posonly = [x.arg for x in a.posonlyargs]
        f.params = f.posonly + [x.arg for x in a.args]
        f.kwonly = [x.arg for x in a.kwonlyargs]
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwarg = a.kwarg.arg if a.kwarg else None
        f.defaults = {}
        for p, d in zip(f.params[len(f.params) - len(a.defaults):], a.defaults):
            f.defaults[p] = d
        for p, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                f.defaults[p] = d
        base = (outer.qual + ".<locals>.") if outer else (c.name + "." if c else m.name + ".")
        f.qual = base + n.name
        if f.kind == "setter":
            f.qual += "@setter"
        elif f.kind == "deleter":
            f.qual += "@deleter"
        self.funcs[f.qual] = f
        self.func_by_node[n] = f
        if outer is None:
            self.by_name.setdefault(n.name, []).append(f)
        # nested
        def walk(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    g = self._mk_func(m, c, s, f)
                    f.nested[s.name] = g
                elif isinstance(s, ast.ClassDef):
                    pass
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        sub = getattr(s, fld, None)
                        if isinstance(sub, list):
                            walk(sub)
                    for h in getattr(s, "handlers", []) or []:
                        walk(h.body)
        walk(n.body)
        return f

    def _link(self):
        def lin(c, seen=()):
            out = [c]
            for b in c.bases:
                bn = b.split(".")[-1]
                bc = self.classes.get(bn)
                if bc is not None and bc is not c and bc not in seen:
                    for x in lin(bc, seen + (c,)):
                        if x not in out:
                            out.append(x)
                elif bn != "object":
                    c.external_bases.append(b)
            return out
        for c in self.classes.values():
            c.external_bases = []
        for c in self.classes.values():
            c.mro = lin(c)
        self.subclasses = {}
        for c in self.classes.values():
            for b in c.mro:
                self.subclasses.setdefault(b.name, set()).add(c.name)

    # ------------------------------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} no longer exists")
        return c

    def lookup(self, cname, attr, table=("methods", "props", "setters", "attrs")):
        """first definition of attr along the MRO: (kind, Cls, obj)"""
        c = self.classes.get(cname)
        if c is None:
            return None
        for k in c.mro:
            for t in table:
                d = getattr(k, t)
                if attr in d:
                    if t == "attrs" and attr in k.aliases:
                        r = self.lookup(k.name, k.aliases[attr])
                        if r:
                            return r
                    return (t, k, d[attr])
        return None

    def find_method(self, cname, name):
        r = self.lookup(cname, name, ("methods",))
        return r[2] if r else None

    def find_prop(self, cname, name):
        r = self.lookup(cname, name, ("props",))
        return r[2] if r else None

    def find_setter(self, cname, name):
        for k in self.classes[cname].mro:
            if name in k.setters:
                return k.setters[name]
            if name in k.props:
                return None
        return None

    def need_func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken(f"public anchor {qual} no longer exists")
        return f

    def need_method(self, cname, name):
        """method or property `name` seen from class cname (may be inherited)"""
        self.cls(cname)
        r = self.lookup(cname, name)
        if r is None or r[0] == "attrs":
            raise AnalysisBroken(f"public anchor {cname}.{name} no longer exists")
        return r[2]

    def is_subclass(self, a, b):
        return b in {k.name for k in self.classes[a].mro} if a in self.classes else False

    def resolve_name(self, module, name):
        """('class',Cls)|('func',Func)|('global',Module,name)|('ext',dotted)|None"""
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "from":
                _, mod, attr = imp
                if mod == PKG or mod.startswith(PKG + "."):
                    sub = mod[len(PKG) + 1:] or "__init__"
                    mm = self.modules.get(sub)
                    if mm is not None and mm is not module:
                        if attr == "*":
                            return None
                        r = self.resolve_name(mm, attr)
                        if r:
                            return r
                    mm = self.modules.get(attr)
                    if mm is not None:
                        return ("module", mm)
                return ("ext", f"{mod}.{attr}")
            return ("ext", imp[1])
        if name in module.globals:
            return ("global", module, name)
        # star imports
        for n in module.tree.body:
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                mod = n.module or ""
                if mod.startswith(PKG + "."):
                    mm = self.modules.get(mod[len(PKG) + 1:])
                    if mm is not None and mm is not module:
                        r = self.resolve_name(mm, name)
                        if r:
                            return r
        return None

    def body(self, f):
        return strip_doc(f.node.body)

    def all_funcs(self):
        return list(self.funcs.values())

    # module-level constant folding -------------------------------------
    def const(self, module, node, depth=0):
        """fold to a python constant, or raise ValueError"""
        if depth > 12:
            raise ValueError
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Name):
            r = self.resolve_name(module, node.id)
            if r and r[0] == "global":
                vals = r[1].globals.get(r[2], [])
                if len(vals) == 1 and vals[0] is not None:
                    return self.const(r[1], vals[0], depth + 1)
            raise ValueError
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            v = [self.const(module, e, depth + 1) for e in node.elts]
            return {ast.Tuple: tuple, ast.List: list, ast.Set: set}[type(node)](v)
        if isinstance(node, ast.Dict):
            if any(k is None for k in node.keys):
                raise ValueError
            return {self.const(module, k, depth + 1): self.const(module, v, depth + 1)
                    for k, v in zip(node.keys, node.values)}
        if isinstance(node, ast.UnaryOp):
            v = self.const(module, node.operand, depth + 1)
            if isinstance(node.op, ast.USub):
                return -v
            if isinstance(node.op, ast.Not):
                return not v
            raise ValueError
        if isinstance(node, ast.BinOp):
            a = self.const(module, node.left, depth + 1)
            b = self.const(module, node.right, depth + 1)
            try:
                if isinstance(node.op, ast.Add):
                    return a + b
                if isinstance(node.op, ast.Sub):
                    return a - b
                if isinstance(node.op, ast.Mult):
                    return a * b
                if isinstance(node.op, ast.Pow) and abs(b) < 4096:
                    return a ** b
                if isinstance(node.op, ast.Mod) and isinstance(a, str):
                    return a % b
                if isinstance(node.op, ast.Mod):
                    return a % b
                if isinstance(node.op, ast.FloorDiv):
                    return a // b
                if isinstance(node.op, ast.LShift) and b < 4096:
                    return a << b
            except Exception:
                raise ValueError
            raise ValueError
        if isinstance(node, ast.JoinedStr):
            out = ""
            for v in node.values:
                if isinstance(v, ast.Constant):
                    out += str(v.value)
                elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                    out += str(self.const(module, v.value, depth + 1))
                else:
                    raise ValueError
            return out
        if isinstance(node, ast.Call):
            fn = node.func
            if isinstance(fn, ast.Attribute) and fn.attr in ("format", "join", "lower", "upper", "strip", "split", "replace"):
                base = self.const(module, fn.value, depth + 1)
                if isinstance(base, str):
                    args = [self.const(module, a, depth + 1) for a in node.args]
                    kw = {k.arg: self.const(module, k.value, depth + 1) for k in node.keywords if k.arg}
                    try:
                        return getattr(base, fn.attr)(*args, **kw)
                    except Exception:
                        raise ValueError
            if isinstance(fn, ast.Name) and fn.id in ("int", "str", "set", "list", "tuple", "len", "frozenset", "range", "dict", "sorted") and not node.keywords:
                args = [self.const(module, a, depth + 1) for a in node.args]
                try:
                    return {"int": int, "str": str, "set": set, "list": list, "tuple": tuple, "len": len, "frozenset": frozenset, "range": range, "dict": dict, "sorted": sorted}[fn.id](*args)
                except Exception:
                    raise ValueError
        raise ValueError


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for e in t.elts:
            out += target_names(e)
        return out
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []
