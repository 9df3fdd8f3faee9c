"""C30: files are read and written completely, in the stated encoding."""
import ast

from .. import rx
from ..edits import self_call
from ..lines import TextLines
from ..report import Result
from ..srcmodel import Program, dotted

ENDS = ("\n", "\r\n", "\r")
LOSSY = {"ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace"}
CLEAN = {"strip", "lstrip", "replace", "expandtabs", "lower", "upper", "title", "capitalize", "swapcase", "casefold", "translate", "encode"}
PARSERS = {"toml", "tomllib", "json", "yaml", "configparser"}


class Flow:
    """where values come from, inside a function and through the package's own calls"""

    def __init__(self, prog):
        self.prog = prog
        self.calls = None
        self.parents = {}

    def parent(self, f):
        top = f
        while top.outer is not None:
            top = top.outer
        if top.qual not in self.parents:
            m = {}
            for n in ast.walk(top.node):
                for ch in ast.iter_child_nodes(n):
                    m[ch] = n
            self.parents[top.qual] = m
        return self.parents[top.qual]

    def owner(self, f):
        return f.cls or (f.outer.cls if f.outer else None)

    def callee(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f.nested.get(fn.id) or (f.outer.nested.get(fn.id) if f.outer else None)
            if g is not None:
                return g
            r = self.prog.resolve_name(f.module, fn.id)
            return r[1] if r and r[0] == "func" else None
        g = self_call(self.prog, f, call)
        if g is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            r = self.prog.resolve_name(f.module, fn.value.id)
            if r and r[0] == "class":
                g = self.prog.find_method(r[1].name, fn.attr)
        return g

    def callers(self, g):
        """(function, call) of every call in the package that reaches g"""
        if self.calls is None:
            self.calls = {}
            for f in self.prog.funcs.values():
                inner = {n for h in f.nested.values() for n in ast.walk(h.node)}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and n not in inner:
                        h = self.callee(f, n)
                        if h is not None:
                            self.calls.setdefault(h.qual, []).append((f, n))
        return self.calls.get(g.qual, [])

    def argument(self, g, call, p):
        """expression bound to parameter p of g at the call; None: not passed; False: unknown"""
        if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
            for k in call.keywords:
                if k.arg == p:
                    return k.value
            return False
        ps = list(g.params)
        if g.kind in ("method", "classmethod") and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        for q, a in zip(ps, call.args):
            if q == p:
                return a
        for k in call.keywords:
            if k.arg == p:
                return k.value
        return None

    def stores(self, f, name):
        """values assigned to a local name; None stands for a binding that is not a plain assignment"""
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                        if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                            out += [v for x, v in zip(t.elts, n.value.elts) if isinstance(x, ast.Name) and x.id == name]
                        else:
                            out.append(None)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                out.append(None)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out.append(None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
                out.append(None)
        return out

    def family_stores(self, f, attr):
        c = self.owner(f)
        out = []
        if c is None:
            return out
        for k in c.mro:
            for g in list(k.methods.values()) + list(k.setters.values()):
                for n in ast.walk(g.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and g.params and t.value.id == g.params[0]:
                                out.append((g, n.value))
        return out

    def origins(self, e, f, seen=()):
        """leaf sources of the value of e: ("const", v) ("param", f, name) ("setting", name) ("none",) ("?", text)"""
        key = (f.qual, ast.dump(e) if e is not None else None)
        if e is None or key in seen or len(seen) > 25:
            return {("?", "")} if e is None else set()
        seen = seen + (key,)
        if isinstance(e, ast.Constant):
            return {("const", e.value)}
        if isinstance(e, ast.IfExp):
            return self.origins(e.body, f, seen) | self.origins(e.orelse, f, seen)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            out = set()
            for i, v in enumerate(e.values):
                o = self.origins(v, f, seen)
                if i and o and all(k[0] in ("const", "ext") for k in o):
                    o = {("fallback",)}     # only when nothing was configured
                out |= o
                if o and all(k[0] == "const" and k[1] for k in o):
                    break
            return out
        if isinstance(e, ast.NamedExpr):
            return self.origins(e.value, f, seen)
        if isinstance(e, ast.Name):
            st = self.stores(f, e.id)
            out = set()
            if e.id in f.all_params:
                out = self.parameter(f, e.id, seen)
            elif not st and f.outer is not None:
                return self.origins(e, f.outer, seen)
            if st:
                for v in st:
                    out |= self.origins(v, f, seen)
                return out
            if out:
                return out
            r = self.prog.resolve_name(f.module, e.id)
            if r and r[0] == "global":
                return {("setting", e.id)} if e.id.isupper() and self.setting(r) else self.module_value(r, seen)
            if r and r[0] == "ext":
                return {("ext", r[1])}
            return {("?", e.id)}
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] and self.owner(f) is not None:
            c = self.owner(f)
            p = self.prog.find_prop(c.name, e.attr)
            if p is not None:
                return self.returned(p, seen)
            st = self.family_stores(f, e.attr)
            if not st:
                return {("?", ast.unparse(e))}
            out = set()
            for g, v in st:
                out |= self.origins(v, g, seen)
            return out
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "globals":
                return {("setting", e.slice.value)} if e.slice.value in f.module.globals else {("?", ast.unparse(e))}
            v = self.entry(e.value, f, e.slice.value, seen)
            return v
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
                return self.origins(e.args[0], f, seen)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant):
                return self.entry(e.func.value, f, e.args[0].value, seen)
            g = self.callee(f, e)
            if g is not None:
                return self.returned(g, seen)
            if d and self.prog.resolve_name(f.module, d.split(".")[0]) and self.prog.resolve_name(f.module, d.split(".")[0])[0] == "ext":
                return {("ext", d)}
        return {("?", ast.unparse(e)[:60])}

    def setting(self, r):
        """a module-level value meant to be configured: it is None unless the user sets it"""
        vs = r[1].globals.get(r[2], [])
        return any(isinstance(v, ast.Constant) and v.value is None for v in vs)

    def module_value(self, r, seen):
        try:
            return {("const", self.prog.const(r[1], ast.Name(id=r[2], ctx=ast.Load())))}
        except ValueError:
            return {("?", r[2])}

    def returned(self, g, seen):
        out = set()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= self.origins(n.value, g, seen)
        return out or {("?", g.name)}

    def parameter(self, f, p, seen):
        """what a parameter holds: the caller's value (public functions) and what the package passes"""
        out = set()
        public = f.outer is None and (not f.name.startswith("_") or f.name == "__init__")
        if public:
            out.add(("param", f.qual, p))
        if f.name == "__init__":
            d = f.defaults.get(p)
            if isinstance(d, ast.Constant) and isinstance(d.value, str):
                out.add(("default", d.value))
            return out
        for g, c in self.callers(f):
            a = self.argument(f, c, p)
            if a is False:
                out.add(("?", ast.unparse(c)[:60]))
            elif a is None:
                d = f.defaults.get(p)
                out |= self.origins(d, f, seen) if d is not None else {("?", p)}
            else:
                out |= self.origins(a, g, seen)
        return out or {("?", p)}

    def entry(self, e, f, key, seen=()):
        """origins of e[key] for a mapping built from constants"""
        out = set()
        ms = self.mappings(e, f)
        if ms is None:
            return {("?", ast.unparse(e)[:60])}
        for g, m, subs in ms:
            found = m.get(key)
            for k, v in subs:
                if k == key:
                    found = v
            if found is None:
                out.add(("none",))
            else:
                out |= self.origins(found, g, seen)
        return out

    def mappings(self, e, f, depth=0):
        """[(function, {key: value expr}, [(key, value expr) stored later])] a mapping expression may be, or None"""
        if depth > 6:
            return None
        if isinstance(e, ast.Dict):
            m = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    sub = self.mappings(v, f, depth + 1)
                    if sub is None or len(sub) != 1 or sub[0][0] is not f:
                        return None
                    m.update(sub[0][1])
                    m.update(dict(sub[0][2]))
                elif isinstance(k, ast.Constant):
                    m[k.value] = v
                else:
                    return None
            return [(f, m, [])]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args and all(k.arg for k in e.keywords):
            return [(f, {k.arg: k.value for k in e.keywords}, [])]
        if isinstance(e, ast.IfExp):
            a, b = self.mappings(e.body, f, depth + 1), self.mappings(e.orelse, f, depth + 1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Name):
            vs = self.stores(f, e.id)
            if not vs or any(v is None for v in vs):
                return None
            subs = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id:
                            if not isinstance(t.slice, ast.Constant):
                                return None
                            subs.append((t.slice.value, n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and n.func.attr in ("update", "pop", "setdefault", "clear", "popitem"):
                    if n.func.attr == "update" and not n.args and all(k.arg for k in n.keywords):
                        subs += [(k.arg, k.value) for k in n.keywords]
                    else:
                        return None
            out = []
            for v in vs:
                m = self.mappings(v, f, depth + 1)
                if m is None:
                    return None
                out += [(g, d, s + subs) for g, d, s in m]
            return out
        g = None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] and self.owner(f) is not None:
            g = self.prog.find_prop(self.owner(f).name, e.attr)
        elif isinstance(e, ast.Call):
            g = self.callee(f, e)
        if g is not None:
            out = []
            for n in ast.walk(g.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    m = self.mappings(n.value, g, depth + 1)
                    if m is None:
                        return None
                    out += m
            return out or None
        return None


class Open:
    """one call that opens a file"""

    def __init__(self, f, call, flow):
        self.f, self.call, self.flow = f, call, flow
        d = dotted(call.func)
        self.kind = None
        if d in ("open", "io.open"):
            self.kind = "open"
            self.names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
        elif d == "codecs.open":
            self.kind = "open"
            self.names = ["filename", "mode", "encoding", "errors", "buffering"]
        elif isinstance(call.func, ast.Attribute) and call.func.attr == "open" and (d is None or d.split(".")[0] not in ("os", "webbrowser", "io", "codecs", "gzip", "zipfile", "tarfile", "shelve", "dbm")):
            self.kind = "open"
            self.names = ["mode", "buffering", "encoding", "errors", "newline"]
        elif isinstance(call.func, ast.Attribute) and call.func.attr in ("read_text", "write_text"):
            self.kind = call.func.attr
            self.names = ["encoding", "errors", "newline"] if self.kind == "read_text" else ["data", "encoding", "errors", "newline"]

    def arg(self, name):
        """origins of an argument; {("none",)} when it is not passed"""
        c = self.call
        if self.names.index(name) < len(c.args) if name in self.names else False:
            a = c.args[self.names.index(name)]
            return {("?", "*")} if isinstance(a, ast.Starred) else self.flow.origins(a, self.f)
        for k in c.keywords:
            if k.arg == name:
                return self.flow.origins(k.value, self.f)
        out = {("none",)}
        for k in c.keywords:
            if k.arg is None:
                out = self.flow.entry(k.value, self.f, name)
        return out

    @property
    def mode(self):
        if self.kind == "read_text":
            return "r"
        if self.kind == "write_text":
            return "w"
        o = self.arg("mode")
        o = {("const", "r") if x == ("none",) else x for x in o}
        ms = {x[1] for x in o if x[0] == "const"}
        if len(ms) > 1 and all(x[0] == "const" for x in o):
            kinds = {("b" in m, bool(set("wax+") & set(m))) for m in ms}
            if len(kinds) == 1:
                return sorted(ms, key=len)[0]
        return ms.pop() if len(ms) == 1 and all(x[0] == "const" for x in o) else None

    @property
    def path(self):
        return ast.unparse(self.call)[:70]


def opens(prog, flow):
    out = []
    for f in prog.funcs.values():
        inner = {n for h in f.nested.values() for n in ast.walk(h.node)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and n not in inner:
                o = Open(f, n, flow)
                if o.kind:
                    out.append(o)
    return out


def outer(f):
    return f if f.outer is None else outer(f.outer)


# --------------------------------------------------------------------------
def encoding(res, o):
    f = o.f
    src = o.arg("encoding")
    key = f"{outer(f).qual}|encoding"
    cls = o.flow.owner(f)
    takes = False
    if cls is not None:
        init = o.flow.prog.find_method(cls.name, "__init__")
        takes = init is not None and "encoding" in init.all_params or "encoding" in outer(f).all_params
    elif "encoding" in outer(f).all_params:
        takes = True
    if any(x[0] == "?" for x in src):
        res.undec(f"{f.qual}: the encoding of {o.path} is not resolved ({sorted(str(x[1]) for x in src if x[0] == '?')})")
        return
    res.count("encodings resolved")
    mine = [x for x in src if x[0] == "param"]
    conf = [x for x in src if x[0] == "setting"]
    fixed = [x for x in src if x[0] in ("const", "ext", "none")]
    if takes and not mine:
        res.add(key, f"{outer(f).qual} opens a file without the encoding its caller asked for", f.loc(o.call), [o.path, f"encoding comes from {describe(src)}"])
    elif fixed and any(x != ("const", None) for x in fixed):
        res.add(key, f"{outer(f).qual} opens a file with {describe(fixed)} instead of the {'caller' if takes else 'configured encoding'}{chr(39) + 's encoding' if takes else ''}", f.loc(o.call), [o.path])
    elif not mine and not conf:
        res.add(key, f"{outer(f).qual} opens a file without the configured encoding", f.loc(o.call), [o.path, f"encoding comes from {describe(src)}"])
    else:
        res.sample(f"{f.qual}: {o.path} takes its encoding from {describe(src)}")
    errs = o.arg("errors") if "errors" in o.names else {("none",)}
    for x in errs:
        if x[0] == "const" and x[1] in LOSSY:
            res.add(f"{outer(f).qual}|errors", f"{outer(f).qual} opens a file with errors={x[1]!r}: text that does not fit the encoding is dropped or changed silently", f.loc(o.call), [o.path])
        elif x[0] == "?":
            res.undec(f"{f.qual}: the errors argument of {o.path} is not resolved")


def describe(src):
    out = []
    for x in sorted(src, key=str):
        out.append({"const": lambda: f"the fixed value {x[1]!r}", "param": lambda: f"parameter {x[2]} of {x[1]}", "setting": lambda: f"the module setting {x[1]}",
                    "none": lambda: "the platform default (no encoding argument)", "ext": lambda: f"{x[1]}", "fallback": lambda: "a fallback", "default": lambda: f"default {x[1]!r}"}.get(x[0], lambda: str(x))())
    return ", ".join(out)


# --------------------------------------------------------------------------
def handle(res, o, depth=0, call=None, f=None):
    """(function, name) pairs that hold the open file, after deciding that it is closed on every path"""
    f = f or o.f
    call = call or o.call
    P = o.flow.parent(f)
    p = P.get(call)
    key = f"{outer(f).qual}|close"
    if isinstance(p, ast.withitem):
        res.count("files closed on every path")
        return [(f, p.optional_vars.id, P.get(p))] if isinstance(p.optional_vars, ast.Name) else [(f, None, P.get(p))]
    if isinstance(p, ast.Call) and isinstance(p.func, (ast.Name, ast.Attribute)) and (dotted(p.func) or getattr(p.func, "attr", "")).split(".")[-1] in ("closing", "enter_context") and call in p.args:
        res.count("files closed on every path")
        pp = P.get(p)
        if isinstance(pp, ast.withitem) and isinstance(pp.optional_vars, ast.Name):
            return [(f, pp.optional_vars.id, P.get(pp))]
        if isinstance(pp, ast.Assign) and len(pp.targets) == 1 and isinstance(pp.targets[0], ast.Name):
            return [(f, pp.targets[0].id, f.node)]
        return [(f, None, None)]
    if isinstance(p, ast.Return) and depth < 2:
        out = []
        cs = o.flow.callers(f)
        if not cs or not outer(f).name.startswith("_"):
            res.undec(f"{f.qual} returns an open file: closing it is left to the caller")
        for g, c in cs:
            out += handle(res, o, depth + 1, c, g)
        return out
    if isinstance(p, (ast.Assign, ast.NamedExpr, ast.AnnAssign)):
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        if len(ts) == 1 and isinstance(ts[0], ast.Name):
            name = ts[0].id
            st = closing(f, name, p, P)
            if st == "closed":
                res.count("files closed on every path")
            elif st is not None:
                res.add(key, f"{outer(f).qual} opens a file that {st}", f.loc(call), [ast.unparse(p)[:80]])
            else:
                res.undec(f"{f.qual}: closing of {o.path} not recognised")
            return [(f, name, f.node)]
        res.undec(f"{f.qual}: the file opened by {o.path} is stored")
        return []
    if isinstance(p, ast.Attribute):
        if p.attr == "close":
            return []
        res.add(key, f"{outer(f).qual} opens a file that is never closed", f.loc(call), [ast.unparse(P.get(p, p))[:80]])
        return [(f, ("expr", call), f.node)]
    if isinstance(p, ast.Expr):
        res.add(key, f"{outer(f).qual} opens a file that is never closed", f.loc(call), [ast.unparse(p)[:80]])
        return []
    if isinstance(p, (ast.For, ast.comprehension)):
        res.add(key, f"{outer(f).qual} opens a file that is never closed", f.loc(call), [ast.unparse(call)[:80]])
        return [(f, ("expr", call), f.node)]
    res.undec(f"{f.qual}: use of {o.path} not recognised")
    return []


def closes(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
    return False


def harmless(s):
    """a statement that cannot raise"""
    return isinstance(s, ast.Pass) or isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name)) and all(isinstance(t, ast.Name) for t in s.targets) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict, ast.Tuple)) and not list(ast.iter_child_nodes(s.value))[1:]


def closing(f, name, st, P):
    """"closed", a description of how it is not, or None"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.withitem):
            c = n.context_expr
            if isinstance(c, ast.Name) and c.id == name:
                return "closed"
            if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1] == "closing" and any(isinstance(a, ast.Name) and a.id == name for a in c.args):
                return "closed"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "callback", "push") and any(isinstance(x, ast.Name) and x.id == name for a in n.args for x in ast.walk(a)):
            return "closed"
    # the statement list it sits in
    q = st
    while q in P and not isinstance(q, ast.stmt):
        q = P[q]
    holder = P.get(q)
    blk = next((getattr(holder, fl) for fl in ("body", "orelse", "finalbody") if q in (getattr(holder, fl, None) or [])), None)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and closes(n.finalbody, name):
            if blk is not None and n in blk:
                i, j = blk.index(q), blk.index(n)
                if all(harmless(s) for s in blk[i + 1:j]):
                    return "closed"
                return None
            if any(q is x for b in n.body for x in ast.walk(b)):
                return "closed"
            return None
    used = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            pp = P.get(n)
            if isinstance(pp, (ast.Return, ast.Yield, ast.Tuple, ast.List, ast.Dict, ast.Assign)) or isinstance(pp, ast.Call) and n in pp.args and dotted(pp.func) not in ("print", "len", "list", "isinstance", "str"):
                return None
            used = True
    if closes([f.node], name):
        return "stays open when an exception is raised before close()"
    return "is never closed" if used or True else None


# --------------------------------------------------------------------------
class Writes:
    """what a function writes to an open file, as sequences of text items"""

    def __init__(self, flow, f, env=None):
        self.flow, self.f = flow, f
        self.T = TextLines(flow.prog, f)
        self.env = dict(env or {})      # parameter -> ("line",) or ("lines", kind)
        self.loopvar = {}
        self.whole = None

    # -- text of one expression -------------------------------------------
    def text(self, e, depth=0):
        """list of items: str, ("line",), ("changed", why), ("all", [items per line], kind) or None"""
        if depth > 10 or e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.Attribute) and dotted(e) == "os.linesep":
            return ["\n"]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text(e.left, depth + 1), self.text(e.right, depth + 1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        return None
                    v = v.value
                t = self.text(v, depth + 1)
                if t is None:
                    return None
                out += t
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            return self.fill(e.left.value, "%s", args, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and not e.keywords:
            return self.fill(e.func.value.value.replace("{0}", "{}"), "{}", e.args, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
            return self.text(e.args[0], depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "join" and len(e.args) == 1:
            return self.join(e, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in CLEAN | {"rstrip"} :
            t = self.text(e.func.value, depth + 1)
            if t is None:
                return None
            if e.func.attr == "rstrip" and t == [("line",)]:
                # the text of a line has no white space at its end
                return t
            if any(isinstance(x, tuple) for x in t):
                return [("changed", ast.unparse(e)[:60])]
            return None
        if isinstance(e, ast.Subscript):
            t = self.text(e.value, depth + 1)
            if t and any(isinstance(x, tuple) for x in t):
                return [("changed", ast.unparse(e)[:60])]
            return None
        if isinstance(e, ast.Name):
            if e.id in self.loopvar:
                v = self.loopvar[e.id]
                return [("line",)] if v == "text" else None
            if e.id in self.env:
                return [("line",)] if self.env[e.id] == ("line",) else None
            vs = self.flow.stores(self.f, e.id)
            if len(vs) == 1 and vs[0] is not None:
                return self.text(vs[0], depth + 1)
            return None
        if isinstance(e, ast.Attribute) and e.attr in ("text", "_text") and isinstance(e.value, ast.Name) and self.loopvar.get(e.value.id) == "obj":
            return [("line",)]
        return None

    def fill(self, fmt, hole, args, depth):
        bits = fmt.split(hole)
        if len(bits) != len(args) + 1 or any(c in b for b in bits for c in ("%", "{", "}")):
            return None
        out = [bits[0]]
        for a, b in zip(args, bits[1:]):
            t = self.text(a, depth + 1)
            if t is None:
                return None
            out += t + [b]
        return [x for x in out if x != ""]

    def lines(self, e):
        """(loop value "text"/"obj", kind) of an iterable of all lines"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "iter", "enumerate") and e.args:
            return self.lines(e.args[0])
        if isinstance(e, ast.Name) and self.env.get(e.id, (None,))[0] == "lines":
            return ("text", self.env[e.id][1])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sorted", "reversed", "set", "frozenset") and e.args:
            k = self.lines(e.args[0])
            return None if k is None else (k[0], ("order", f"{e.func.id}()"))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "fromkeys" and e.args:
            k = self.lines(e.args[0])
            return None if k is None else (k[0], ("part", f"repeated lines once, {ast.unparse(e)}"))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "filter" and len(e.args) == 2:
            k = self.lines(e.args[1])
            return None if k is None else (k[0], ("part", f"only lines that pass {ast.unparse(e)}"))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and any(x is not None for x in (e.slice.lower, e.slice.upper, e.slice.step)):
            k = self.lines(e.value)
            if k is not None and k[1] and k[1][0] not in ("part", "order"):
                cs = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if not (cs[1] is None and cs[2] is None and isinstance(cs[0], ast.Constant) and cs[0].value == 0):
                    return (k[0], ("part", f"only {ast.unparse(e)}"))
        k = self.T.kind(e)
        if k is not None:
            return ("text", k)
        k = self.T.source(e)
        if k is not None:
            return ("obj", k)
        return None

    def per_line(self, e, depth=0):
        """([items per line], kind) of an iterable of texts made one per line"""
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1:
            g = e.generators[0]
            L = self.lines(g.iter)
            v = self.T.target(g.target)
            if L is None or v is None:
                return None
            old = dict(self.loopvar)
            self.loopvar[v] = L[0]
            t = self.text(e.elt, depth + 1)
            self.loopvar = old
            if t is None:
                return None
            k = ("part", f"only lines with {' and '.join(ast.unparse(i) for i in g.ifs)}") if g.ifs else L[1]
            return (t, k)
        L = self.lines(e)
        if L is not None and L[0] == "text":
            return ([("line",)], L[1])
        if isinstance(e, ast.Name):
            vs = self.flow.stores(self.f, e.id)
            if len(vs) == 1 and vs[0] is not None and not (isinstance(vs[0], ast.List) and not vs[0].elts):
                return self.per_line(vs[0], depth + 1)
        return None

    def join(self, e, depth):
        sep = self.text(e.func.value, depth + 1)
        a = e.args[0]
        if sep is None or any(isinstance(x, tuple) for x in sep):
            return None
        sep = "".join(sep)
        # "\n".join(lines + [""]): every line is followed by a line end
        tail = False
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and isinstance(a.right, (ast.List, ast.Tuple)) and len(a.right.elts) == 1 and isinstance(a.right.elts[0], ast.Constant) and a.right.elts[0].value == "":
            a, tail = a.left, True
        if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 2 and isinstance(a.elts[0], ast.Starred) and isinstance(a.elts[1], ast.Constant) and a.elts[1].value == "":
            a, tail = a.elts[0].value, True
        p = self.per_line(a, depth)
        if p is None:
            return None
        items, k = p
        out = [("all", tuple(items), sep, k)]
        return out + [sep] if tail else out

    # -- statements -------------------------------------------------------
    def run(self, body, h):
        """possible sequences of items written by the statements: [(items, ended)] with ended in None/"break"/"continue"/"exit", or None"""
        paths = [([], None)]
        for s in body:
            nxt = []
            for items, end in paths:
                if end is not None:
                    nxt.append((items, end))
                    continue
                r = self.stmt(s, h)
                if r is None:
                    return None
                for it, e2 in r:
                    nxt.append((items + it, e2))
            paths = nxt
            if len(paths) > 64:
                return None
        return paths

    def mentions(self, n, h):
        return any(isinstance(x, ast.Name) and x.id == h for x in ast.walk(n))

    def stmt(self, s, h):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.mentions(s.value, h):
            c = s.value
            fn = c.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == h:
                if fn.attr == "write" and len(c.args) == 1:
                    t = self.text(c.args[0])
                    return None if t is None else [(t, None)]
                if fn.attr == "writelines" and len(c.args) == 1:
                    p = self.per_line(c.args[0])
                    return None if p is None else [([("all", tuple(p[0]), "", p[1])], None)]
                if fn.attr in ("flush", "close", "fileno"):
                    return [([], None)]
                return None
            if isinstance(fn, ast.Name) and fn.id == "print":
                kw = {k.arg: k.value for k in c.keywords}
                end = self.text(kw["end"]) if "end" in kw else ["\n"]
                if end is None or set(kw) - {"file", "end", "flush", "sep"}:
                    return None
                if len(c.args) == 1 and not isinstance(c.args[0], ast.Starred):
                    t = self.text(c.args[0])
                    return None if t is None else [(t + end, None)]
                if len(c.args) == 1 and "sep" in kw:
                    sep = self.text(kw["sep"])
                    p = self.per_line(c.args[0].value)
                    if sep is None or p is None or any(isinstance(x, tuple) for x in sep):
                        return None
                    return [([("all", tuple(p[0]), "".join(sep), p[1])] + end, None)]
                return [(end, None)] if not c.args else None
            if dotted(fn) in ("os.fsync",):
                return [([], None)]
            g = self.flow.callee(self.f, c)
            if g is not None:
                return self.inline(g, c, h)
            return None
        if isinstance(s, ast.For):
            if not self.mentions(s, h):
                return [([], None)]
            L = self.lines(s.iter)
            v = self.T.target(s.target)
            if L is None or v is None or s.orelse and self.mentions(ast.Module(body=s.orelse, type_ignores=[]), h):
                return None
            old = dict(self.loopvar)
            self.loopvar[v] = L[0]
            ps = self.run(s.body, h)
            self.loopvar = old
            if ps is None:
                return None
            k = L[1]
            texts = []
            for items, end in ps:
                if end == "raise":
                    continue
                if end in ("break", "exit"):
                    k = ("part", "the loop ends before the last line")
                items = norm(items)
                if items not in texts:
                    texts.append(items)
            if not texts:
                return None
            bad = [t for t in texts if t != norm([("line",), "\n"])]
            return [([("all", tuple(bad[0] if bad else texts[0]), "", k)], None)]
        if isinstance(s, ast.If):
            a, b = self.run(s.body, h), self.run(s.orelse, h)
            if a is None or b is None:
                return None
            return a + b
        if isinstance(s, ast.With):
            return self.run(s.body, h)
        if isinstance(s, ast.Try):
            if s.handlers and any(not self.raises(x.body) for x in s.handlers) and self.mentions(s, h):
                return None
            return self.run(s.body + s.orelse + s.finalbody, h)
        if isinstance(s, ast.Return):
            return [([], "exit")] if s.value is None or not self.mentions(s.value, h) else self.stmt(ast.copy_location(ast.Expr(s.value), s), h)
        if isinstance(s, ast.Break):
            return [([], "break")]
        if isinstance(s, ast.Continue):
            return [([], "continue")]
        if isinstance(s, ast.Raise):
            return [([], "raise")]
        if isinstance(s, ast.While):
            return None if self.mentions(s, h) else [([], None)]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and self.mentions(s.value, h):
            return self.stmt(ast.copy_location(ast.Expr(s.value), s), h)
        if self.mentions(s, h):
            return None
        return [([], None)]

    def raises(self, body):
        return bool(body) and isinstance(body[-1], ast.Raise)

    def inline(self, g, c, h):
        if g.qual == self.f.qual:
            return None
        env, hp = {}, None
        ps = list(g.params)
        if g.kind in ("method", "classmethod") and isinstance(c.func, ast.Attribute):
            ps = ps[1:]
        pairs = list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]
        for p, a in pairs:
            if p is None:
                return None
            if isinstance(a, ast.Name) and a.id == h:
                hp = p
                continue
            t = self.text(a)
            if t == [("line",)]:
                env[p] = ("line",)
                continue
            L = self.lines(a)
            if L is not None:
                if L[0] != "text":
                    return None
                env[p] = ("lines", L[1])
        if hp is None:
            return None
        W = Writes(self.flow, g, env)
        r = W.run(g.node.body, hp)
        return None if r is None else [(i, None if e == "exit" else e) for i, e in r]


def norm(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def judge(items):
    """why a sequence of written items is not every line followed by a line end; None: it is; "?" unknown"""
    items = norm(items)
    alls = [x for x in items if isinstance(x, tuple) and x[0] == "all"]
    if not alls:
        return "writes none of the lines" if items and all(isinstance(x, str) for x in items) else None if not items else "?"
    if len(alls) > 1:
        return "writes the lines more than once"
    a = alls[0]
    i = items.index(a)
    before, after = items[:i], items[i + 1:]
    kind, per, sep = a[3], norm(a[1]), a[2]
    if kind[0] == "part":
        return f"does not write every line ({kind[1]})"
    if kind[0] == "order":
        return f"does not write the lines in their order ({kind[1]})"
    if kind[0] == "changed" or any(isinstance(x, tuple) and x[0] == "changed" for x in per):
        w = kind[1] if kind[0] == "changed" else next(x[1] for x in per if isinstance(x, tuple))
        return f"changes the text of the lines ({w})"
    if before:
        return f"writes {before[0]!r} before the lines"
    if not any(x == ("line",) for x in per):
        return "does not write every line"
    if sep == "":
        tail = per[per.index(("line",)) + 1:]
        if per[0] != ("line",) or any(isinstance(x, tuple) for x in tail):
            return f"writes more than the line ({per})"
        if not tail:
            return "writes lines that are not followed by a line end"
        if tail[0] not in ENDS:
            return f"writes {tail[0]!r} after a line instead of a line end"
        if after:
            return f"writes {after[0]!r} after the last line"
        return None
    if per == [("line",)] and sep in ENDS:
        if not after:
            return "does not end the last line"
        return None if after == [sep] else f"writes {after[0]!r} after the last line"
    return f"writes {sep!r} between the lines"


def saving(prog, flow, res, os_):
    """every file the configuration classes open for writing receives the lines"""
    n = 0
    for o in os_:
        m = o.mode
        if m is None or "b" in m:
            if m is None and o.kind == "open":
                res.undec(f"{o.f.qual}: mode of {o.path} not resolved")
            continue
        if not set("wax+") & set(m):
            continue
        f = o.f
        key = f"{outer(f).qual}|written"
        if "a" in m or m.startswith("r"):
            res.add(f"{outer(f).qual}|mode", f"{outer(f).qual} opens the file with mode {m!r}: what the file held before stays in it", f.loc(o.call), [o.path])
        if "newline" in o.names:
            nl = o.arg("newline")
            if ("const", "\r") in nl:
                res.add(f"{outer(f).qual}|newline", f"{outer(f).qual} writes lines that end in a carriage return only", f.loc(o.call), [o.path])
        if o.kind == "write_text":
            res.count("files closed on every path")
            W = Writes(flow, f)
            a = o.call.args[0] if o.call.args else next((k.value for k in o.call.keywords if k.arg == "data"), None)
            t = W.text(a)
            rs = None if t is None else [(t, None)]
        else:
            rs = []
            for g, name, scope in o.handles:
                if not isinstance(name, str):
                    continue
                W = Writes(flow, g)
                body = scope.body if scope is not None else g.node.body
                r = W.run(body, name)
                rs = None if r is None or rs is None else rs + r
        if not rs:
            res.undec(f"{f.qual}: what it writes to the file is not recognised")
            continue
        n += 1
        res.count("written files recognised")
        for items, end in rs:
            if end == "raise":
                continue
            why = judge(items)
            if why == "?":
                res.undec(f"{f.qual}: {items} not recognised")
            elif why is not None:
                res.add(key, f"{outer(f).qual} {why}", f.loc(o.call), [o.path])
            elif items:
                res.sample(f"{f.qual} writes every line, in order, each followed by a line end")
    return n


# --------------------------------------------------------------------------
class Reads:
    """where the text of files that are read goes"""

    def __init__(self, prog, flow, res):
        self.prog, self.flow, self.res = prog, flow, res
        self.textfuncs = {}     # functions that return the text of a file
        self.seen = set()

    def handle(self, f, name, scope):
        """all uses of an open file"""
        P = self.flow.parent(f)
        for n in ast.walk(scope if scope is not None else f.node):
            hit = isinstance(n, ast.Name) and n.id == name if isinstance(name, str) else n is name[1]
            if not hit or isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                continue
            p = P.get(n)
            if isinstance(p, ast.Attribute):
                c = P.get(p)
                if not isinstance(c, ast.Call) or c.func is not p:
                    continue
                if p.attr == "read":
                    a = c.args[0] if c.args else None
                    if a is None or isinstance(a, ast.UnaryOp) or isinstance(a, ast.Constant) and a.value in (None, -1):
                        self.res.count("file reads followed")
                        self.value(f, c, "text")
                    else:
                        self.part(f, c, f"reads only {ast.unparse(a)} characters of the file")
                elif p.attr == "readlines":
                    if c.args:
                        self.part(f, c, "reads only part of the file")
                    else:
                        self.res.count("file reads followed")
                elif p.attr == "readline":
                    if not self.looped(f, c):
                        self.part(f, c, "reads only one line of the file")
            elif isinstance(p, ast.Call) and n in p.args:
                g = self.flow.callee(f, p)
                if g is not None:
                    i = p.args.index(n) + (1 if g.kind in ("method", "classmethod") and isinstance(p.func, ast.Attribute) else 0)
                    if i < len(g.params):
                        self.handle(g, g.params[i], None)

    def looped(self, f, n):
        P = self.flow.parent(f)
        while n in P:
            n = P[n]
            if isinstance(n, (ast.While, ast.For)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "iter":
                return True
        return False

    def part(self, f, n, why):
        if self.parsed(f, n):
            return
        self.res.add(f"{outer(f).qual}|read", f"{outer(f).qual} {why}", f.loc(n), [ast.unparse(n)[:80]])

    def parsed(self, f, n):
        P = self.flow.parent(f)
        while n in P and not isinstance(P[n], ast.stmt):
            n = P[n]
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[0] in PARSERS:
                return True
        return False

    def value(self, f, n, what, depth=0):
        """follow the text of the file from expression n"""
        if (id(n), what) in self.seen or depth > 12:
            return
        self.seen.add((id(n), what))
        P = self.flow.parent(f)
        p = P.get(n)
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            for t in (p.targets if isinstance(p, ast.Assign) else [p.target]):
                if isinstance(t, ast.Name):
                    self.name(f, t.id, p, what, depth)
            if isinstance(p, ast.NamedExpr):
                self.value(f, p, what, depth + 1)
            return
        if isinstance(p, ast.Return):
            self.leaves(f, what, depth)
            return
        if isinstance(p, (ast.IfExp, ast.BoolOp)):
            self.value(f, p, what, depth + 1)
            return
        if isinstance(p, ast.Attribute):
            c = P.get(p)
            if isinstance(c, ast.Call) and c.func is p:
                self.method(f, c, p.attr, what, depth)
            return
        if isinstance(p, ast.Subscript) and p.value is n and what in ("text", "lines"):
            if isinstance(p.slice, ast.Slice) and (p.slice.lower is not None or p.slice.upper is not None):
                self.part(f, p, f"drops part of what it read ([{ast.unparse(p.slice)}])")
            return
        if isinstance(p, ast.Call) and n in p.args:
            d = dotted(p.func)
            if d in ("re.split", "regex.split") and len(p.args) > 1 and p.args[1] is n:
                self.split(f, p.args[0], p)
                if len(p.args) > 2 or any(k.arg == "maxsplit" for k in p.keywords):
                    self.part(f, p, "does not split the whole text (maxsplit)")
                self.value(f, p, "lines", depth + 1)
                return
            if isinstance(p.func, ast.Attribute) and p.func.attr == "split" and p.args[0] is n:
                r = p.func.value
                rg = self.compiled(f, r)
                if rg is not None:
                    self.split(rg[0], rg[1], p)
                    if len(p.args) > 1 or p.keywords:
                        self.part(f, p, "does not split the whole text (maxsplit)")
                    self.value(f, p, "lines", depth + 1)
                return
            if d in ("list", "tuple", "str"):
                self.value(f, p, what, depth + 1)
                return
            g = self.flow.callee(f, p)
            if g is not None and g.outer is None or g is not None:
                i = p.args.index(n) + (1 if g.kind in ("method", "classmethod") and isinstance(p.func, ast.Attribute) else 0)
                if i < len(g.params):
                    self.name(g, g.params[i], None, what, depth)
            return
        if isinstance(p, ast.keyword):
            c = P.get(p)
            g = self.flow.callee(f, c) if isinstance(c, ast.Call) else None
            if g is not None and p.arg in g.all_params:
                self.name(g, p.arg, None, what, depth)
            elif isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "split" and p.arg == "string":
                rg = self.compiled(f, c.func.value)
                if rg is not None:
                    self.split(rg[0], rg[1], c)
                elif dotted(c.func) == "re.split" and c.args:
                    self.split(f, c.args[0], c)

    def name(self, f, name, after, what, depth):
        if (f.qual, name, what) in self.seen:
            return
        self.seen.add((f.qual, name, what))
        P = self.flow.parent(f)
        line = getattr(after, "lineno", 0)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and n.lineno >= line:
                self.value(f, n, what, depth + 1)

    def leaves(self, f, what, depth):
        self.res.count("texts handed on to callers")
        for g, c in self.flow.callers(f):
            self.value(g, c, what, depth + 1)

    def method(self, f, c, attr, what, depth):
        P = self.flow.parent(f)
        if what != "text":
            return
        p = P.get(c)
        if attr == "splitlines":
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("len", "bool", "any"):
                return
            self.res.add(f"{outer(f).qual}|split", f"{outer(f).qual} splits the text with splitlines(), which also splits inside a line (form feed, vertical tab, \\x1c-\\x1e, \\x85, \\u2028, \\u2029)", f.loc(c), [ast.unparse(c)[:80]])
            return
        if attr in ("split", "rsplit"):
            sep = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "sep"), None)
            if len(c.args) > 1 or any(k.arg == "maxsplit" for k in c.keywords):
                self.part(f, c, "does not split the whole text (maxsplit)")
            os_ = self.flow.origins(sep, f) if sep is not None else {("const", None)}
            if all(o[0] == "const" for o in os_) or isinstance(sep, ast.Attribute) and dotted(sep) == "os.linesep":
                self.res.count("splits of file text decided")
                for o in os_:
                    if o[0] == "const" and o[1] not in ENDS:
                        self.res.add(f"{outer(f).qual}|split", f"{outer(f).qual} splits the text at {'white space' if o[1] is None else repr(o[1])}, not at line ends", f.loc(c), [ast.unparse(c)[:80]])
                self.own_pattern(f, c, os_)
            self.value(f, c, "lines", depth + 1)
            return
        if attr in CLEAN | {"rstrip"}:
            if attr == "replace" and len(c.args) >= 2 and all(isinstance(a, ast.Constant) and isinstance(a.value, str) and not a.value.strip("\r\n") for a in c.args[:2]):
                self.value(f, c, what, depth + 1)
                return
            if attr in ("rstrip", "encode"):
                if attr == "rstrip" and isinstance(p, ast.Attribute):
                    self.value(f, c, what, depth + 1)
                return
            if attr == "lstrip" or attr == "strip":
                a = c.args[0] if c.args else None
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and not a.value.strip("\r\n\ufeff"):
                    self.value(f, c, what, depth + 1)
                    return
            # strip() for a test (`if not text.strip()`) changes nothing
            q = p
            while isinstance(q, (ast.UnaryOp, ast.Compare, ast.BoolOp)) or isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ("len", "bool"):
                q = P.get(q)
            if isinstance(q, (ast.If, ast.While, ast.Assert)):
                return
            if isinstance(q, ast.IfExp) and any(c is x for x in ast.walk(q.test)):
                return
            self.part(f, c, f"changes the text it read (.{attr}())")

    def compiled(self, f, e):
        """(function, pattern expression) of a compiled regular expression"""
        if isinstance(e, ast.Call) and dotted(e.func) in ("re.compile",) and e.args:
            return (f, e.args[0])
        if isinstance(e, ast.Name):
            vs = self.flow.stores(f, e.id)
            if len(vs) == 1 and vs[0] is not None:
                return self.compiled(f, vs[0])
            if not vs and e.id not in f.all_params:
                r = self.prog.resolve_name(f.module, e.id)
                if r and r[0] == "global":
                    gs = r[1].globals.get(r[2], [])
                    if len(gs) == 1 and isinstance(gs[0], ast.Call) and dotted(gs[0].func) == "re.compile":
                        return (f, gs[0].args[0])
        return None

    def split(self, f, pat, c):
        src = self.flow.origins(pat, f)
        texts = sorted({x[1] for x in src if x[0] in ("const", "default") and isinstance(x[1], str)})
        if any(x[0] == "?" for x in src):
            self.res.undec(f"{f.qual}: pattern of {ast.unparse(c)[:60]} not resolved")
        for t in texts:
            self.res.count("splits of file text decided")
            try:
                if rx.compile_error(t):
                    continue
                w = rx.included(rx.whole_nfa(t), rx.whole_nfa(r"[\r\n]+"))
                v = rx.included(rx.whole_nfa(r"\n"), rx.whole_nfa(t))
            except rx.Unsupported as ex:
                self.res.undec(f"{f.qual}: pattern {t!r}: {ex}")
                continue
            if w is not None:
                self.res.add(f"{outer(f).qual}|split", f"{outer(f).qual} splits the text where no line ends: {t!r} matches {w!r}", f.loc(c), [ast.unparse(c)[:80]])
            if v is not None:
                self.res.add(f"{outer(f).qual}|split", f"{outer(f).qual} does not split the text at every line end: {t!r} does not match {v!r}", f.loc(c), [ast.unparse(c)[:80]])
            self.res.sample(f"{f.qual} splits at {t!r}")
        self.own_pattern(f, c, src)

    def own_pattern(self, f, c, src):
        """the caller's own pattern decides where the class offers one"""
        cls = self.flow.owner(f)
        init = self.prog.find_method(cls.name, "__init__") if cls is not None else None
        if init is not None and "linesplit_rgx" in init.all_params and not any(x[0] == "?" for x in src):
            if not any(x[0] == "param" and x[1] == init.qual for x in src):
                self.res.add(f"{cls.name}|linesplit_rgx", f"{cls.name} never uses the caller's linesplit_rgx when it splits a file", f.loc(c), [ast.unparse(c)[:80]])


def examine(prog, res):
    flow = Flow(prog)
    os_ = opens(prog, flow)
    R = Reads(prog, flow, res)
    for o in os_:
        res.count("files opened")
        m = o.mode
        if m is not None and "b" in m:
            res.undec(f"{o.f.qual}: {o.path} opens the file as bytes")
            o.handles = handle(res, o)
            continue
        encoding(res, o)
        o.handles = handle(res, o) if o.kind == "open" else []
        if o.kind == "read_text":
            res.count("files closed on every path")
            res.count("file reads followed")
            R.value(o.f, o.call, "text")
        elif m is not None and not set("wax") & set(m):
            for g, name, scope in o.handles:
                if name is not None:
                    R.handle(g, name, scope)
    saving(prog, flow, res, os_)
    return os_


def run(ctx):
    prog = ctx.prog
    res = Result("value-flow analysis of every call that opens a file: where its encoding comes from, how it is closed, which text is written to it and where the text read from it is split")
    examine(prog, res)
    p = prog.find_prop("CiscoConfParse", "ioscfg")
    if p is not None:
        T = TextLines(prog, p)
        k = T.returned(p)
        if k is None:
            res.undec("CiscoConfParse.ioscfg: the list of lines is not recognised")
        elif k != ("all",):
            res.add("CiscoConfParse.ioscfg|written", f"the lines that are saved (CiscoConfParse.ioscfg) are not the configuration's lines ({k[1]})", p.loc())
        else:
            res.count("line lists that are saved")
    res.floor("files opened", 3)
    res.floor("encodings resolved", 2)
    res.floor("files closed on every path", 3)
    return res
