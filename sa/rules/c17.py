"""C17: internal calls bind, attributes exist, type tests are given types."""
import ast
import builtins
import inspect

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted
from .c13 import full_name
from .c15 import users
from .c16 import stdlib

BUILTIN_TYPES = {"str": str, "int": int, "list": list, "dict": dict, "set": set, "tuple": tuple, "float": float, "bool": bool, "bytes": bytes, "frozenset": frozenset}
OBJ = set(dir(object))
EXT_BASE = {"UserList": __import__("collections").UserList, "MutableSequence": __import__("collections.abc").abc.MutableSequence, "ABC": object, "object": object,
            "Exception": Exception, "ValueError": ValueError, "NotImplementedError": NotImplementedError, "TypeError": TypeError}


def bind_error(g, nargs, kws, star, dstar, bound):
    """reason why a call cannot bind to g, else None.  bound: the first parameter is supplied implicitly"""
    params = list(g.params)
    given = set()
    pos = nargs + (1 if bound else 0)
    if pos > len(params) and not g.vararg:
        return f"{pos - (1 if bound else 0)} positional arguments, at most {len(params) - (1 if bound else 0)} accepted"
    given |= set(params[:pos])
    for k in kws:
        if k in given:
            return f"argument '{k}' is given twice"
        if k in g.posonly or (k not in params and k not in g.kwonly and not g.kwarg):
            return f"unexpected keyword argument '{k}'"
        given.add(k)
    if not star and not dstar:
        miss = [p for p in params + g.kwonly if p not in given and p not in g.defaults]
        if miss:
            return "missing " + ", ".join(repr(m) for m in miss)
    return None


def call_shape(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    return sum(not isinstance(a, ast.Starred) for a in n.args), [k.arg for k in n.keywords if k.arg], star, dstar


def init_of(prog, c):
    for k in c.mro:
        if "__init__" in k.methods:
            return k.methods["__init__"]
        if "__new__" in k.methods:
            return None
    return None


def external_attrs(c):
    """attribute names inherited from bases outside the package; None = unknown base"""
    out = set(OBJ)
    for k in c.mro:
        for b in k.external_bases:
            t = EXT_BASE.get(b.split(".")[-1])
            if t is None:
                t = getattr(builtins, b.split(".")[-1], None)
            if t is None:
                return None
            out |= set(dir(t))
            if b.split(".")[-1] == "UserList":
                out.add("data")
    return out


class Attrs:
    def __init__(self, prog, interp):
        self.prog = prog
        self.stored = {}        # class -> attributes assigned on self in its methods
        self.byname = set()     # attributes assigned on anything else
        self.dynamic = set()    # classes that fill __dict__ / setattr with computed names
        for f in prog.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and f.params and f.cls and n.value.id == (f.params[0] if f.outer is None else self._outer(f).params[0] if self._outer(f).params else None):
                        self.stored.setdefault(f.cls.name, set()).add(n.attr)
                    else:
                        self.byname.add(n.attr)
                elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__", "super().__setattr__") and len(n.args) >= 2:
                    if isinstance(n.args[1], ast.Constant):
                        self.byname.add(n.args[1].value)
                    elif f.cls:
                        self.dynamic.add(f.cls.name)

    def _outer(self, f):
        while f.outer is not None:
            f = f.outer
        return f

    def exists(self, cname, attr, depth=0):
        """may an instance of cname (or of a subclass) have attr?"""
        prog = self.prog
        c = prog.classes[cname]
        if attr in self.byname or attr.startswith("__") and attr.endswith("__"):
            return True
        fam = [k.name for k in c.mro] + sorted(prog.subclasses.get(cname, ()))
        for k in fam:
            kc = prog.classes[k]
            if attr in kc.methods or attr in kc.props or attr in kc.setters or attr in kc.attrs or attr in self.stored.get(k, ()):
                return True
            if k in self.dynamic:
                return True
        ext = external_attrs(c)
        if ext is None or attr in ext:
            return True
        # ConfigList forwards unknown attributes to the CiscoConfParse it belongs to
        ga = prog.find_method(cname, "__getattribute__")
        if ga is not None and depth == 0:
            others = [o for o in prog.classes if any(isinstance(x, ast.Name) and x.id == "ccp_ref" for x in ast.walk(ga.node))]
            return any(self.exists(o, attr, 1) for o in others if o == "CiscoConfParse") if others else True
        g2 = prog.find_method(cname, "__getattr__")
        if g2 is not None and not raises_on_missing(g2):
            return True
        return False


PLAIN = {"list", "str", "int", "bool", "float", "tuple", "set", "dict", "NoneType", "bytes", "frozenset"}


def members(attrs, cname, attr):
    """[(kind, Func)] of every definition an instance of cname (or of a subclass) may show under attr; None when it may also be plain data"""
    prog = attrs.prog
    out = []
    if attr in attrs.byname:
        return None
    for k in [cname] + sorted(prog.subclasses.get(cname, ())):
        if any(x.name in attrs.dynamic or attr in attrs.stored.get(x.name, ()) and attr not in x.props for x in prog.classes[k].mro):
            return None
        r = prog.lookup(k, attr, ("methods", "props", "attrs"))
        if r is None or r[0] == "attrs":
            return None
        out.append((r[0], r[2]))
    return out


def misuse(attrs, interp, f, n, tags, parent):
    """a property that is called, a method that is used as a value, a property without a setter that is assigned"""
    ms = []
    for t in tags:
        if t not in attrs.prog.classes:
            return None
        m = members(attrs, t, n.attr)
        if not m:
            return None
        ms += m
    kinds = {k for k, _ in ms}
    who = "/".join(sorted(tags))
    if isinstance(n.ctx, ast.Load):
        if kinds == {"props"} and isinstance(parent, ast.Call) and parent.func is n:
            got = set()
            for _, g in ms:
                s = interp.sum.get(g.qual)
                if s is None or not s.ret.tags:
                    return None
                got |= set(s.ret.tags)
            if got <= PLAIN:
                return f"call {ast.unparse(n)}", f"{ast.unparse(n)} is a property of {who} and its value ({'/'.join(sorted(got))}) cannot be called"
        if kinds == {"methods"} and all(g.kind == "method" for _, g in ms) and misused(f, n):
            return f"uncalled {ast.unparse(n)}", f"{ast.unparse(n)} is a method of {who}, not its result: it is never called"
    elif isinstance(n.ctx, ast.Store):
        if kinds == {"props"} and not any(attrs.prog.find_setter(k, n.attr) for t in tags for k in [t] + sorted(attrs.prog.subclasses.get(t, ()))) \
                and not any(attrs.prog.find_method(t, "__setattr__") for t in tags):
            return f"set {ast.unparse(n)}", f"{ast.unparse(n)} is a property of {who} without a setter, yet it is assigned"
    return None


def no_super(prog, f, n):
    """super().x for an x that no base class has"""
    if not (isinstance(n.value, ast.Call) and dotted(n.value.func) == "super" and not n.value.args and f.cls is not None):
        return False
    if n.attr.startswith("__") and n.attr.endswith("__"):
        return False
    # in a family of classes the next one in line may belong to a subclass's other base
    for k in [f.cls.name] + sorted(prog.subclasses.get(f.cls.name, ())):
        mro = prog.classes[k].mro
        names = [x.name for x in mro]
        if f.cls.name not in names:
            return False
        for x in mro[names.index(f.cls.name) + 1:]:
            if n.attr in x.methods or n.attr in x.props or n.attr in x.attrs or n.attr in x.setters:
                return False
        ext = external_attrs(prog.classes[k])
        if ext is None or n.attr in ext:
            return False
    return True


def raises_on_missing(g):
    """__getattr__ that only ever answers attributes of `object`"""
    names = {n.value.id if isinstance(n.value, ast.Name) else "?" for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
    _ = names
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and dotted(n.func) == "getattr" and n.args and dotted(n.args[0]) == "object":
            return any(isinstance(x, ast.Raise) for x in ast.walk(g.node))
    return not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(g.node))


def bound_names(f):
    out = set()
    g = f
    while g is not None:
        out |= set(g.all_params)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        g = g.outer
    return out


def guarded(f, node):
    """inside a try whose handler catches the error, or under hasattr: the failure is handled"""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and any(node is x for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                names = {"BaseException"} if h.type is None else {dotted(e) for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                if names & {"AttributeError", "TypeError"}:
                    return True
    return False


def nodes_of(f):
    """nodes of f, nested functions excluded"""
    work = list(f.node.body)
    while work:
        n = work.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            work += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        work += list(ast.iter_child_nodes(n))


def is_type_expr(prog, f, e, local):
    """True / False / None(unknown): may expression e be the second argument of isinstance"""
    if isinstance(e, ast.Tuple):
        rs = [is_type_expr(prog, f, x, local) for x in e.elts]
        return False if False in rs else (None if None in rs else True)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        rs = [is_type_expr(prog, f, x, local) for x in (e.left, e.right)]
        return False if False in rs else (None if None in rs else True)
    if isinstance(e, ast.Constant):
        return False
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.JoinedStr, ast.ListComp, ast.Compare)):
        return False
    if isinstance(e, ast.Call):
        return True if dotted(e.func) == "type" and len(e.args) == 1 else None
    d = dotted(e)
    if d is None or d.split(".")[0] in local:
        return None
    r = prog.resolve_name(f.module, d.split(".")[0])
    if r is None:
        if "." in d:
            return None
        b = getattr(builtins, d, None)
        return None if b is None else isinstance(b, type)
    if r[0] == "class" and "." not in d:
        return True
    if r[0] == "func" and "." not in d:
        return False
    if r[0] == "ext":
        full = r[1] + d[len(d.split(".")[0]):]
        mod = stdlib(full.split(".")[0])
        if mod is None:
            return None
        cur, name = mod, full.split(".")[0]
        for x in full.split(".")[1:]:
            name += "." + x
            nxt = getattr(cur, x, None)
            if nxt is None:
                nxt = stdlib(name)
            if nxt is None:
                return None
            cur = nxt
        if isinstance(cur, type):
            return True
        if isinstance(cur, (str, int, type(ast))) or inspect.isfunction(cur) or inspect.isbuiltin(cur):
            return False
        return None
    return None


def std_object(full):
    mod = stdlib(full.split(".")[0])
    if mod is None:
        return None
    cur, name = mod, full.split(".")[0]
    for x in full.split(".")[1:]:
        name += "." + x
        nxt = getattr(cur, x, None)
        if nxt is None:
            nxt = stdlib(name)
        if nxt is None:
            return None
        cur = nxt
    return cur


def sig_error(obj, n):
    try:
        sig = inspect.signature(obj)
    except (TypeError, ValueError):
        return None
    nargs, kws, star, dstar = call_shape(n)
    if star or dstar:
        return None
    try:
        sig.bind(*([None] * nargs), **{k: None for k in kws})
    except TypeError as e:
        return str(e)
    return None


def targets(prog, interp, f, n, local):
    """[(Func, bound)] certain targets of a call node"""
    fn = n.func
    if isinstance(fn, ast.Name):
        g = f
        while g is not None:
            if fn.id in g.nested:
                return [(g.nested[fn.id], False, None)]
            g = g.outer
        if fn.id in local:
            return class_targets(prog, interp, fn)
        r = prog.resolve_name(f.module, fn.id)
        if r and r[0] == "func":
            return [(r[1], False, None)]
        if r and r[0] == "class":
            i = init_of(prog, r[1])
            return [(i, True, r[1].name)] if i is not None else []
        return []
    if isinstance(fn, ast.Attribute):
        d = dotted(fn)
        if d and d.split(".")[0] not in local:
            r = prog.resolve_name(f.module, d.split(".")[0])
            if r and r[0] == "class" and d.count(".") == 1:
                g = prog.find_method(r[1].name, fn.attr)
                return [(g, g.kind == "classmethod", r[1].name)] if g is not None else []
            if r and r[0] == "module" and d.count(".") == 1:
                if fn.attr in r[1].functions:
                    return [(r[1].functions[fn.attr], False, None)]
        if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == "super" and f.cls:
            for k in f.cls.mro[1:]:
                if fn.attr in k.methods:
                    g = k.methods[fn.attr]
                    return [(g, g.kind != "staticmethod", k.name)]
            return []
        out = []
        av = interp.nt.get(fn.value)
        tags = av.tags if av is not None else None
        if f.cls and f.params and isinstance(fn.value, ast.Name) and fn.value.id == f.params[0] and f.kind in ("method", "property", "setter", "classmethod"):
            tags = {f.cls.name}
        if not tags:
            return []
        for t in sorted(tags):
            cn = t[4:] if t.startswith("cls:") else t
            if cn not in prog.classes:
                continue
            for k in [cn] + sorted(prog.subclasses.get(cn, ())):
                if k != cn and t.startswith("cls:"):
                    continue
                kk = prog.lookup(k, fn.attr, ("methods", "props", "attrs"))
                if kk is None or kk[0] != "methods":
                    continue
                g = kk[2]
                if t.startswith("cls:"):
                    out.append((g, g.kind == "classmethod", k))
                else:
                    out.append((g, g.kind != "staticmethod", k))
        seen = {}
        for g, b, k in out:
            seen.setdefault((g.qual, b), (g, b, k))
        return list(seen.values())
    return []


def class_targets(prog, interp, fn):
    av = interp.nt.get(fn)
    out = []
    for t in sorted(av.tags or ()) if av is not None else ():
        if t.startswith("cls:") and t[4:] in prog.classes:
            i = init_of(prog, prog.classes[t[4:]])
            if i is not None:
                out.append((i, True, t[4:]))
    return out


def check(prog, interp, res):
    attrs = Attrs(prog, interp)
    for f in prog.funcs.values():
        local = bound_names(f)
        called = set()
        alts = [u.qual for u in users(prog, f)]

        def report(key, msg, node):
            if not guarded(f, node):
                res.add(f"{f.qual}|{key}", f"{f.qual}: {msg}", f.loc(node), alts=[f"{a}|{key}" for a in alts])

        for n in nodes_of(f):
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                nargs, kws, star, dstar = call_shape(n)
                ts = targets(prog, interp, f, n, local)
                for g, bound, cn in ts:
                    res.count("bound_calls")
                    if wrapped(g):
                        continue
                    why = bind_error(g, nargs, kws, star, dstar, bound)
                    if why:
                        report(f"call {g.qual}", f"call of {g.qual} cannot bind: {why}", n)
                d = dotted(n.func)
                if not ts and d and d.split(".")[0] not in local:
                    full = full_name(prog, f.module, f, d)
                    o = std_object(full) if full else (getattr(builtins, d, None) if "." not in d and prog.resolve_name(f.module, d) is None else None)
                    if callable(o):
                        res.count("library_calls")
                        why = sig_error(o, n)
                        if why:
                            report(f"call {full or d}", f"call of {full or d} cannot bind: {why}", n)
                    elif o is not None:
                        report(f"call {full or d}", f"{full or d} is not callable", n)
                if d in ("isinstance", "issubclass") and d not in local and len(n.args) == 2:
                    res.count("type_tests")
                    if is_type_expr(prog, f, n.args[1], local) is False:
                        report(f"{d} {ast.unparse(n.args[1])}", f"{d}() is given {ast.unparse(n.args[1])}, which is not a type", n)
                if d == "len" and d not in local and len(n.args) == 1:
                    av = interp.nt.get(n.args[0])
                    if isinstance(n.args[0], ast.Compare) or av is not None and av.tags and av.tags <= {"int", "bool", "float", "NoneType"}:
                        report(f"len {ast.unparse(n.args[0])}", f"len() of {ast.unparse(n.args[0])}, which has no length", n)
        for n in nodes_of(f):
            if not isinstance(n, ast.Attribute):
                continue
            av = interp.nt.get(n.value)
            tags = set(av.tags) if av is not None and av.tags else None
            if f.cls and f.params and f.outer is None and isinstance(n.value, ast.Name) and n.value.id == f.params[0] and f.kind in ("method", "property", "setter"):
                tags = {f.cls.name}
            if no_super(prog, f, n):
                report(f"attr {ast.unparse(n)}", f"{ast.unparse(n)}: no base class of {f.cls.name} has the attribute '{n.attr}'", n)
            if not tags:
                continue
            tags.discard("NoneType")
            if not tags:
                continue
            x = misuse(attrs, interp, f, n, tags, parents(f).get(n))
            if x:
                report(x[0], x[1], n)
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                continue
            verdicts = []
            for t in tags:
                if t in prog.classes:
                    verdicts.append(attrs.exists(t, n.attr))
                elif t in BUILTIN_TYPES:
                    verdicts.append(hasattr(BUILTIN_TYPES[t], n.attr))
                else:
                    verdicts = []
                    break
            if not verdicts:
                continue
            res.count("typed_attribute_reads")
            if not any(verdicts):
                report(f"attr {ast.unparse(n)}", f"{ast.unparse(n)}: no {'/'.join(sorted(tags))} object has the attribute '{n.attr}'", n)
            elif tags <= set(BUILTIN_TYPES) and id(n) not in called and misused(f, n):
                report(f"uncalled {ast.unparse(n)}", f"{ast.unparse(n)} is a method, not its result: it is never called", n)


def misused(f, n):
    """a bound method used as data (compared, iterated, indexed, concatenated)"""
    par = parents(f)
    p = par.get(n)
    if isinstance(p, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops):
        return True
    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        return True
    if isinstance(p, ast.Subscript) and p.value is n or isinstance(p, (ast.BinOp, ast.BoolOp)):
        return True
    if isinstance(p, ast.Call) and p.func is not n and dotted(p.func) in ("len", "sorted", "list", "tuple", "set", "enumerate", "sum", "min", "max", "reversed", "int", "range") and n in p.args[:1]:
        return True
    return isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n


def parents(f):
    if not hasattr(f, "_par") or f._par is None:
        f._par = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
    return f._par


def wrapped(g):
    """decorated by something that may change the signature"""
    for d in g.decorators:
        nm = (dotted(d.func if isinstance(d, ast.Call) else d) or "?").split(".")[-1]
        if nm not in ("catch", "property", "classmethod", "staticmethod", "abstractmethod", "setter", "junos_unsupported", "log_function_call", "wraps", "deprecated", "total_ordering", "enforce_valid_types"):
            return True
    return False


def run(ctx):
    res = Result("Every call whose target the type analysis resolves is bound against the target's signature (library functions, methods, constructors, overriding methods, standard-library callables); "
                 "every attribute read on a receiver of known type exists on at least one of its types; every isinstance/issubclass second argument is a type; no method is used as data.")
    check(ctx.prog, ctx.interp, res)
    res.floor("bound_calls", 400)
    res.floor("typed_attribute_reads", 2000)
    res.floor("type_tests", 300)
    res.assumptions += ["receivers of unknown type are not judged", "failures inside a try that handles AttributeError/TypeError are handled by the code itself"]
    return res


SELF = '''
import re
def tgt(a, b=1, *, c=2): return a
class K:
    def __init__(self, x): self.x = x
    def m(self, y): return y
    def ok(self): return self.m(1) and self.x
    def bad1(self): return self.m()
    def bad2(self): return self.zz
    def bad3(self, s): return isinstance(s, "K")
    def bad4(self): return K()
    def bad5(self): return tgt(1, d=3)
    def bad6(self, s):
        t = "a" + s
        return t.strip == "x"
    def bad7(self): return re.compile()
    def ok2(self): return tgt(1, c=3) and re.sub("a", "b", "c")
class L(K):
    def m(self, y, z=1): return y
'''


def selftest():
    from ..absint import Interp
    p = Program.from_source(SELF)
    r = Result("x")
    check(p, Interp(p, {}), r)
    got = sorted({f.key.split("|")[0] for f in r.findings})
    want = [f"K.bad{i}" for i in range(1, 8)]
    if got != want:
        raise AnalysisBroken(f"C17 self-example not decided: {got}")
