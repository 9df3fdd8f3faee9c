"""C16: every name is assigned before it is read, and every global name exists."""
import ast
import builtins
import importlib
import sys

from ..defassign import DefAssign
from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted
from .c15 import NoReturn, users

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__class__"}
MISSING = object()


class Domain:
    """finite value/type domains that make an if/elif chain exhaustive"""

    def __init__(self, prog, interp):
        self.prog = prog
        self.interp = interp
        self.attr_consts = {}
        for f in prog.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                v = n.value if x is t and not isinstance(n, ast.AugAssign) else None
                                c = repr(v.value) if isinstance(v, ast.Constant) else MISSING
                                self.attr_consts.setdefault(x.attr, set()).add(c)
        for c in prog.classes.values():
            for a, v in c.attrs.items():
                self.attr_consts.setdefault(a, set()).add(repr(v.value) if isinstance(v, ast.Constant) else MISSING)
            for a in list(c.props) + list(c.setters):
                self.attr_consts.setdefault(a, set()).add(MISSING)
        for a in ("__dict__",):
            self.attr_consts.setdefault(a, set()).add(MISSING)
        self.dyn = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant))
                       for m in prog.modules.values() for n in ast.walk(m.tree))

    def exhausted(self, test, key, facts):
        # equality chains over an attribute that only ever holds known constants
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Attribute) and isinstance(test.comparators[0], ast.Constant):
            dom = self.attr_consts.get(test.left.attr)
            if dom and MISSING not in dom:
                lhs = ast.unparse(test.left)
                seen = set()
                for k, v in facts.items():
                    for op in (" == ", " is "):
                        if not v and k.startswith(lhs + op):
                            seen.add(k[len(lhs + op):])
                if dom <= seen:
                    return True
        # type tests that cover every type the value can have
        subj = None
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            subj = test.args[0]
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            subj = test.left
        if subj is None:
            return False
        av = self.interp.nt.get(subj)
        tags = av.tags if av is not None else None
        if not tags:
            return False
        txt = ast.unparse(subj)
        left = set(tags)
        for k, v in facts.items():
            if v:
                continue
            if k == f"{txt} is None":
                left.discard("NoneType")
            elif k.startswith(f"isinstance({txt}, "):
                try:
                    a = ast.parse(k, mode="eval").body.args[1]
                except (SyntaxError, AttributeError, IndexError):
                    continue
                names = [dotted(e) for e in (a.elts if isinstance(a, ast.Tuple) else [a])]
                for t in list(left):
                    if any(nm and self.covers(nm.split(".")[-1], t) for nm in names):
                        left.discard(t)
        return not left

    ABCS = {"Sequence": {"list", "tuple", "str", "range", "UserList", "MutableSequence", "deque"}, "MutableSequence": {"list", "UserList", "deque"},
            "Mapping": {"dict", "UserDict"}, "Iterable": {"list", "tuple", "str", "set", "dict", "UserList", "MutableSequence"}}

    def covers(self, nm, t):
        if nm == t or nm == "object" or (nm == "int" and t == "bool"):
            return True
        c = self.prog.classes.get(t)
        if c is not None:
            if nm in {k.name for k in c.mro}:
                return True
            ext = {b.split(".")[-1] for k in c.mro for b in k.external_bases}
            return nm in ext or bool(self.ABCS.get(nm, set()) & ext)
        return t in self.ABCS.get(nm, ())


def star_names(prog, m):
    """names a module may receive through star imports; None = unknown"""
    out = set()
    for n in m.tree.body:
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            mod = n.module or ""
            from ..srcmodel import PKG
            sub = prog.modules.get(mod[len(PKG) + 1:]) if mod.startswith(PKG + ".") else None
            if sub is None:
                mm = stdlib(mod)
                if mm is None:
                    return None
                out |= set(dir(mm))
                continue
            out |= module_names(sub)
            s = star_names(prog, sub)
            if s is None:
                return None
            out |= s
    return out


def module_names(m):
    return set(m.globals) | set(m.functions) | set(m.classes) | set(m.imports)


def stdlib(name):
    """the standard-library module `name` (never a package under analysis or a third-party one)"""
    if name.split(".")[0] not in sys.stdlib_module_names:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def scopes(node, outer=()):
    """(scope node, names bound in it, enclosing function names) for every scope below node"""


def bound_in(fnode):
    a = fnode.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    glob = set()
    work = list(body)
    while work:
        n = work.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # its targets live in the comprehension only
            out.update(x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
            continue
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.alias) and n.name != "*":
            out.add((n.asname or n.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        work += list(ast.iter_child_nodes(n))
    return out - glob


def undefined(prog, m):
    """(owner, name, node) of every global read that cannot resolve"""
    st = star_names(prog, m)
    if st is None:
        return [], 0
    # `global x` assignments inside functions bind module names too
    known = module_names(m) | st | BUILTINS
    out = []
    n = 0

    def visit(node, env, owner, in_class):
        nonlocal n
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(node, "decorator_list", []):
                visit(d, env, owner, in_class)
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                visit(d, env, owner, in_class)
            env2 = [e for e in env if e[0] != "class"] + [("f", bound_in(node))]
            own = owner
            if not isinstance(node, ast.Lambda):
                f = prog.func_by_node.get(node)
                own = f if f is not None else owner
            body = node.body if isinstance(node.body, list) else [node.body]
            for x in body:
                visit(x, env2, own, False)
            return
        if isinstance(node, ast.ClassDef):
            for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
                visit(d, env, owner, in_class)
            names = set()
            for x in node.body:
                for y in ast.walk(x) if not isinstance(x, (ast.FunctionDef, ast.ClassDef)) else [x]:
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        names.add(y.id)
                    elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        names.add(y.name)
            for x in node.body:
                visit(x, env + [("class", names)], owner, True)
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for ch in ast.iter_child_nodes(node):
                visit(ch, env + [("c", names)], owner, in_class)
            return
        if isinstance(node, ast.AnnAssign):
            visit(node.target, env, owner, in_class)
            if node.value is not None:
                visit(node.value, env, owner, in_class)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            n += 1
            if not any(node.id in names for _, names in env) and node.id not in known:
                out.append((owner, node.id, node))
            return
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            # attribute of an imported module
            d = dotted(node)
            if d and not any(d.split(".")[0] in names for _, names in env):
                bad = module_attr(prog, m, d)
                if bad:
                    out.append((owner, d, node))
                n += 1
        for ch in ast.iter_child_nodes(node):
            visit(ch, env, owner, in_class)

    for x in m.tree.body:
        visit(x, [], None, False)
    return out, n


def module_attr(prog, m, d):
    """True when `d` names an attribute of a module that certainly does not exist"""
    parts = d.split(".")
    imp = m.imports.get(parts[0])
    if imp is None:
        return False
    r = prog.resolve_name(m, parts[0])
    if r and r[0] == "module":
        sub = r[1]
        s = star_names(prog, sub)
        return s is not None and parts[1] not in module_names(sub) | s | {"__name__", "__file__", "__doc__", "__dict__"}
    if r and r[0] == "ext":
        cur, i = None, 0
        full = r[1].split(".")
        mod = stdlib(full[0])
        if mod is None:
            return False
        cur = mod
        rest = full[1:] + parts[1:]
        name = full[0]
        for x in rest:
            name += "." + x
            if hasattr(cur, x):
                cur = getattr(cur, x)
                continue
            if stdlib(name) is not None and isinstance(cur, type(sys)):
                cur = stdlib(name)
                continue
            return isinstance(cur, (type(sys), type))
    return False


def check(prog, interp, res):
    nr = NoReturn(prog)
    dom = Domain(prog, interp)
    for f in prog.funcs.values():
        d = DefAssign(f.node, set(f.all_params), never=lambda c, f=f: nr.call_never(c, f), exhausted=dom.exhausted)
        res.count("functions")
        res.count("local_reads", d.reads)
        seen = set()
        for nm, node in d.unbound:
            if nm in seen:
                continue
            seen.add(nm)
            res.add(f"{f.qual}|{nm}", f"{f.qual} can read local '{nm}' before it is assigned", f.loc(node), alts=[f"{u.qual}|{nm}" for u in users(prog, f)])
    for m in prog.modules.values():
        bad, n = undefined(prog, m)
        res.count("global_reads", n)
        for owner, nm, node in bad:
            q = owner.qual if owner is not None else m.name
            res.add(f"{q}|{nm} undefined", f"{q} uses the name '{nm}', which nothing defines", f"{m.rel}:{node.lineno}")


def run(ctx):
    res = Result("Definite assignment of every local of every function (property simulation over branch facts; disjuncts merged, loops by join, "
                 "exhaustive if-chains recognised through finite attribute domains and inferred types), and resolution of every global name and every module attribute read.")
    check(ctx.prog, ctx.interp, res)
    res.floor("functions", 900)
    res.floor("local_reads", 5000)
    res.assumptions += ["a for loop over a non-literal iterable may run zero times", "conditions are pure between their evaluation and the next rebinding of a name they mention"]
    return res


SELF = '''
import os
from os import path
def a(x):
    if x: y = 1
    return y
def b(x):
    if x: y = 1
    if x: return y
def c(x):
    for i, j in enumerate(x):
        if i == 0: z = j
        print(z)
def d(x):
    for i in x: z = i
    return z
def e(): return nothing_here
def f(): return os.no_such_thing
def g(): return path.join("a", os.sep)
def h(x):
    try: v = int(x)
    except ValueError: raise
    return v
def i(x):
    try: v = int(x)
    except ValueError: pass
    return v
def j(x):
    while True:
        q = x()
        if q: break
    return q
'''


def selftest():
    from ..absint import Interp
    p = Program.from_source(SELF)
    r = Result("x")
    check(p, Interp(p, {}), r)
    got = sorted(f.key.split("|")[0] for f in r.findings)
    if got != ["m.a", "m.d", "m.e", "m.f", "m.i"]:
        raise AnalysisBroken(f"C16 self-example not decided: {got}")
