"""Call-graph helpers on top of the interpreter's resolved call events."""
import ast

from .srcmodel import dotted


def edges(prog, interp):
    """outermost function qual -> set of callee quals (resolved calls, property reads, by-name candidates)"""
    out = {q: set() for q in interp.sum}
    for q, evs in interp.calls.items():
        for _, callee, _ in evs:
            out.setdefault(q, set()).add(callee)
    # bare references to package functions (callbacks)
    for f in prog.funcs.values():
        if f.outer is not None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                r = prog.resolve_name(f.module, n.id)
                if r and r[0] == "func" and r[1].qual != f.qual:
                    out.setdefault(f.qual, set()).add(r[1].qual)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0] and f.cls:
                g = prog.find_method(f.cls.name, n.attr)
                if g is not None:
                    out.setdefault(f.qual, set()).add(g.qual)
        for d in f.decorators:
            dn = dotted(d.func if isinstance(d, ast.Call) else d)
            if dn:
                r = prog.resolve_name(f.module, dn.split(".")[0]) if "." not in dn else None
                if r and r[0] == "func":
                    out.setdefault(f.qual, set()).add(r[1].qual)
    return out


def callers(e):
    out = {}
    for a, bs in e.items():
        for b in bs:
            out.setdefault(b, set()).add(a)
    return out


def entry_points(prog, e):
    """public functions/methods, plus anything no other function calls"""
    cs = callers(e)
    out = set()
    for q, f in prog.funcs.items():
        if f.outer is not None:
            continue
        public = not f.name.startswith("_") or (f.name.startswith("__") and f.name.endswith("__"))
        if public or not (cs.get(q, set()) - {q}):
            out.add(q)
    return out


def paths_to(e, target, stops):
    """entry -> path for every function that reaches target without passing through `stops`"""
    cs = callers(e)
    via = {target: None}
    work = [target]
    while work:
        x = work.pop(0)
        if x in stops:
            continue
        for c in sorted(cs.get(x, ())):
            if c not in via:
                via[c] = x
                work.append(c)
    return via


def chain(via, q):
    out = [q]
    while via.get(q) is not None:
        q = via[q]
        out.append(q)
    return out


def outer_funcs(prog):
    return [f for f in prog.funcs.values() if f.outer is None]
