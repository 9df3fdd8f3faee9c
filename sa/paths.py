"""What of an object a method looks at: attribute paths from the receiver,
properties, own methods and the protocol functions (str, repr, int, len)
expanded down to stored attributes."""
import ast

from .srcmodel import dotted, strip_doc

PROTOCOL = {"str": "__str__", "repr": "__repr__", "int": "__int__", "len": "__len__", "hash": "__hash__", "bool": "__bool__", "list": "__iter__", "iter": "__iter__", "sorted": "__iter__", "tuple": "__iter__", "float": "__float__"}


def looks(prog, cname, f, recv=None, stack=()):
    """set of attribute paths (tuples) of the receiver f reads; None when it escapes"""
    if f is None or f.qual in stack or len(stack) > 8 or not f.params:
        return set()
    me = recv or f.params[0]
    out = set()
    body = strip_doc(f.node.body)
    heads = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute):
                heads.add(id(n.value))
            if isinstance(n, ast.JoinedStr):
                for v in n.values:
                    if isinstance(v, ast.FormattedValue) and isinstance(v.value, ast.Name) and v.value.id == me:
                        out |= looks(prog, cname, prog.find_method(cname, "__repr__" if v.conversion == 114 else "__str__"), None, stack + (f.qual,))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in PROTOCOL and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                g = prog.find_method(cname, PROTOCOL[n.func.id]) or (prog.find_method(cname, "__repr__") if n.func.id == "str" else None)
                out |= looks(prog, cname, g, None, stack + (f.qual,))
    for s in body:
        skip = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.Raise,)) or isinstance(n, ast.Call) and (dotted(n.func) or "").startswith("logger."):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) and t.id.startswith(("err", "msg")) for t in n.targets):
                skip |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(s):
            if not isinstance(n, ast.Attribute) or id(n) in heads or id(n) in skip:
                continue
            chain, x = [], n
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if not isinstance(x, ast.Name) or x.id != me:
                continue
            chain.reverse()
            first = chain[0]
            g = prog.find_prop(cname, first) or prog.find_method(cname, first)
            if g is not None:
                out |= looks(prog, cname, g, None, stack + (f.qual,))
            else:
                out.add(tuple(chain[:2]))
    return out


def covered(a, b):
    """paths of a that b does not look at (a shorter path of b covers longer ones)"""
    return {p for p in a if not any(p[:len(q)] == q for q in b)}
