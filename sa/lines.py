"""Which expressions list the text of every configuration line, in order.

kind(expr) -> ("all",) | ("part", why) | ("order", why) | ("changed", why) | None (not recognised)
"""
import ast

from .edits import Lists
from .srcmodel import dotted

TEXT = ("text", "_text")
NEUTRAL_CALLS = ("list", "tuple", "iter")


class TextLines:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.L = Lists(prog, f)
        self.vals = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.vals.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name):
                self.vals.setdefault(n.target.id, []).append(n.value)

    def source(self, e, depth=0):
        """kind of an iterable of line objects: like kind(), for objects"""
        if depth > 6:
            return None
        if self.L.kind(e):
            return ("all",)
        if isinstance(e, ast.Name) and len(self.vals.get(e.id, [])) == 1:
            return self.source(self.vals[e.id][0], depth + 1)
        return self.through(e, self.source, depth)

    def through(self, e, rec, depth):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.args:
            n = e.func.id
            if n in NEUTRAL_CALLS or n == "enumerate":
                return rec(e.args[0], depth + 1)
            if n in ("sorted", "reversed", "set", "frozenset"):
                k = rec(e.args[0], depth + 1)
                return None if k is None else ("order", f"{n}()")
            if n == "filter":
                k = rec(e.args[-1], depth + 1)
                if k is None:
                    return None
                return k if isinstance(e.args[0], ast.Lambda) and isinstance(e.args[0].body, ast.Constant) and e.args[0].body.value else ("part", "filter()")
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
            return rec(e.func.value, depth + 1)
        if isinstance(e, ast.Call) and dotted(e.func) == "copy.copy" and e.args:
            return rec(e.args[0], depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            k = rec(e.value, depth + 1)
            if k is None:
                return None
            s = e.slice
            step = s.step
            if isinstance(step, ast.UnaryOp) and isinstance(step.op, ast.USub):
                return ("order", "a reversed slice")
            lo = s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value in (0, None)
            if lo and s.upper is None and (step is None or isinstance(step, ast.Constant) and step.value in (1, None)):
                return k
            return ("part", f"only [{ast.unparse(s)}]")
        if isinstance(e, ast.List) and len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return rec(e.elts[0].value, depth + 1)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1 and isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
            k = rec(e.generators[0].iter, depth + 1)
            return None if k is None else ("part", f"only lines with {' and '.join(ast.unparse(i) for i in e.generators[0].ifs)}") if e.generators[0].ifs else k
        return None

    def elem(self, e, var):
        """text taken from the line object `var`"""
        if isinstance(e, ast.Attribute) and e.attr in TEXT and isinstance(e.value, ast.Name) and e.value.id == var:
            return ("all",)
        if isinstance(e, ast.JoinedStr) and len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and e.values[0].format_spec is None:
            return self.elem(e.values[0].value, var)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
            return self.elem(e.args[0], var)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "rstrip" and not e.args and self.elem(e.func.value, var) == ("all",):
            return ("all",)      # a line's text never ends in white space
        if any(isinstance(x, ast.Attribute) and x.attr in TEXT and isinstance(x.value, ast.Name) and x.value.id == var for x in ast.walk(e)):
            return ("changed", ast.unparse(e)[:60])
        return None

    def target(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name):
            return t.elts[1].id
        return None

    def kind(self, e, depth=0):
        if depth > 8 or e is None:
            return None
        if isinstance(e, ast.Attribute) and e.attr == "ioscfg" and (self.L.owner(e.value) or self.L.kind(e.value) == "obj"):
            return ("all",)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            v = self.target(g.target)
            k = self.source(g.iter)
            if k is not None and v is not None:
                x = self.elem(e.elt, v)
                if x is None:
                    return None
                if g.ifs:
                    return ("part", f"only lines with {' and '.join(ast.unparse(i) for i in g.ifs)}")
                return k if k != ("all",) else x
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "map" and len(e.args) == 2 and isinstance(e.args[0], ast.Lambda) and e.args[0].args.args:
            k = self.source(e.args[1])
            if k is not None:
                x = self.elem(e.args[0].body, e.args[0].args.args[0].arg)
                return None if x is None else k if k != ("all",) else x
        if isinstance(e, ast.Call) and dotted(e.func) in ("map",) and len(e.args) == 2 and isinstance(e.args[0], ast.Call) and (dotted(e.args[0].func) or "").split(".")[-1] == "attrgetter":
            k = self.source(e.args[1])
            a = e.args[0].args
            if k is not None and len(a) == 1 and isinstance(a[0], ast.Constant) and a[0].value in TEXT:
                return k
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and not e.args:
            # a helper method of the same object that returns the lines
            from .edits import self_call
            g = self_call(self.prog, self.f, e)
            if g is not None:
                return self.returned(g, depth)
        if isinstance(e, ast.Name):
            vs = self.vals.get(e.id, [])
            if len(vs) == 1:
                v = vs[0]
                empty = isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args
                if empty:
                    return self.filled(e.id)
                return self.kind(v, depth + 1)
            return None
        return self.through(e, self.kind, depth)

    def returned(self, g, depth=0):
        T = TextLines(self.prog, g)
        ks = [T.kind(n.value, depth + 1) for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        ys = [n for n in ast.walk(g.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if ys or not ks or any(k is None for k in ks):
            return None
        bad = [k for k in ks if k != ("all",)]
        return bad[0] if bad else ("all",)

    def filled(self, name):
        """a list filled by append/extend: once per line, unconditionally"""
        uses = []
        for n in ast.walk(self.f.node):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call) and isinstance(ch.value.func, ast.Attribute) and isinstance(ch.value.func.value, ast.Name) and ch.value.func.value.id == name:
                    uses.append((n, ch.value))
        if len(uses) != 1:
            return None
        p, c = uses[0]
        if c.func.attr == "extend" and not isinstance(p, (ast.For, ast.If, ast.While)):
            return self.kind(c.args[0])
        if c.func.attr != "append":
            return None
        cond = None
        loop = p
        if isinstance(p, ast.If):
            cond = ast.unparse(p.test)
            loop = next((l for l in ast.walk(self.f.node) if isinstance(l, ast.For) and p in l.body), None)
        if not isinstance(loop, ast.For):
            return None
        k = self.source(loop.iter)
        v = self.target(loop.target)
        if k is None or v is None:
            return None
        x = self.elem(c.args[0], v)
        if x is None:
            return None
        if cond is not None:
            return ("part", f"only lines with {cond}")
        if any(isinstance(s, (ast.Break, ast.Return, ast.Continue)) for b in loop.body for s in ast.walk(b)):
            return ("part", "the loop over the lines skips some")
        return k if k != ("all",) else x
