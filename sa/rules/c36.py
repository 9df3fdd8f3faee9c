"""C36: the line list and the integer range behave as Python sequences.

For every class that declares itself a sequence over a list it holds, each sequence
operation it defines is evaluated (decision tables, sa/fin.py) next to the same
operation on the held list, over an arbitrary list, index and element: results,
raised IndexError and changed positions must be the same on every row.
"""
import ast

from .. import fin
from ..fin import c, t, TRUE, FALSE, NONE, is_c
from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc

L, M, I, X, S, J = ("var", "elements"), ("var", "elements of other"), ("var", "i"), ("var", "x"), ("var", "slice"), ("var", "j")
RAWOPS = {"append", "insert", "pop", "remove", "clear", "reverse", "extend", "sort"}
SEQ = ("MutableSequence", "Sequence", "UserList")
LEN = t("len", L)


def seq_classes(prog):
    for n, k in sorted(prog.classes.items()):
        if any(str(b).split(".")[-1] in SEQ for x in k.mro for b in x.external_bases):
            yield n


def held(prog, n):
    """the attribute that holds the elements: the one __len__ measures"""
    g = prog.find_method(n, "__len__")
    if g is None:
        return None
    for x in ast.walk(g.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == g.params[0]:
            return x.attr
    return None


def mutates(prog, g, attr, seen=()):
    """the function (or a method it calls on itself) changes the held list in place"""
    if g.qual in seen:
        return False
    memo = prog.__dict__.setdefault("_c36_mut", {})
    if (g.qual, attr) in memo:
        return memo[g.qual, attr]
    r = False
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr in RAWOPS and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == attr:
                r = True
            elif isinstance(x.func.value, ast.Name) and g.params and x.func.value.id == g.params[0] and g.cls is not None:
                h = prog.find_method(g.cls.name, x.func.attr)
                if h is not None and mutates(prog, h, attr, seen + (g.qual,)):
                    r = True
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, (ast.Attribute, ast.Name)):
            if isinstance(x.value, ast.Attribute) and x.value.attr == attr or isinstance(x.value, ast.Name) and g.params and x.value.id == g.params[0]:
                r = True
    memo[g.qual, attr] = r
    return r


class Cfg:
    def __init__(self, prog, attr):
        self.prog, self.attr = prog, attr

    def get(self, entry):
        def attrh(ev, v, name):
            if name == self.attr and v[0] == "ref":
                nm = ev.heap[v[1]]["name"]
                return {"a": L, "b": M}.get(nm)
            return None

        def rng(x):
            return (0, None) if x[:2] == ("t", "len") else (None, None)

        def where(ev, b, i):
            n = t("len", b)
            if not (ev.sign(fin.mul(n, -1), i, "<=") and ev.sign(i, n, "<")):
                raise fin.Raised("IndexError")
            return fin.add(i, n) if ev.sign(i, c(0), "<") else i

        def sub(ev, b, i):
            if b in (L, M):
                if i == S:
                    return t("slice", b, S)
                if ev.isint(i):
                    return t("item", b, where(ev, b, i))
            return None

        def meth(ev, b, name, args, kw):
            if b not in (L, M):
                return None
            if kw:
                raise fin.Opaque("keyword arguments of a list operation")
            if name in ("count", "index"):
                return t("lop", name, b, tuple(ev.freeze(a) for a in args))
            if name == "copy":
                return t("list", b)
            if name in RAWOPS:
                a = tuple(ev.freeze(x) for x in args)
                if name == "pop":
                    a = (where(ev, b, args[0] if args else c(-1)),)
                ev.__dict__.setdefault("eff", []).append((name, b) + a)
                return t("item", b, a[0]) if name == "pop" else NONE
            if name.startswith("__") and len(args) == 1:
                op = {"__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__eq__": ast.Eq, "__ne__": ast.NotEq, "__contains__": None}.get(name, 0)
                if op is None:
                    return c(ev.contains(args[0], b))
                if op:
                    return c(ev.cmp(b, op(), args[0]))
                if name == "__getitem__":
                    return sub(ev, b, args[0])
            return None

        def setitem(ev, b, i, v):
            if b in (L, M):
                if i == S:
                    ev.__dict__.setdefault("eff", []).append(("setslice", b, S, ev.freeze(v)))
                    return True
                ev.__dict__.setdefault("eff", []).append(("setitem", b, where(ev, b, i), ev.freeze(v)))
                return True
            return False

        def delitem(ev, b, i):
            if b in (L, M):
                if i == S:
                    ev.__dict__.setdefault("eff", []).append(("delslice", b, S))
                    return True
                ev.__dict__.setdefault("eff", []).append(("delitem", b, where(ev, b, i)))
                return True
            return False

        def truth(ev, v):
            if v in (L, M) or v[:2] in (("t", "list"), ("t", "tuple")) and v[2] in (L, M):
                return not ev.sign(t("len", v if v in (L, M) else v[2]), c(0), "==")
            return None

        def ext(ev, name, args, kw):
            if len(args) == 1 and not kw:
                a = args[0]
                if a[0] == "ref" and ev.heap[a[1]]["kind"] == "obj" and ev.heap[a[1]]["name"] in ("a", "b") and name in ("len", "iter", "list", "tuple", "bool", "reversed"):
                    raise fin.Opaque("the sequence asked for itself")
                if a[:2] in (("t", "list"), ("t", "tuple"), ("t", "iter")) and len(a) == 3 and a[2] in (L, M) and name in ("len", "iter", "list", "tuple", "reversed", "sorted", "set"):
                    return t(name, a[2])
                if a in (L, M) and name == "iter":
                    return t("iter", a)
            return None

        def contains(ev, x, cont):
            b = cont[2] if cont[:2] in (("t", "list"), ("t", "tuple"), ("t", "iter")) else cont
            if b in (L, M):
                return ev.fact(("in", ev.freeze(x), b), f"{fin.show(x)} in the list")
            return None

        def func(ev, g, args, kw):
            if g.qual != entry and g.cls is not None and not g.name.startswith("__") and not g.kind == "property" and not mutates(self.prog, g, self.attr) and self.effectful(g):
                ps = g.params[1:] if g.kind in ("method", "classmethod") else g.params
                args = list(args) + [kw[p] for p in ps if p in kw]
                return t("h", g.qual, tuple(ev.freeze(a) for a in args if not (a[0] == "ref" and ev.heap[a[1]].get("name"))))
            if g.qual != entry and g.kind == "property":
                return t("h", g.qual)
            return None

        def isin(ev, v, ty):
            nm = ty[1].split(".")[-1] if ty[0] == "ext" else ty[1].name if ty[0] == "cls" else None
            if v == S:
                return nm in ("slice", "object")
            if v in (L, M):
                return nm in ("list", "object", "Sequence", "MutableSequence", "Iterable", "Collection", "Sized")
            return None
        return {"attr": attrh, "range": rng, "subscript": sub, "method": meth, "setitem": setitem, "delitem": delitem, "truth": truth, "ext": ext, "contains": contains, "func": func,
                "isinstance": isin, "isint": lambda v: v in (I, J), "soft": False}

    def effectful(self, g):
        """helpers that store something or are long stay uninterpreted; small readers are evaluated"""
        return any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Raise) for x in ast.walk(g.node)) or len(strip_doc(g.node.body)) > 8


TRANSPARENT = {"item", "slice", "len", "list", "tuple", "iter", "reversed", "sorted", "set", "lop", "sub", "bin"}


def clear(v):
    """the value is built of the held list, the arguments and known operations only"""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] == "t":
        if v[1] == "call" and v[2] in TRANSPARENT:
            return all(clear(x) for x in v[3:])
        if v[1] not in TRANSPARENT:
            return False
        return all(clear(x) for x in v[2:])
    if v[0] in ("c", "var"):
        return True
    if v[0] == "lin":
        return all(clear(x) for x, _ in v[2])
    return all(clear(x) for x in v if isinstance(x, tuple))


def peel(v, kinds=("list", "tuple")):
    while isinstance(v, tuple) and v[:2] in [("t", k) for k in kinds] and len(v) == 3:
        v = v[2]
    return v


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(y, x) for y in v)


def gen_source(g):
    """what a generator method yields the elements of: (expr, filtered) or None"""
    body = [b for b in strip_doc(g.node.body) if not isinstance(b, ast.Pass)]
    ys = [x for b in body for x in ast.walk(b) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if len(ys) != 1 or len(body) != 1:
        return None
    b = body[0]
    if isinstance(b, ast.Expr) and isinstance(b.value, ast.YieldFrom):
        return b.value.value, False
    if isinstance(b, ast.For) and isinstance(b.target, ast.Name):
        inner, filt = b.body, False
        while len(inner) == 1 and isinstance(inner[0], ast.If) and not inner[0].orelse:
            inner, filt = inner[0].body, True
        if len(inner) == 1 and isinstance(inner[0], ast.Expr) and isinstance(inner[0].value, ast.Yield) and isinstance(inner[0].value.value, ast.Name) and inner[0].value.value.id == b.target.id:
            return b.iter, filt
    return None


def judge(prog, res):
    for n in seq_classes(prog):
        attr = held(prog, n)
        if attr is None:
            res.undec(f"{n}: no attribute holding the elements found")
            continue
        res.count("sequence classes")
        C = Cfg(prog, attr)

        def table(g, args, cap=400):
            """rows of g(self, *args): (ev, outcome, effects)"""
            out = []

            def body(ev):
                a = ev.symbol(n, "a")
                b = ev.symbol(n, "b")
                vals = [b if x == "other" else x for x in args]
                ev.stash = (a, b)
                return ev.call_inner(g, [a] + vals, {})
            try:
                for ev, o in fin.rows(prog, body, C.get(g.qual), cap=cap):
                    # the row's facts are still open: the same operation on the held list refines them
                    out.append((ev, (o[0], ev.freeze(o[1]) if o[0] == "ret" else o[1]), list(ev.__dict__.get("eff", []))))
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {e}")
                return None
            return out

        def pairs(g, args, spec, what, norm=lambda ev, v: v, cap=400):
            """compare the method with spec(ev) on every row of both"""
            def body(ev):
                a = ev.symbol(n, "a")
                b = ev.symbol(n, "b")
                vals = [b if x == "other" else x for x in args]
                r1 = fin.outcome(ev, lambda: norm(ev, ev.call_inner(g, [a] + vals, {})))
                e1 = list(ev.__dict__.get("eff", []))
                ev.__dict__["eff"] = []
                r2 = fin.outcome(ev, lambda: norm(ev, spec(ev)))
                e2 = list(ev.__dict__.get("eff", []))
                ev.stash = (r1, e1, r2, e2)
                return NONE
            got = []
            try:
                for ev, o in fin.rows(prog, body, C.get(g.qual), cap=cap):
                    if fin.feasible(ev):
                        got.append((ev,) + ev.stash)
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {e}")
                return
            res.count("operations")
            for ev, r1, e1, r2, e2 in got:
                res.count("rows")
                if r1[0] != r2[0]:
                    if r1[0] == "raise" and r1[1] not in ("IndexError", "KeyError", "TypeError", "ValueError"):
                        res.undec(f"{g.qual} raises {r1[1]}")
                        continue
                    res.add(f"{g.qual}|{what}", f"{g.qual}: {what} {'raises ' + r1[1] if r1[0] == 'raise' else 'gives ' + fin.show(r1[1])} where the list {'raises ' + r2[1] if r2[0] == 'raise' else 'gives ' + fin.show(r2[1])}", g.loc(), ev.facts.show())
                elif r1[0] == "ret":
                    a, b = fin.canon(ev, r1[1]), fin.canon(ev, r2[1])
                    if a != b:
                        if not clear(a):
                            res.undec(f"{g.qual}: {fin.show(a)[:100]}")
                        else:
                            res.add(f"{g.qual}|{what}", f"{g.qual}: {what} is {fin.show(a)} where the list gives {fin.show(b)}", g.loc(), ev.facts.show())
                if r1[0] == r2[0] == "ret" and e2:
                    ops1 = [e[:1] for e in e1]
                    if not e1:
                        res.add(f"{g.qual}|{what} changes nothing", f"{g.qual}: {what} does not change the list", g.loc(), ev.facts.show())
                    elif ops1 != [e[:1] for e in e2]:
                        res.undec(f"{g.qual}: changes the list by {[e[0] for e in e1]}")
                    else:
                        for x, y in zip(e1, e2):
                            for p, q in zip(x[2:], y[2:]):
                                p, q = fin.canon(ev, p), fin.canon(ev, q)
                                if p == q or mentions(q, X) and mentions(p, X):
                                    continue
                                if clear(p):
                                    res.add(f"{g.qual}|{what} position", f"{g.qual}: {what} changes {fin.show(p)} where the list changes {fin.show(q)}", g.loc(), ev.facts.show())
                                else:
                                    res.undec(f"{g.qual}: {fin.show(p)[:100]}")

        def own(name):
            """the class's own definition (the mixins are defined through the others)"""
            for k in prog.classes[n].mro:
                if name in k.methods:
                    return k.methods[name]
            return None

        def truthy(ev, v):
            return c(ev.truth(v))

        # length, truth
        g = own("__len__")
        if g:
            pairs(g, [], lambda ev: LEN, "length")
        g = own("__bool__")
        if g:
            pairs(g, [], lambda ev: c(ev.truth(L)), "truth", truthy)
        # iteration
        for nm, want in (("__iter__", ("iter",)), ("__reversed__", ("reversed",))):
            g = own(nm)
            if g is None:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(g.node)):
                src = gen_source(g)
                if src is None:
                    res.undec(f"{g.qual}: generator")
                    continue
                if src[1]:
                    res.count("operations")
                    res.add(f"{g.qual}|filtered", f"{g.qual}: iteration leaves elements out", g.loc(), [ast.unparse(src[0])])
                    continue
                expr = src[0]
                rows = []

                def body(ev):
                    return ev.expr(expr, {g.params[0]: ev.symbol(n, "a")}, g, g.module)
                try:
                    rows = [(ev, (o[0], ev.freeze(o[1]) if o[0] == "ret" else o[1])) for ev, o in fin.rows(prog, body, C.get(g.qual))]
                except fin.Opaque as e:
                    res.undec(f"{g.qual}: {e}")
            else:
                rows = [(ev, o) for ev, o, _ in (table(g, []) or [])]
            for ev, o in rows:
                res.count("rows")
                if o[0] == "raise":
                    res.add(f"{g.qual}|raises", f"{g.qual}: iteration raises {o[1]}", g.loc(), ev.facts.show())
                    continue
                v = fin.canon(ev, o[1])
                k = peel(v, ("iter", "list", "tuple"))
                good = k == L if nm == "__iter__" else k == t("reversed", L) or peel(k[2] if k[:2] == ("t", "reversed") else k) == L and k[:2] == ("t", "reversed")
                if not good:
                    if clear(v):
                        res.add(f"{g.qual}|elements", f"{g.qual}: iteration goes over {fin.show(v)}", g.loc(), ev.facts.show())
                    else:
                        res.undec(f"{g.qual}: {fin.show(v)[:100]}")
            if rows:
                res.count("operations")
        # membership, counting, position
        g = own("__contains__")
        if g:
            pairs(g, [X], lambda ev: c(ev.contains(X, L)), "membership", truthy)
        g = own("count")
        if g:
            pairs(g, [X], lambda ev: t("lop", "count", L, (X,)), "count()")
        g = own("index")
        if g:
            pairs(g, [X], lambda ev: t("lop", "index", L, (X,)), "index()")
            if g.vararg or len(g.params) >= 4:
                pairs(g, [X, I, J], lambda ev: t("lop", "index", L, (X, I, J)), "index() in a part")
        # indexing
        g = own("__getitem__")
        if g:
            pairs(g, [I], lambda ev: ev.subscript(L, I, None), "indexing")
            pairs(g, [S], lambda ev: t("slice", L, S), "slicing", lambda ev, v: peel(ev.freeze(v)))
        g = own("__setitem__")
        if g:
            pairs(g, [I, X], lambda ev: ev.cfg["setitem"](ev, L, I, X) and NONE, "assigning an item", lambda ev, v: NONE)
        g = own("__delitem__")
        if g:
            pairs(g, [I], lambda ev: ev.cfg["delitem"](ev, L, I) and NONE, "deleting an item", lambda ev, v: NONE)
        # changes: only where the class passes them on to the list under the same contract
        k = prog.classes[n]
        if any("count" in x.methods or "index" in x.methods for x in k.mro):
            def op(name, *args):
                def spec(ev):
                    return ev.method(L, name, list(args), {}, None)
                return spec
            for nm, args, sp in (("append", [X], op("append", X)), ("insert", [I, X], op("insert", I, X)), ("remove", [X], op("remove", X)), ("clear", [], op("clear")), ("reverse", [], op("reverse"))):
                g = own(nm)
                if g and len(g.params) - 1 >= len(args):
                    pairs(g, args, sp, nm + "()", lambda ev, v: NONE)
            g = own("pop")
            if g:
                pairs(g, [], op("pop"), "pop()")
                pairs(g, [I], op("pop", I), "pop(i)")
        # comparison
        for nm, opn in (("__eq__", ast.Eq), ("__ne__", ast.NotEq), ("__lt__", ast.Lt), ("__le__", ast.LtE), ("__gt__", ast.Gt), ("__ge__", ast.GtE)):
            g = own(nm)
            if g:
                pairs(g, ["other"], lambda ev, opn=opn: c(ev.cmp(L, opn(), M)), {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[nm], truthy)


DEBUG = False
INDEXES = (0, 1, 2, 3, -1, -2, -3, -4)
SLICES = [(None, None, None), (1, None, None), (None, -1, None), (0, 3, 2), (None, None, -1), (None, None, 2), (-2, None, None), (2, 0, -1), (5, 9, None)]


def instances(prog, res):
    """the same operations on lists of given lengths, whose elements stay opaque"""
    for n in seq_classes(prog):
        attr = held(prog, n)
        if attr is None:
            continue
        k = prog.classes[n]
        lines = any("count" in x.methods for x in k.mro)
        for size in (0, 1, 3):
            elems = [("var", f"e{i}") for i in range(size)] if lines else [c(v) for v in (1, 2, 5)[:size]]
            other = [("var", "f0"), ("var", "f1")]

            def cfg():
                def sub(ev, b, i):
                    if is_c(i) and isinstance(i[1], slice) and b[0] == "ref" and ev.heap[b[1]]["kind"] in ("list", "tuple"):
                        return ev.new("list", list(ev.heap[b[1]]["items"][i[1]]))
                    return None

                def isin(ev, v, ty):
                    nm = ty[1].split(".")[-1] if ty[0] == "ext" else ty[1].name if ty[0] == "cls" else None
                    if is_c(v) and isinstance(v[1], slice):
                        return nm in ("slice", "object")
                    if v[0] == "var" and nm in ("BaseCfgLine", "object"):
                        return True
                    if v[0] == "var" and nm in ("str", "int", "slice", "list", "tuple"):
                        return False
                    return None

                def ext(ev, name, args, kw):
                    if name in ("iter", "reversed") and len(args) == 1 and not kw and args[0][0] == "ref" and ev.heap[args[0][1]]["kind"] in ("list", "tuple"):
                        xs = list(ev.heap[args[0][1]]["items"])
                        return ev.new("list", xs if name == "iter" else xs[::-1])
                    return None
                return {"subscript": sub, "isinstance": isin, "ext": ext}

            def each(name, args, want, what, kind="value"):
                g = next((x.methods[name] for x in k.mro if name in x.methods), None)
                if g is None or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(g.node)):
                    return

                def body(ev):
                    l = ev.new("list", list(elems))
                    a = ev.symbol(n, "a", {attr: l})
                    vals = [ev.new("list", list(other)) if v == "other" else v for v in args]

                    def plain(v):
                        if kind == "truth":
                            return ev.truth(v)
                        if kind == "items":
                            if v[0] == "ref" and ev.heap[v[1]]["kind"] == "obj":
                                v = ev.heap[v[1]]["fields"].get(attr, v)
                            xs = ev.items(v)
                            if xs is None:
                                raise fin.Opaque("not a list")
                            return [ev.freeze(x) for x in xs]
                        return ev.freeze(v)
                    try:
                        r1 = ("ret", plain(ev.call_inner(g, [a] + vals, {})))
                    except fin.Raised as e:
                        r1 = ("raise", e.name)
                    w = want(ev)
                    ev.stash = (r1, w)
                    return NONE
                try:
                    rows = list(fin.rows(prog, body, cfg(), cap=400))
                except fin.Opaque as e:
                    if DEBUG:
                        print(g.qual, what, size, e)
                    return          # the general table has the say
                for ev, o in rows:
                    if not fin.feasible(ev) or o[0] == "raise":
                        continue
                    r1, w = ev.stash
                    if r1[0] == "raise" and r1[1] not in ("IndexError", "ValueError"):
                        continue
                    res.count("instance rows")
                    got = ("raise", r1[1]) if r1[0] == "raise" else ("ret", r1[1])
                    if got == w or got[0] == w[0] == "raise":
                        continue
                    if kind == "value" and got[0] == "ret" and not (is_c(got[1]) or got[1] in elems):
                        continue
                    res.add(f"{g.qual}|{what}", f"{g.qual}: {what} of a list of {size} elements {'raises ' + got[1] if got[0] == 'raise' else 'is ' + str(got[1])[:80]} where the list {'raises ' + w[1] if w[0] == 'raise' else 'gives ' + str(w[1])[:80]}", g.loc(), ev.facts.show())

            def py(f):
                try:
                    return ("ret", f())
                except (IndexError, ValueError) as e:
                    return ("raise", type(e).__name__)
            each("__len__", [], lambda ev: ("ret", c(size)), "length")
            each("__bool__", [], lambda ev: ("ret", size > 0), "truth", "truth")
            each("__iter__", [], lambda ev: ("ret", list(elems)), "iteration", "items")
            each("__reversed__", [], lambda ev: ("ret", elems[::-1]), "reversed iteration", "items")
            each("__copy__", [], lambda ev: ("ret", list(elems)), "copy", "items")
            each("copy", [], lambda ev: ("ret", list(elems)), "copy", "items")
            for i in INDEXES:
                each("__getitem__", [c(i)], lambda ev: py(lambda: elems[i]), f"index {i}")
            for s in SLICES:
                each("__getitem__", [c(slice(*s))], lambda ev: ("ret", elems[slice(*s)]), f"slice {s}", "items")
            if lines:
                for x in (("var", "x"),) + (tuple(elems[1:2])):
                    each("count", [x], lambda ev: ("ret", c(sum(1 for y in elems if ev.eq(y, x)))), "count()")
                    each("index", [x], lambda ev: next((("ret", c(i)) for i, y in enumerate(elems) if ev.eq(y, x)), ("raise", "ValueError")), "index()")
                    each("__contains__", [x], lambda ev: ("ret", any(ev.eq(y, x) for y in elems)), "membership", "truth")
                each("__add__", ["other"], lambda ev: ("ret", elems + other), "list + other", "items")
                each("__radd__", ["other"], lambda ev: ("ret", other + elems), "other + list", "items")
                for m in (0, 1, 2):
                    each("__mul__", [c(m)], lambda ev: ("ret", elems * m), f"list * {m}", "items")
                    each("__rmul__", [c(m)], lambda ev: ("ret", elems * m), f"{m} * list", "items")


GOOD = """
from collections.abc import MutableSequence
class A(MutableSequence):
    def __init__(self, x):
        self._xs = x
    def __len__(self):
        n = len(self._xs)
        return n
    def __iter__(self):
        for v in self._xs:
            yield v
    def __getitem__(self, i):
        top = len(self._xs) - 1
        if not isinstance(i, slice) and i > top:
            raise IndexError("x")
        return self._xs[i]
    def __setitem__(self, i, v):
        self._xs[i] = self.make(v)
        self.renumber()
    def __delitem__(self, i):
        del self._xs[i]
    def insert(self, i, v):
        self._xs.insert(i, v)
    def pop(self, ii=-1):
        r = self._xs.pop(ii)
        self.renumber()
        return r
    def make(self, v):
        if v is None:
            raise ValueError()
        return v
    def renumber(self):
        for i, o in enumerate(self._xs):
            o.n = i
    def index(self, v, *args):
        return self._xs.index(v, *args)
    def __eq__(self, o):
        return self._xs == self._other(o)
    def _other(self, o):
        return o._xs if isinstance(o, A) else o
    def __contains__(self, v):
        return v in self._xs
    def __bool__(self):
        return len(self._xs) > 0
"""
BAD = """
from collections.abc import MutableSequence
class A(MutableSequence):
    def __init__(self, x):
        self._xs = x
    def __len__(self):
        return len(self._xs)
    def __iter__(self):
        return iter(self._xs[1:])
    def __getitem__(self, i):
        if i < 0:
            raise IndexError("x")
        return self._xs[i]
    def __setitem__(self, i, v):
        self._xs[i - 1] = v
    def __delitem__(self, i):
        pass
    def insert(self, i, v):
        self._xs.insert(i + 1, v)
    def pop(self, ii=-1):
        return self._xs.pop()
    def index(self, v, *args):
        return self._xs.index(v)
    def __eq__(self, o):
        return self._xs == o._xs or len(self._xs) == 0
    def __bool__(self):
        return len(self._xs) > 1
"""


def selftest():
    r = Result("x")
    judge(Program.from_source(GOOD), r)
    if r.findings or r.undecided:
        raise AnalysisBroken(f"C36 self-test: {[(f.key, f.msg) for f in r.findings]} {r.undecided}")
    r = Result("x")
    judge(Program.from_source(BAD), r)
    keys = {f.key for f in r.findings}
    for need in ("__iter__", "__getitem__|indexing", "__setitem__", "__delitem__", "insert", "pop|pop(i)", "index", "__eq__", "__bool__"):
        if not any(need in k for k in keys):
            raise AnalysisBroken(f"C36 self-test misses {need}: {sorted(keys)} {r.undecided}")


def run(ctx):
    prog = ctx.prog
    res = Result("Each sequence operation of ConfigList and CiscoRange is evaluated beside the same operation on the list it holds, over an arbitrary list, index, slice and element; results, IndexError and changed positions agree on every row.")
    judge(prog, res)
    instances(prog, res)
    res.floor("sequence classes", 1)
    res.floor("operations", 8)
    res.assumptions += ["an operation not defined by the class is the collections.abc mixin, which is defined through the others",
                        "CiscoRange.append/insert/remove keep the members unique and sorted and are not list operations"]
    return res
