"""Path-sensitive dataflow over the statements of one function.

A state is a set of disjuncts (facts, value): the facts are truth values of
branch conditions (and of flags set to constants, and of the collection a loop
runs over) whose names have not been rebound since; the value is whatever
finite thing the rule tracks.  Loops run to a fixed point, handlers are entered
from every point of their body, and over the cap the facts are dropped.
"""
import ast
import re

from .defassign import canon, stored
from .srcmodel import dotted, strip_doc

CAP = 96
CHANGES = {"append", "insert", "extend", "add", "update", "pop", "popitem", "remove", "discard", "clear", "setdefault", "appendleft"}
READS = {"len", "bool", "sorted", "list", "tuple", "set", "frozenset", "dict", "iter", "enumerate", "isinstance", "str", "repr", "any", "all", "sum", "max", "min", "zip", "reversed", "range", "id", "hash", "type"}
WRAP = {"sorted", "reversed", "enumerate", "list", "tuple", "iter", "bool", "len", "set"}


def core(e):
    """the collection an expression is empty together with"""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in WRAP and e.args:
        e = e.args[0]
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
        return core(e.value)
    return e


def plain(e):
    return isinstance(e, (ast.Name, ast.Attribute)) and dotted(e) is not None


def emptiness(t):
    """len(x) > 0, len(x) != 0, x != [], len(x): truth of x; -> (expr, polarity)"""
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
        return core(t.args[0]), True
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, o, r = t.left, t.ops[0], t.comparators[0]
        ln = isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args
        if ln and isinstance(r, ast.Constant):
            x = core(l.args[0])
            if r.value == 0 and isinstance(o, (ast.Gt, ast.NotEq)) or r.value == 1 and isinstance(o, ast.GtE):
                return x, True
            if r.value == 0 and isinstance(o, (ast.Eq, ast.LtE)) or r.value == 1 and isinstance(o, ast.Lt):
                return x, False
        if isinstance(r, (ast.List, ast.Tuple)) and not r.elts:
            if isinstance(o, ast.NotEq):
                return l, True
            if isinstance(o, ast.Eq):
                return l, False
    return None


class Walk:
    """subclass: call(node, val, facts) / store(target, stmt, val) -> values"""

    def __init__(self, fnode):
        self.fnode = fnode
        self.returns = []      # (state disjuncts, node)
        self.raises = []       # (state disjuncts, node)
        self.brk, self.cont, self.tries = [], [], []
        self.ns = {}
        self.steps = 0

    # -- hooks
    def call(self, n, val):
        return (val,)

    def store(self, t, s, val):
        return (val,)

    def never(self, call):
        return False

    def raised(self, node, st):
        self.raises.append((st, node))

    # -- driver
    def run(self, val, body=None):
        st = frozenset({(frozenset(), val)})
        out = self.block(strip_doc(self.fnode.body) if body is None else body, st)
        if out:
            self.returns.append((out, self.fnode))
        return self.returns

    def cap(self, st):
        if len(st) > CAP:
            st = frozenset((frozenset(), v) for _, v in st)
        return st

    def mapv(self, st, fn):
        out = set()
        for f, v in st:
            for w in fn(v):
                out.add((f, w))
        return frozenset(out)

    def forget(self, st, names):
        if not names:
            return st
        return frozenset((frozenset((k, b) for k, b in f if not self.ns.get(k, frozenset()) & names), v) for f, v in st)

    def fact(self, st, key, truth, names):
        self.ns[key] = frozenset(names)
        out = set()
        for f, v in st:
            d = dict(f)
            if key in d:
                if d[key] == truth:
                    out.add((f, v))
            else:
                out.add((f | {(key, truth)}, v))
        return frozenset(out)

    def assume(self, st, test, truth):
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    st = self.assume(st, v, truth)
                return st
            acc, cur = frozenset(), st
            for v in test.values:
                acc |= self.assume(cur, v, truth)
                cur = self.assume(cur, v, not truth)
            return acc
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(st, test.operand, not truth)
        if isinstance(test, ast.Constant):
            return st if bool(test.value) == truth else frozenset()
        if isinstance(test, ast.NamedExpr):
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "bool" and len(test.args) == 1 and not test.keywords and not isinstance(test.args[0], ast.Starred):
            return self.assume(st, test.args[0], truth)
        em = emptiness(test)
        if em is not None and plain(em[0]):
            return self.assume(st, em[0], truth == em[1])
        k, pol, ns = canon(test)
        if any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) and dotted(getattr(x, "func", x)) not in
               ("isinstance", "len", "issubclass", "callable", "type", "bool", "str", "int", "hasattr") for x in ast.walk(test)):
            return st
        return self.fact(st, k, pol == truth, ns)

    def cond(self, test, st):
        """(states where the test held, states where it did not): what was evaluated goes with the outcome"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            yes, no = self.cond(test.operand, st)
            return no, yes
        if isinstance(test, ast.BoolOp):
            go = isinstance(test.op, ast.And)
            cur, out = st, frozenset()
            for v in test.values:
                yes, no = self.cond(v, cur)
                cur, rest = (yes, no) if go else (no, yes)
                out |= rest
            return (cur, out) if go else (out, cur)
        st = self.expr(test, st)
        return self.assume(st, test, True), self.assume(st, test, False)

    # -- expressions: calls in evaluation order
    def expr(self, e, st):
        if e is None or not st:
            return st
        if isinstance(e, ast.BoolOp):
            go = isinstance(e.op, ast.And)
            cur = self.expr(e.values[0], st)
            done = frozenset()
            for prev, v in zip(e.values, e.values[1:]):
                done |= self.assume(cur, prev, not go)
                cur = self.expr(v, self.assume(cur, prev, go))
            return done | cur
        if isinstance(e, ast.IfExp):
            yes, no = self.cond(e.test, st)
            return self.expr(e.body, yes) | self.expr(e.orelse, no)
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            st = self.expr(e.generators[0].iter, st)
            parts = [x for g in e.generators for x in g.ifs] + [g.iter for g in e.generators[1:]]
            parts += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            cur = st
            c = core(e.generators[0].iter)
            if plain(c):
                cur = self.assume(cur, c, True)
            seen = cur
            for _ in range(8):
                nxt = seen
                for p in parts:
                    nxt = nxt | self.expr(p, nxt)
                if nxt == seen:
                    break
                seen = nxt
            return st | seen
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                st = self.expr(ch, st)
            elif isinstance(ch, ast.keyword):
                st = self.expr(ch.value, st)
        if isinstance(e, ast.Call):
            self.point(st)
            st = self.mapv(st, lambda v: self.call(e, v))
            st = self.changed(e, st)
            if self.never(e):
                self.do_raise(e, st)
                return frozenset()
        elif isinstance(e, ast.NamedExpr):
            st = self.mapv(st, lambda v: self.store(e.target, e, v))
            st = self.forget(st, {e.target.id})
        return st

    def changed(self, e, st):
        """what was known about a collection no longer holds once it is changed in place"""
        fn = e.func
        if isinstance(fn, ast.Attribute) and fn.attr in CHANGES and plain(fn.value):
            st = self.drop(st, ast.unparse(fn.value))
        for a in e.args:
            # a collection made here and handed to somebody who may fill it
            if isinstance(a, ast.Name) and a.id in self.made() and not (isinstance(fn, ast.Name) and fn.id in READS) \
                    and not (isinstance(fn, ast.Attribute) and fn.attr in ("join", "extend", "append", "search", "match", "debug", "info", "warning", "error", "critical")):
                st = self.drop(st, a.id)
        return st

    def drop(self, st, u):
        if not any(u in k for f, _v in st for k, _b in f):
            return st
        pat = re.compile(r"(?<![\w.])" + re.escape(u) + r"(?!\w)")
        return frozenset((frozenset((k, b) for k, b in f if not pat.search(k)), v) for f, v in st)

    def made(self):
        m = getattr(self, "_made", None)
        if m is None:
            m = self._made = {t.id for n in ast.walk(self.fnode) if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Dict, ast.Set))
                              or isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("list", "dict", "set")
                              for t in n.targets if isinstance(t, ast.Name)}
        return m

    def point(self, st):
        for t in self.tries:
            t.update(st)

    # -- statements
    def block(self, body, st):
        for s in body:
            if not st:
                break
            self.point(st)
            self.steps += 1
            st = self.cap(self.stmt(s, st))
            self.point(st)
        return st

    def target(self, t, s, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, s, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, s, st)
        for ch in ast.iter_child_nodes(t):
            if isinstance(ch, ast.expr):
                st = self.expr(ch, st)
        st = self.mapv(st, lambda v: self.store(t, s, v))
        if isinstance(t, ast.Name):
            return self.forget(st, {t.id})
        if isinstance(t, ast.Subscript) and plain(t.value):
            return self.drop(st, ast.unparse(t.value))
        if isinstance(t, ast.Attribute):
            u = ast.unparse(t)
            return frozenset((frozenset((k, b) for k, b in f if u not in k), v) for f, v in st)
        return st

    def do_raise(self, node, st):
        if st:
            self.raised(node, st)

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, s, st)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n, v = s.targets[0].id, s.value
                if isinstance(v, ast.Constant) and isinstance(v.value, (bool, type(None))):
                    if isinstance(v.value, bool):
                        st = self.fact(st, n, v.value, {n})
                    else:
                        st = self.fact(st, f"{n} is None", True, {n})
                elif isinstance(v, (ast.List, ast.Dict, ast.Set)):
                    st = self.fact(st, n, bool(getattr(v, "elts", None) or getattr(v, "keys", None)), {n})
                elif isinstance(v, (ast.Name, ast.BoolOp, ast.Compare, ast.UnaryOp, ast.Call)) and (not isinstance(v, ast.Call) or emptiness(v)):
                    # flag = condition: split on it
                    if n not in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}:
                        a = self.fact(self.assume(st, v, True), n, True, {n})
                        b = self.fact(self.assume(st, v, False), n, False, {n})
                        st = a | b
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            return self.target(s.target, s, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.target(s.target, s, self.expr(s.value, st))
        if isinstance(s, ast.Return):
            st = self.expr(s.value, st)
            if st:
                self.returns.append((st, s))
            return frozenset()
        if isinstance(s, ast.Raise):
            st = self.expr(s.exc, st)
            st = self.expr(s.cause, st)
            self.point(st)
            self.do_raise(s, st)
            return frozenset()
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st)
        if isinstance(s, ast.Assert):
            yes, no = self.cond(s.test, st)
            self.do_raise(s, no)
            return yes
        if isinstance(s, ast.Delete):
            for t in s.targets:
                st = self.target(t, s, st)
            return st
        if isinstance(s, ast.If):
            yes, no = self.cond(s.test, st)
            return self.block(s.body, yes) | self.block(s.orelse, no)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            w = set(stored(s.body)) | set(stored([s.target]))
            c = core(s.iter)

            def enter(x):
                if plain(c):
                    x = self.assume(x, c, True)
                return self.target(s.target, s, x)
            zero = self.assume(st, c, False) if plain(c) else st
            some = isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts
            return self.loop(s, st, enter, (lambda x: frozenset()) if False else (lambda x: x), frozenset() if some else zero, w)
        if isinstance(s, ast.While):
            w = set(stored(s.body))
            st = self.expr(s.test, st)
            const = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.loop(s, st, lambda x: self.cond(s.test, x)[0],
                             (lambda x: frozenset()) if const else (lambda x: self.assume(x, s.test, False)),
                             frozenset() if const else self.assume(st, s.test, False), w)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.target(it.optional_vars, s, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1] |= st
            return frozenset()
        if isinstance(s, ast.Continue):
            if self.cont:
                self.cont[-1] |= st
            return frozenset()
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out, total = frozenset(), False
            for cs in s.cases:
                x = self.forget(st, set(stored([cs.pattern])))
                if cs.guard is not None:
                    x = self.assume(self.expr(cs.guard, x), cs.guard, True)
                elif isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None:
                    total = True
                out |= self.block(cs.body, x)
            return out if total else out | st
        return st

    def loop(self, s, st, enter, leave, zero, w):
        seen = frozenset()
        todo = st
        out = frozenset()
        brk_all = frozenset()
        for _ in range(40):
            self.brk.append(frozenset())
            self.cont.append(frozenset())
            r = self.block(s.body, enter(self.forget(todo, set()) if todo is st else self.forget(todo, w)))
            r |= self.cont.pop()
            brk_all |= self.brk.pop()
            r = self.cap(r)
            out |= r
            new = self.forget(r, w)
            if new <= seen:
                break
            seen |= new
            todo = self.cap(seen)
        after = zero | leave(out)
        after = self.block(s.orelse, after) if s.orelse else after
        return self.cap(after | brk_all)

    def try_(self, s, st):
        acc = set()
        self.tries.append(acc)
        nr = len(self.raises)
        body = self.block(s.body, st)
        self.tries.pop()
        if s.handlers:
            broad = any(h.type is None or any((dotted(x) or "").split(".")[-1] in ("Exception", "BaseException") for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)) for h in s.handlers)
            caught = []
            for h in s.handlers:
                caught += [(dotted(x) or "").split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else []
            keep = []
            for r_st, node in self.raises[nr:]:
                nm = None
                if isinstance(node, ast.Raise) and node.exc is not None:
                    x = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
                    nm = (dotted(x) or "").split(".")[-1]
                elif isinstance(node, ast.Assert):
                    nm = "AssertionError"
                if not (broad or nm in caught):
                    keep.append((r_st, node))
            self.raises[nr:] = keep
        body = self.block(s.orelse, body)
        out = body
        for h in s.handlers:
            out |= self.block(h.body, frozenset(acc))
        if s.finalbody:
            out = self.block(s.finalbody, out)
        return out
