"""Definite assignment by property simulation.

A state is a set of disjuncts (facts, assigned): facts are truth values of
branch conditions whose names have not been rebound since, so a read guarded by
the same condition as the write is recognised.  Disjuncts with equal facts are
merged; over the cap, facts are dropped (sound: fewer facts, fewer proofs).
"""
import ast

from .srcmodel import dotted

CAP = 512


def canon(test):
    """condition -> (key, polarity, names) or None"""
    pol = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        pol = not pol
        test = test.operand
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, o, r = test.left, test.ops[0], test.comparators[0]
        if isinstance(o, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
            # a boolean flag: x is True / x is False / x
            p = pol if r.value else not pol
            if isinstance(o, (ast.IsNot, ast.NotEq)):
                p = not p
            return canon2(l, p)
        if isinstance(o, (ast.IsNot, ast.NotEq, ast.NotIn)):
            n = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(o)]
            t = ast.Compare(left=l, ops=[n()], comparators=[r])
            return (ast.unparse(t), not pol, names(test))
        if isinstance(o, (ast.GtE, ast.LtE)):
            n = ast.Lt if isinstance(o, ast.GtE) else ast.Gt
            return (ast.unparse(ast.Compare(left=l, ops=[n()], comparators=[r])), not pol, names(test))
    return canon2(test, pol)


def canon2(test, pol):
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        pol = not pol
        test = test.operand
    return (ast.unparse(test), pol, names(test))


def names(t):
    return frozenset(n.id for n in ast.walk(t) if isinstance(n, ast.Name))


def stored(nodes):
    out = set()
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.alias):
                out.add((n.asname or n.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
    return out


class State:
    """list of (facts: frozenset[(key, bool)], assigned: frozenset)"""
    __slots__ = ("ds",)

    def __init__(self, ds=()):
        self.ds = list(ds)

    @property
    def dead(self):
        return not self.ds


def merge(a, b):
    m = {}
    for f, s in a.ds + b.ds:
        m[f] = m[f] & s if f in m else s
    if len(m) > CAP:
        # keep facts shared by everything
        fs = list(m)
        common = frozenset.intersection(*fs)
        # group by the facts about boolean names only, else by what is common
        g = {}
        for f, s in m.items():
            k = common
            g[k] = g[k] & s if k in g else s
        m = g
    return State(m.items())


class DefAssign:
    def __init__(self, fnode, params, is_global=(), never=None, exhausted=None):
        self.fnode = fnode
        self.exhausted = exhausted or (lambda test, key, facts: False)
        self.never = never or (lambda call: False)
        body = fnode.body
        self.locals = self._locals(fnode, params)
        self.unbound = []          # (name, node)
        self.brk = []
        self.cont = []
        self.namesof = {}
        self.reads = 0
        st = State([(frozenset(), frozenset(params))])
        self.block(body, st)

    def _locals(self, fnode, params):
        out = set(params)
        glob = set()
        work = list(fnode.body)
        while work:
            n = work.pop()
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                work += n.decorator_list
                if not isinstance(n, ast.ClassDef):
                    work += n.args.defaults + [d for d in n.args.kw_defaults if d]
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # targets are local to the comprehension; walrus leaks
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.alias):
                if n.name != "*":
                    out.add((n.asname or n.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            work += list(ast.iter_child_nodes(n))
        return out - glob

    # -- expressions
    def expr(self, n, st, comp=frozenset()):
        """report reads; return the state (walrus assigns)"""
        if n is None:
            return st
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in comp:
                self.reads += 1
                if any(n.id not in s for _, s in st.ds):
                    self.unbound.append((n.id, n))
            return st
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            c = set(comp)
            for g in n.generators:
                self.expr(g.iter, st, frozenset(c))
                c |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i in g.ifs:
                    self.expr(i, st, frozenset(c))
            if isinstance(n, ast.DictComp):
                self.expr(n.key, st, frozenset(c))
                self.expr(n.value, st, frozenset(c))
            else:
                self.expr(n.elt, st, frozenset(c))
            return st
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.expr(d, st, comp)
            return st       # body runs later
        if isinstance(n, ast.BoolOp):
            cur = self.expr(n.values[0], st, comp)
            out = cur
            for v in n.values[1:]:
                cur = self.assume(cur, n.values[n.values.index(v) - 1], isinstance(n.op, ast.And))
                cur = self.expr(v, cur, comp)
            # assignments by later operands are not guaranteed
            return out
        if isinstance(n, ast.IfExp):
            self.expr(n.test, st, comp)
            self.expr(n.body, self.assume(st, n.test, True), comp)
            self.expr(n.orelse, self.assume(st, n.test, False), comp)
            return st
        if isinstance(n, ast.NamedExpr):
            st = self.expr(n.value, st, comp)
            return self.bind(st, {n.target.id})
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.expr, ast.keyword, ast.FormattedValue)):
                st = self.expr(ch, st, comp) if not isinstance(ch, ast.keyword) else self.expr(ch.value, st, comp)
            elif isinstance(ch, ast.Slice):
                st = self.expr(ch, st, comp)
        return st

    def bind(self, st, ns, const=None):
        out = []
        for f, s in st.ds:
            nf = frozenset((k, v) for k, v in f if not (self.namesof.get(k, frozenset()) & ns))
            out.append((nf, s | ns))
        m = {}
        for f, s in out:
            m[f] = m[f] & s if f in m else s
        return State(m.items())

    def unbind(self, st, ns):
        return State([(f, s - ns) for f, s in st.ds])

    def assume(self, st, test, truth):
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                for v in test.values:
                    st = self.assume(st, v, truth)
                return st
            # disjunction: one case per operand
            acc = State()
            cur = st
            for v in test.values:
                acc = merge(acc, self.assume(cur, v, truth))
                cur = self.assume(cur, v, not truth)
            return acc
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(st, test.operand, not truth)
        if isinstance(test, ast.Constant):
            return st if bool(test.value) == truth else State()
        k, pol, ns = canon(test)
        want = pol == truth
        self.namesof[k] = ns
        impure = any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) and dotted(getattr(x, "func", x)) not in ("isinstance", "len", "issubclass", "callable", "type", "bool", "str", "int", "hasattr") for x in ast.walk(test))
        out = []
        mine = _eq_const(k)
        for f, s in st.ds:
            d = dict(f)
            if k in d:
                if d[k] != want:
                    continue
            else:
                if want and mine is not None and any(v and (e := _eq_const(k2)) is not None and e[0] == mine[0] and e[1] != mine[1] for k2, v in d.items()):
                    continue
                if not impure:
                    f = f | {(k, want)}
                    if not want and self.exhausted(test, k, dict(f)):
                        continue
            out.append((f, s))
        m = {}
        for f, s in out:
            m[f] = m[f] & s if f in m else s
        return State(m.items())

    # -- statements
    def block(self, body, st):
        for s in body:
            if st.dead:
                break
            st = self.stmt(s, st)
        return st

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return self.bind(st, frozenset({t.id}))
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                st = self.target(e, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        for ch in ast.iter_child_nodes(t):
            if isinstance(ch, ast.expr):
                st = self.expr(ch, st)
        # an attribute / item store may change what a condition saw
        if isinstance(t, ast.Attribute):
            return State([(frozenset((k, v) for k, v in f if ast.unparse(t) not in k), s) for f, s in st.ds])
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                n = s.targets[0]
                v = s.value.value
                if isinstance(v, bool):
                    self.namesof[n.id] = frozenset({n.id})
                    st = State([(f | {(n.id, v)}, x) for f, x in st.ds])
                elif v is None:
                    k = f"{n.id} is None"
                    self.namesof[k] = frozenset({n.id})
                    st = State([(f | {(k, True)}, x) for f, x in st.ds])
            elif len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (isinstance(s.value, (ast.List, ast.Dict, ast.Tuple, ast.Set, ast.JoinedStr, ast.ListComp, ast.Compare)) or isinstance(s.value, ast.Call) and dotted(s.value.func) in ("int", "str", "len", "list", "dict", "set", "tuple", "float", "bool", "sorted", "range", "enumerate")):
                k = f"{s.targets[0].id} is None"
                self.namesof[k] = frozenset({s.targets[0].id})
                st = State([(f | {(k, False)}, x) for f, x in st.ds])
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                st = self.expr(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), st)
            st = self.expr(s.value, st)
            return self.target(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            st = self.expr(s.value, st)
            return self.target(s.target, st)
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return State()
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            self.expr(s.cause, st)
            return State()
        if isinstance(s, ast.Expr):
            st = self.expr(s.value, st)
            return State() if self.never(s.value) else st
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            self.expr(s.msg, self.assume(st, s.test, False))
            return self.assume(st, s.test, True)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = self.expr(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
                    st = self.unbind(st, frozenset({t.id}))
                else:
                    st = self.expr(t, st)
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            a = self.block(s.body, self.assume(st, s.test, True))
            b = self.block(s.orelse, self.assume(st, s.test, False))
            return merge(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            w = frozenset(stored(s.body) | stored([s.target]))
            known_nonempty = isinstance(s.iter, (ast.Tuple, ast.List, ast.Set)) and s.iter.elts and not any(isinstance(e, ast.Starred) for e in s.iter.elts)
            entry = self.forget(st, w)
            return self.loop(s, st, entry, known_nonempty, lambda x: self.target(s.target, x))
        if isinstance(s, ast.While):
            w = frozenset(stored(s.body))
            entry = self.forget(st, w)
            self.expr(s.test, entry)
            const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.loop(s, st, entry, const_true, lambda x: self.assume(x, s.test, True), infinite=const_true, test=s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.target(it.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            return self.try_(s, st)
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1] = merge(self.brk[-1], st)
            return State()
        if isinstance(s, ast.Continue):
            if self.cont:
                self.cont[-1] = merge(self.cont[-1], st)
            return State()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.expr(d, st)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [d for d in s.args.kw_defaults if d]:
                    st = self.expr(d, st)
            return self.bind(st, frozenset({s.name}))
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(st, frozenset((a.asname or a.name).split(".")[0] for a in s.names))
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out = State()
            total = False
            for c in s.cases:
                ns = frozenset(stored([c.pattern]))
                x = self.bind(st, ns) if ns else st
                if c.guard is not None:
                    x = self.expr(c.guard, x)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                out = merge(out, self.block(c.body, x))
            return out if total else merge(out, st)
        return st

    def forget(self, st, w):
        m = {}
        for f, s in st.ds:
            nf = frozenset((k, v) for k, v in f if not (self.namesof.get(k, frozenset()) & w))
            m[nf] = m[nf] & s if nf in m else s
        return State(m.items())

    def loop(self, s, st0, entry, nonempty, enter, infinite=False, test=None):
        self.brk.append(State())
        self.cont.append(State())
        first, later = self.peel(s)
        if first:
            # the first iteration is told apart from the others by its index
            e1 = self.fact(enter(st0), first)
            out1 = merge(self.block(s.body, e1), self.cont[-1])
            self.cont[-1] = State()
            if out1.dead:
                out = out1
            else:
                out = self.block(s.body, self.fact(enter(self.forget(out1, frozenset(stored(s.body)) | frozenset(stored([s.target])))), later))
                out = merge(merge(out, self.cont[-1]), out1)
            self.cont.pop()
        else:
            out = self.block(s.body, enter(entry))
            out = merge(out, self.cont.pop())
        brk = self.brk.pop()
        if infinite:
            normal = State()
        else:
            # after the last iteration
            after = self.forget(out, frozenset(stored(s.body)))
            zero = st0
            if test is not None:
                zero = self.assume(st0, test, False)
                after = self.assume(out, test, False)
            normal = after if nonempty else merge(after, zero)
            normal = self.block(s.orelse, normal)
        return merge(normal, brk)

    def peel(self, s):
        """facts of the first / the later iterations of `for i, x in enumerate(y)` and `for i in range(n)`"""
        if not isinstance(s, ast.For) or not isinstance(s.iter, ast.Call) or not isinstance(s.iter.func, ast.Name):
            return None, None
        t = None
        fn = s.iter.func.id
        if fn == "enumerate" and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
            t = s.target.elts[0]
            start = s.iter.args[1] if len(s.iter.args) > 1 else next((k.value for k in s.iter.keywords if k.arg == "start"), None)
            if start is not None and not (isinstance(start, ast.Constant) and start.value == 0):
                return None, None
        elif fn == "range" and len(s.iter.args) == 1:
            t = s.target
        if not isinstance(t, ast.Name) or t.id in stored(s.body):
            return None, None
        i = t.id
        first = {f"{i} == 0": True, f"{i} > 0": False, f"{i} < 1": True, i: False}
        for k in first:
            self.namesof[k] = frozenset({i})
        return frozenset(first.items()), frozenset((k, not v) for k, v in first.items())

    def fact(self, st, fs):
        return State([(f | fs, s) for f, s in st.ds])

    def try_(self, s, st):
        # a failure may come after any prefix of the body
        mid = st
        cur = st
        for x in s.body:
            if cur.dead:
                break
            before = cur
            cur = self.stmt(x, cur)
            w = frozenset(stored([x]))
            mid = merge(mid, self.forget(before, w))
            mid = merge(mid, self.forget(cur, w)) if not cur.dead else mid
        els = self.block(s.orelse, cur) if not cur.dead else cur
        outs = els
        for h in s.handlers:
            hs = mid
            if h.type is not None:
                self.expr(h.type, hs)
            if h.name:
                hs = self.bind(hs, frozenset({h.name}))
            hs = self.block(h.body, hs)
            if h.name and not hs.dead:
                hs = self.unbind(hs, frozenset({h.name}))
            outs = merge(outs, hs)
        if s.finalbody:
            save = list(self.unbound)
            fin = self.block(s.finalbody, merge(mid, outs))
            _ = save
            if outs.dead:
                return State() if fin.dead else State()
            return self.block_quiet(s.finalbody, outs)
        return outs

    def block_quiet(self, body, st):
        n = len(self.unbound)
        st = self.block(body, st)
        del self.unbound[n:]
        return st


def _eq_const(k):
    """"x == 'a'" / "x is None" -> (x, constant): two different constants exclude each other"""
    for op in (" == ", " is "):
        if op in k:
            l, _, r = k.partition(op)
            if r and (r[0] in "'\"" or r.lstrip("-").isdigit() or r in ("None", "True", "False")):
                return (l, r)
    return None
