"""Decision tables of small functions: gated value numbering over a finite fact domain.

A function is evaluated over abstract values: constants, hash-consed terms,
integer linear forms, and objects whose unread fields are opaque terms.  A test
that is not decided by what is already known splits the table on that fact; facts
are kept as interval / equality / truth knowledge about terms, so every table row is
a consistent valuation of the atomic tests.  Two functions are compared row by row
on the same facts.  Package helpers and properties are inlined; logging is dropped;
anything outside the supported fragment raises Opaque and the rule reports the
obligation as undecided, never as a violation.
"""
import ast
import builtins

from .srcmodel import dotted, strip_doc

NONE, TRUE, FALSE = ("c", None), ("c", True), ("c", False)


class Opaque(Exception):
    """the construct is outside the fragment"""


class Infeasible(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, value=None, node=None):
        self.name, self.value, self.node = name, value, node


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


def c(v):
    return ("c", v)


def is_c(v):
    return v[0] == "c"


def is_num(v):
    return v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool)


def t(*a):
    return ("t",) + a


# ---------------------------------------------------------------- linear forms
def lin(v):
    """(const, {term: coef}) of a value read as a number"""
    if v[0] == "lin":
        return v[1], dict(v[2])
    if v[0] == "c" and isinstance(v[1], (int, float)):
        return int(v[1]) if isinstance(v[1], bool) else v[1], {}
    return 0, {v: 1}


def mk(const, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return c(const)
    if const == 0 and len(d) == 1:
        k, x = next(iter(d.items()))
        if x == 1:
            return k
    return ("lin", const, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + s * x
    return mk(ca + s * cb, d)


def mul(a, k):
    ca, da = lin(a)
    return mk(ca * k, {x: y * k for x, y in da.items()})


class Facts:
    """what one table row knows"""

    def __init__(self):
        self.iv = {}       # normalised linear part -> [lo, hi, excluded set]
        self.val = {}      # term -> ('=', const) or ('!', set of consts)
        self.tr = {}       # opaque key -> bool
        self.log = []      # human readable decisions

    def show(self):
        return [f"{'' if b else 'not '}{k}" for k, b in self.log]


class Ev:
    """one evaluation of one table row; `script` fixes the answers of the first undecided tests"""

    MAXDEPTH = 14
    MAXSTEPS = 60000

    def __init__(self, prog, script=(), cfg=None):
        self.prog = prog
        self.script = list(script)
        self.pos = 0
        self.trace = []
        self.facts = Facts()
        self.heap = []
        self.cfg = cfg or {}
        self.depth = 0
        self.steps = 0
        self.stack = []

    # ---- facts
    def fork(self, label):
        if self.pos < len(self.script):
            b = self.script[self.pos]
        else:
            b = True
            self.script.append(True)
        self.pos += 1
        self.trace.append(b)
        self.facts.log.append((label, b))
        return b

    def fact(self, key, label=None):
        f = self.facts
        if key in f.tr:
            return f.tr[key]
        b = self.fork(label or show(key))
        f.tr[key] = b
        return b

    def norm(self, d):
        """difference linear form -> (key, sign, const): value = sign * key + const"""
        const, dd = d
        items = tuple(sorted(dd.items(), key=repr))
        s = 1
        if items and items[0][1] < 0:
            s = -1
            items = tuple((k, -x) for k, x in items)
        return items, s, const

    def sign(self, a, b, op):
        """decide a op b for op in < <= == on numbers / ordered values"""
        ca, da = lin(a)
        cb, db = lin(b)
        for k, x in db.items():
            da[k] = da.get(k, 0) - x
        da = {k: x for k, x in da.items() if x}
        const = ca - cb
        if not da:
            return {"<": const < 0, "<=": const <= 0, "==": const == 0}[op]
        key, s, _ = self.norm((const, da))
        lo, hi, ex = self.facts.iv.get(key, (None, None, frozenset()))
        lo0, hi0 = self.bounds(key)
        lo = lo0 if lo is None or lo0 is not None and lo0 > lo else lo
        hi = hi0 if hi is None or hi0 is not None and hi0 < hi else hi
        # s*K + const op 0
        if op == "==":
            v = -const * s if isinstance(const, int) else -const / s
            if lo is not None and hi is not None and lo == hi:
                return lo == v
            if v in ex or lo is not None and v < lo or hi is not None and v > hi:
                return False
            b = self.fork(f"{show(a)} == {show(b)}")
            if b:
                self.facts.iv[key] = (v, v, frozenset())
            else:
                ex = ex | {v}
                while lo is not None and lo in ex:
                    lo += 1
                while hi is not None and hi in ex:
                    hi -= 1
                self.put(key, lo, hi, ex)
            return b
        # strict -> non strict on integers
        bound = -const if op == "<=" else -const - 1
        # s*K <= bound
        if s == 1:
            if hi is not None and hi <= bound:
                return True
            if lo is not None and lo > bound:
                return False
            b = self.fork(f"{show(a)} {op} {show(b)}")
            if b:
                hi = bound if hi is None else min(hi, bound)
            else:
                lo = bound + 1 if lo is None else max(lo, bound + 1)
        else:
            lb = -bound
            if lo is not None and lo >= lb:
                return True
            if hi is not None and hi < lb:
                return False
            b = self.fork(f"{show(a)} {op} {show(b)}")
            if b:
                lo = lb if lo is None else max(lo, lb)
            else:
                hi = lb - 1 if hi is None else min(hi, lb - 1)
        while lo is not None and lo in ex and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ex and (lo is None or lo <= hi):
            hi -= 1
        self.put(key, lo, hi, ex)
        return b

    def put(self, key, lo, hi, ex):
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        self.facts.iv[key] = (lo, hi, ex)

    def assume(self, a, op, b):
        """restrict this row; infeasible rows are dropped"""
        self.fork = lambda label: True
        try:
            r = self.sign(a, b, op)
        finally:
            del self.fork
        if not r:
            raise Infeasible()

    def bounds(self, key):
        """declared or propagated bounds of a linear key: sums of the declared ranges, and differences through a third term"""
        rg = self.cfg.get("range")
        lo = hi = 0
        for k, x in key:
            r = rg(k) if rg else None
            if r is None:
                lo = hi = None
                break
            a, b = r
            if x < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + x * a
            hi = None if hi is None or b is None else hi + x * b
        # zone closure: x - y through z
        if len(key) == 2 and {x for _, x in key} == {1, -1}:
            p = [k for k, x in key if x == 1][0]
            q = [k for k, x in key if x == -1][0]
            edges = {}
            for kk, (l, h, _) in self.facts.iv.items():
                if len(kk) == 2 and {x for _, x in kk} == {1, -1}:
                    a = [k for k, x in kk if x == 1][0]
                    b = [k for k, x in kk if x == -1][0]
                    if h is not None:
                        edges[(a, b)] = min(h, edges.get((a, b), h))
                    if l is not None:
                        edges[(b, a)] = min(-l, edges.get((b, a), -l))
                elif len(kk) == 1 and kk[0][1] == 1:
                    a = kk[0][0]
                    if h is not None:
                        edges[(a, None)] = min(h, edges.get((a, None), h))
                    if l is not None:
                        edges[(None, a)] = min(-l, edges.get((None, a), -l))
            for a in {x for e in edges for x in e if x is not None} | {p, q}:
                r = rg(a) if rg else None
                if r:
                    if r[1] is not None:
                        edges[(a, None)] = min(r[1], edges.get((a, None), r[1]))
                    if r[0] is not None:
                        edges[(None, a)] = min(-r[0], edges.get((None, a), -r[0]))
            for (a, b), w in self.cfg.get("zones", {}).items():
                edges[(a, b)] = min(w, edges.get((a, b), w))

            def short(src, dst):
                dist = {src: 0}
                for _ in range(8):
                    ch = False
                    for (a, b), w in edges.items():
                        if a in dist and dist[a] + w < dist.get(b, float("inf")):
                            dist[b] = dist[a] + w
                            ch = True
                    if not ch:
                        break
                return dist.get(dst)
            h2, l2 = short(p, q), short(q, p)
            if h2 is not None:
                hi = h2 if hi is None else min(hi, h2)
            if l2 is not None:
                lo = -l2 if lo is None else max(lo, -l2)
        return lo, hi

    # ---- truth
    def truth(self, v):
        k = v[0]
        if k == "c":
            return bool(v[1])
        if k == "lin":
            return not self.sign(v, c(0), "==")
        if k == "ref":
            o = self.heap[v[1]]
            if o["kind"] in ("list", "tuple", "set", "dict"):
                return len(o["items"]) > 0
            for nm in ("__bool__", "__len__"):
                g = self.prog.find_method(o["cls"].name, nm) if o.get("cls") else None
                if g is not None:
                    return self.truth(self.call_func(g, [v], {}))
            return True
        if k in ("fn", "cls", "ext", "lam", "mod"):
            return True
        if self.isint(v):
            return not self.sign(v, c(0), "==")
        if k == "t" and v[1] in ("nonempty",):
            return True
        hk = self.cfg.get("truth")
        if hk:
            r = hk(self, v)
            if r is not None:
                return r
        return self.fact(("truth", v), f"truth of {show(v)}")

    def isint(self, v):
        f = self.cfg.get("isint")
        if v[0] == "lin" or is_num(v):
            return True
        if v[0] == "t" and v[1] in ("int", "len", "abs", "ord", "hash"):
            return True
        return bool(f and f(v))

    def isbool(self, v):
        f = self.cfg.get("isbool")
        return v in (TRUE, FALSE) or bool(f and f(v))

    # ---- heap
    def new(self, kind, items=None, cls=None, fields=None, name=None):
        self.heap.append({"kind": kind, "items": list(items or []), "cls": cls, "fields": dict(fields or {}), "name": name})
        return ("ref", len(self.heap) - 1)

    def symbol(self, clsname, name, fields=None):
        """an arbitrary instance: fields that were not given are opaque terms"""
        return self.new("obj", cls=self.prog.classes[clsname], fields=fields, name=name)

    def items(self, v):
        """concrete element list of a value, or None"""
        if v[0] == "ref" and self.heap[v[1]]["kind"] in ("list", "tuple", "set"):
            return list(self.heap[v[1]]["items"])
        if v[0] == "ref" and self.heap[v[1]]["kind"] == "dict":
            return [k for k, _ in self.heap[v[1]]["items"]]
        if v[0] == "c" and isinstance(v[1], (str, tuple, list, frozenset, range)) and len(v[1]) <= 200:
            return [c(x) for x in v[1]]
        return None

    def freeze(self, v, depth=0):
        """a heap independent form, for terms and comparison"""
        if v[0] == "ref":
            o = self.heap[v[1]]
            if depth > 6:
                return ("deep",)
            if o["kind"] in ("list", "tuple", "set"):
                return (o["kind"],) + tuple(self.freeze(x, depth + 1) for x in o["items"])
            if o["kind"] == "attrs":
                return t("attr", self.freeze(o["of"], depth + 1), "__dict__")
            if o["kind"] == "dict":
                return ("dict",) + tuple((self.freeze(k, depth + 1), self.freeze(x, depth + 1)) for k, x in o["items"])
            if o["name"]:
                return ("sym", o["name"])
            return ("new", o["cls"].name) + tuple(sorted((k, self.freeze(x, depth + 1)) for k, x in o["fields"].items()))
        if v[0] in ("t", "lin"):
            return tuple(self.freeze(x, depth) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("ref", "t", "lin") else (tuple(self.freeze(y, depth) if isinstance(y, tuple) and y and y[0] in ("ref", "t", "lin") else y for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x) for x in v)
        return v

    # ---- attributes
    def getattr(self, v, name, node=None):
        if v[0] == "ref":
            o = self.heap[v[1]]
            if o["kind"] == "obj":
                if name in o["fields"]:
                    return o["fields"][name]
                cls = o["cls"]
                if cls is not None:
                    hk = self.cfg.get("attr")
                    if hk:
                        r = hk(self, v, name)
                        if r is not None:
                            return r
                    p = self.prog.find_prop(cls.name, name)
                    if p is not None:
                        return self.call_func(p, [v], {})
                    m = self.prog.find_method(cls.name, name)
                    if m is not None:
                        return ("fn", m, None if m.kind == "staticmethod" else (("cls", cls) if m.kind == "classmethod" else v))
                    if name in ("__class__",):
                        return ("cls", cls)
                    if name == "__dict__":
                        r = self.new("attrs")
                        self.heap[r[1]]["of"] = v
                        return r
                    if o["name"] is not None and self.stored(cls, name):
                        return t("attr", ("sym", o["name"]), name)
                    for k in cls.mro:
                        if name in k.attrs:
                            e = k.attrs[name]
                            if e is None:
                                return t("attr", ("cls", k.name), name)
                            return self.expr(e, {}, None, k.module)
                    if o["name"] is not None and not self.cfg.get("strict_attrs"):
                        return t("attr", ("sym", o["name"]), name)
                    raise Raised("AttributeError", node=node)
            return ("bm", v, name)
        if v[0] == "cls":
            cls = v[1]
            m = self.prog.find_method(cls.name, name)
            if m is not None:
                return ("fn", m, ("cls", cls) if m.kind == "classmethod" else None)
            if name == "__name__":
                return c(cls.name)
            if name == "__new__":
                return ("bm", v, name)
            for k in cls.mro:
                if name in k.attrs and k.attrs[name] is not None:
                    return self.expr(k.attrs[name], {}, None, k.module)
            return t("attr", ("cls", cls.name), name)
        if v[0] == "ext":
            if v[1] == "sys" and name == "version_info":
                return c((3, 8, 0))
            return ("ext", v[1] + "." + name)
        if v[0] == "c":
            if not hasattr(v[1], name):
                raise Raised("AttributeError", node=node)
            if isinstance(v[1], slice) and name in ("start", "stop", "step"):
                return c(getattr(v[1], name))
            return ("bm", v, name)
        if v == self.cfg.get("alien"):
            raise Raised("AttributeError", node=node)
        hk = self.cfg.get("attr")
        if hk:
            r = hk(self, v, name)
            if r is not None:
                return r
        return t("attr", self.freeze(v), name)

    def stored(self, cls, name):
        key = (cls.name, name)
        memo = self.prog.__dict__.setdefault("_fin_stored", {})
        if key not in memo:
            fam = [k for k in self.prog.classes.values() if cls in k.mro or k in cls.mro]
            memo[key] = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                            for k in fam for n in ast.walk(k.node))
        return memo[key]

    def setattr(self, v, name, val):
        if v[0] != "ref" or self.heap[v[1]]["kind"] != "obj":
            raise Opaque(f"attribute store on {v[0]}")
        o = self.heap[v[1]]
        if o["cls"] is not None:
            s = self.prog.find_setter(o["cls"].name, name)
            if s is not None:
                self.call_func(s, [v, val], {})
                return
        o["fields"][name] = val

    # ---- calls
    def call_func(self, f, args, kw, node=None):
        hk = self.cfg.get("func")
        if hk:
            r = hk(self, f, args, kw)
            if r is not None:
                return r
        if self.cfg.get("soft") and self.depth >= 1 and not kw:
            # a helper outside the fragment becomes an uninterpreted function of its arguments
            d, st, ce = self.depth, list(self.stack), self.current_exc
            try:
                return self.call_inner(f, args, kw, node)
            except Opaque:
                self.depth, self.stack, self.current_exc = d, st, ce
                if f.name.startswith("__"):
                    raise
                return t("pure", f.qual, tuple(self.freeze(a) for a in args))
        return self.call_inner(f, args, kw, node)

    def call_inner(self, f, args, kw, node=None):
        if self.depth > self.MAXDEPTH or self.stack.count(f.qual) > 2:
            raise Opaque(f"recursion through {f.qual}")
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
            raise Opaque(f"generator {f.qual}")
        env = {}
        params = list(f.params)
        pos = list(args)
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
        if len(pos) > len(params):
            if f.vararg:
                env[f.vararg] = self.new("tuple", pos[len(params):])
            else:
                raise Raised("TypeError", node=node)
        elif f.vararg:
            env[f.vararg] = self.new("tuple", [])
        extra = []
        for k, x in kw.items():
            if k in params or k in f.kwonly:
                env[k] = x
            elif f.kwarg:
                extra.append((c(k), x))
            else:
                raise Raised("TypeError", node=node)
        if f.kwarg:
            env[f.kwarg] = self.new("dict", extra)
        for p in params + list(f.kwonly):
            if p not in env:
                d = f.defaults.get(p)
                if d is None:
                    raise Raised("TypeError", node=node)
                env[p] = self.expr(d, {}, f.outer, f.module)
        self.depth += 1
        self.stack.append(f.qual)
        try:
            self.block(f.node.body, env, f, f.module)
            return NONE
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()

    def instantiate(self, cls, args, kw):
        hk = self.cfg.get("new")
        if hk:
            r = hk(self, cls, args, kw)
            if r is not None:
                return r
        o = self.new("obj", cls=cls)
        ini = self.prog.find_method(cls.name, "__init__")
        if ini is not None:
            self.call_func(ini, [o] + args, kw)
        elif any(b for k in cls.mro for b in k.external_bases):
            raise Opaque(f"instance of {cls.name} with a foreign base")
        return o

    def call(self, fn, args, kw, node, env, f, m):
        k = fn[0]
        if k == "fn":
            g, slf = fn[1], fn[2]
            return self.call_func(g, ([slf] if slf is not None else []) + args, kw, node)
        if k == "cls":
            return self.instantiate(fn[1], args, kw)
        if k == "lam":
            _, ln, lenv, lf, lm = fn
            e2 = dict(lenv[0])
            ps = [a.arg for a in ln.args.args]
            if len(args) != len(ps) or kw:
                raise Opaque("lambda call")
            e2.update(zip(ps, args))
            return self.expr(ln.body, e2, lf, lm)
        if k == "nested":
            _, nf, nenv = fn
            return self.call_nested(nf, nenv[0], args, kw)
        if k == "bm":
            return self.method(fn[1], fn[2], args, kw, node)
        if k == "ext":
            return self.external(fn[1], args, kw, node)
        if k == "t":
            if fn[1] == "attr":
                hk = self.cfg.get("method")
                if hk:
                    r = hk(self, fn[2], fn[3], args, kw)
                    if r is not None:
                        return r
            return t("call", self.freeze(fn), tuple(self.freeze(a) for a in args), tuple(sorted((n, self.freeze(x)) for n, x in kw.items())))
        raise Opaque(f"call of {k}")

    def call_nested(self, nf, outer, args, kw):
        env = dict(outer)
        a = nf.args
        ps = [x.arg for x in a.args]
        if a.vararg or a.kwarg or len(args) > len(ps):
            raise Opaque("nested function signature")
        env.update(zip(ps, args))
        env.update(kw)
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p not in dict(zip(ps, args)) and p not in kw:
                env[p] = self.expr(d, outer, self.cur_f, self.cur_m)
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Opaque("recursion in nested function")
        try:
            self.block(nf.body, env, self.cur_f, self.cur_m)
            return NONE
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1

    PURE_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "split", "rsplit", "replace", "startswith", "endswith", "join", "format", "isdigit", "zfill", "index", "find", "count", "splitlines", "partition", "title"}

    SETOPS = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}

    def setop(self, op, xs, ys):
        """elements of a set operation; elements are told apart as everywhere in sets"""
        one = []
        for y in ys:
            if y not in one:
                one.append(y)
        if op == "union":
            return xs + [y for y in one if y not in xs]
        if op == "intersection":
            return [x for x in xs if x in one]
        if op == "difference":
            return [x for x in xs if x not in one]
        return [x for x in xs if x not in one] + [y for y in one if y not in xs]

    def method(self, b, name, args, kw, node):
        if b[0] == "cls" and name == "__new__" and len(args) == 1 and args[0][0] == "cls":
            return self.new("obj", cls=args[0][1])
        if b[0] == "ref" and self.heap[b[1]]["kind"] == "attrs" and name == "update" and len(args) == 1 and args[0][0] == "ref" and self.heap[args[0][1]]["kind"] == "attrs":
            to, fr = (self.heap[self.heap[x[1]]["of"][1]] for x in (b, args[0]))
            to["fields"].update(fr["fields"])
            if to["name"] is None:
                to["name"] = fr["name"]
            return NONE
        if b[0] == "ref":
            o = self.heap[b[1]]
            if o["kind"] in ("list", "set"):
                if name in ("append", "add") and len(args) == 1:
                    if o["kind"] == "set" and args[0] in o["items"]:
                        return NONE
                    o["items"].append(args[0])
                    return NONE
                if name in ("extend", "update") and len(args) == 1:
                    it = self.items(args[0])
                    if it is None:
                        raise Opaque("extend by an opaque sequence")
                    o["items"].extend(x for x in it if o["kind"] == "list" or x not in o["items"])
                    return NONE
                if name == "copy":
                    return self.new(o["kind"], o["items"])
                if o["kind"] == "set" and not kw:
                    base = name[:-7] if name.endswith("_update") else name
                    if base in self.SETOPS.values() and (args or base == "union") or name == "update" and args:
                        its = [self.items(x) for x in args]
                        if any(it is None for it in its):
                            raise Opaque("set operation with an opaque collection")
                        xs = list(o["items"])
                        for it in its:
                            xs = self.setop("union" if name == "update" else base, xs, it)
                        if name == base and name != "update":
                            return self.new("set", xs)
                        o["items"][:] = xs
                        return NONE
                    if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 1 and self.items(args[0]) is not None:
                        ys = self.items(args[0])
                        return c(all(x in ys for x in o["items"]) if name == "issubset" else all(y in o["items"] for y in ys) if name == "issuperset" else not any(y in o["items"] for y in ys))
                    if name in ("remove", "discard") and len(args) == 1:
                        if args[0] in o["items"]:
                            o["items"].remove(args[0])
                        elif name == "remove":
                            raise Raised("KeyError", node=node)
                        return NONE
                    if name == "clear" and not args:
                        o["items"][:] = []
                        return NONE
                if name == "insert" and len(args) == 2 and is_num(args[0]):
                    o["items"].insert(args[0][1], args[1])
                    return NONE
                if name == "pop":
                    if not o["items"]:
                        raise Raised("IndexError", node=node)
                    if not args:
                        return o["items"].pop()
                    if is_num(args[0]):
                        if not -len(o["items"]) <= args[0][1] < len(o["items"]):
                            raise Raised("IndexError", node=node)
                        return o["items"].pop(args[0][1])
                if name == "reverse":
                    o["items"].reverse()
                    return NONE
                if name == "index" and len(args) == 1 and all(is_c(x) for x in o["items"] + args):
                    if args[0] not in o["items"]:
                        raise Raised("ValueError", node=node)
                    return c(o["items"].index(args[0]))
                if name == "index" and len(args) == 1 and not kw:
                    for i, x in enumerate(o["items"]):
                        if self.eq(x, args[0]):
                            return c(i)
                    raise Raised("ValueError", node=node)
                if name == "count" and len(args) == 1 and not kw:
                    return c(sum(1 for x in o["items"] if self.eq(x, args[0])))
                raise Opaque(f"list method {name}")
            if o["kind"] == "tuple":
                raise Opaque(f"tuple method {name}")
            if o["kind"] == "dict":
                if name == "get" and args:
                    r = self.dict_get(o, args[0])
                    return r if r is not None else (args[1] if len(args) > 1 else NONE)
                if name == "items" and not args:
                    return self.new("list", [self.new("tuple", [k, v]) for k, v in o["items"]])
                if name == "keys" and not args:
                    return self.new("list", [k for k, _ in o["items"]])
                if name == "values" and not args:
                    return self.new("list", [v for _, v in o["items"]])
                if name == "copy":
                    return self.new("dict", o["items"])
                if name == "update" and len(args) == 1 and args[0][0] == "ref" and self.heap[args[0][1]]["kind"] == "dict":
                    for k, v in self.heap[args[0][1]]["items"]:
                        self.dict_set(o, k, v)
                    return NONE
                raise Opaque(f"dict method {name}")
        hk = self.cfg.get("method")
        if hk:
            r = hk(self, b, name, args, kw)
            if r is not None:
                return r
        if b[0] == "c" and isinstance(b[1], str) and name in self.PURE_STR and all(self.pyval(a)[0] for a in args) and not kw:
            try:
                r = getattr(b[1], name)(*[self.pyval(a)[1] for a in args])
            except Exception as e:
                raise Raised(type(e).__name__, node=node)
            return self.lift(r)
        if b[0] == "t" and name in ("append", "remove", "extend", "insert", "pop", "discard", "sort", "reverse", "clear", "popitem", "setdefault") and b[1] not in ("attr", "var"):
            raise Opaque(f"{name}() on a computed value")
        if b[0] == "c" and isinstance(b[1], str) and name == "format":
            r = self.format(b[1], args, kw)
            if r is not None:
                return r
        if b[0] == "c" and isinstance(b[1], str) and name == "join" and len(args) == 1:
            it = self.items(args[0])
            if it is not None and all(self.strlike(x) for x in it):
                return self.concat([y for i, x in enumerate(it) for y in ([b] if i else []) + [x]])
        return t("call", t("attr", self.freeze(b), name), tuple(self.freeze(a) for a in args), tuple(sorted((n, self.freeze(x)) for n, x in kw.items())))

    def pyval(self, v):
        if v[0] == "c":
            return True, v[1]
        if v[0] == "ref" and self.heap[v[1]]["kind"] in ("list", "tuple"):
            xs = [self.pyval(x) for x in self.heap[v[1]]["items"]]
            if all(ok for ok, _ in xs):
                return True, (list if self.heap[v[1]]["kind"] == "list" else tuple)(x for _, x in xs)
        return False, None

    def lift(self, r):
        if isinstance(r, (list, tuple)):
            return self.new("list" if isinstance(r, list) else "tuple", [self.lift(x) for x in r])
        return c(r)

    def dict_get(self, o, k):
        for kk, v in o["items"]:
            if kk == k:
                return v
            if not (is_c(kk) and is_c(k)):
                if self.cfg.get("dicteq"):
                    if self.eq(kk, k):
                        return v
                    continue
                raise Opaque("dict lookup with an opaque key")
        return None

    def dict_set(self, o, k, v):
        for i, (kk, _) in enumerate(o["items"]):
            if kk == k:
                o["items"][i] = (k, v)
                return
            if not (is_c(kk) and is_c(k)):
                if self.cfg.get("dicteq"):
                    if self.eq(kk, k):
                        o["items"][i] = (kk, v)
                        return
                    continue
                raise Opaque("dict store with an opaque key")
        o["items"].append((k, v))

    def external(self, name, args, kw, node):
        if name.startswith(("loguru.logger", "logger.")):
            return NONE
        hk = self.cfg.get("ext")
        if hk:
            r = hk(self, name, args, kw)
            if r is not None:
                return r
        last = name
        n = len(args)
        if last == "isinstance" and n == 2:
            return c(self.isinst(args[0], args[1]))
        if last in ("int", "float") and n == 1 and not kw:
            v = args[0]
            if v[0] == "lin" or self.isint(v) and last == "int":
                return v if not isinstance(v[1], bool) else c(int(v[1]))
            if is_c(v):
                try:
                    return c((int if last == "int" else float)(v[1]))
                except Exception as e:
                    raise Raised(type(e).__name__, node=node)
            if v[0] == "ref":
                g = self.prog.find_method(self.heap[v[1]]["cls"].name, "__int__") if self.heap[v[1]].get("cls") else None
                if g is not None:
                    return self.call_func(g, [v], {})
            return t(last, self.freeze(v))
        if last == "bool" and n <= 1:
            return c(self.truth(args[0])) if n else FALSE
        if last == "str" and n <= 1:
            if not n:
                return c("")
            if is_c(args[0]):
                return c(str(args[0][1]))
            if args[0][0] == "ref" and self.heap[args[0][1]]["kind"] == "obj":
                for nm in ("__str__", "__repr__"):
                    g = self.prog.find_method(self.heap[args[0][1]]["cls"].name, nm)
                    if g is not None:
                        try:
                            return self.call_inner(g, [args[0]], {})
                        except Opaque:
                            return t("pure", g.qual, (self.freeze(args[0]),))
            return t("str", self.freeze(args[0]))
        if last == "len" and n == 1:
            it = self.items(args[0])
            if it is not None:
                return c(len(it))
            if is_c(args[0]) and hasattr(args[0][1], "__len__"):
                return c(len(args[0][1]))
            if args[0][0] == "ref":
                g = self.prog.find_method(self.heap[args[0][1]]["cls"].name, "__len__") if self.heap[args[0][1]].get("cls") else None
                if g is not None:
                    return self.call_func(g, [args[0]], {})
            return t("len", self.freeze(args[0]))
        if last in ("getattr",) and n >= 2 and is_c(args[1]):
            try:
                return self.getattr(args[0], args[1][1], node)
            except Raised as r:
                if r.name == "AttributeError" and n == 3:
                    return args[2]
                raise
        if last == "hasattr" and n == 2 and is_c(args[1]):
            try:
                v = self.getattr(args[0], args[1][1], node)
                if v[0] == "t" and args[0][0] != "ref":
                    return c(self.fact(("hasattr", self.freeze(args[0]), args[1][1])))
                return TRUE
            except Raised as r:
                if r.name == "AttributeError":
                    return FALSE
                raise
        if last == "setattr" and n == 3 and is_c(args[1]):
            self.setattr(args[0], args[1][1], args[2])
            return NONE
        if last == "hash" and n == 1:
            v = args[0]
            if v[0] == "ref" and self.heap[v[1]]["kind"] == "obj":
                g = self.prog.find_method(self.heap[v[1]]["cls"].name, "__hash__")
                if g is not None:
                    return self.call_func(g, [v], {})
            return t("hash", self.freeze(v))
        if last == "type" and n == 1:
            if args[0][0] == "ref" and self.heap[args[0][1]].get("cls"):
                return ("cls", self.heap[args[0][1]]["cls"])
            if is_c(args[0]):
                return ("ext", type(args[0][1]).__name__)
            return t("type", self.freeze(args[0]))
        if last in ("list", "tuple", "set", "frozenset", "sorted", "reversed") and n <= 1 and not kw:
            if n == 0:
                return self.new({"frozenset": "set", "sorted": "list", "reversed": "list"}.get(last, last), [])
            it = self.items(args[0])
            if it is not None and last not in ("sorted",) or it is not None and all(is_num(x) for x in it):
                if last == "sorted":
                    return self.new("list", sorted(it, key=lambda x: x[1]))
                if last == "reversed":
                    return self.new("list", it[::-1])
                kind = {"frozenset": "set"}.get(last, last)
                if kind == "set":
                    out = []
                    for x in it:
                        if x not in out:
                            out.append(x)
                    it = out
                return self.new(kind, it)
            return t(last, self.freeze(args[0]))
        if last == "dict" and n == 0:
            return self.new("dict", [(c(k), v) for k, v in kw.items()])
        if last in ("any", "all") and n == 1:
            it = self.items(args[0])
            if it is not None:
                for x in it:
                    b = self.truth(x)
                    if b == (last == "any"):
                        return c(b)
                return c(last == "all")
            return t(last, self.freeze(args[0]))
        if last in ("min", "max", "abs", "sum", "ord", "chr", "hex", "bin", "repr", "divmod", "round", "pow") and all(self.pyval(a)[0] for a in args) and not kw:
            try:
                return self.lift(getattr(builtins, last)(*[self.pyval(a)[1] for a in args]))
            except Exception as e:
                raise Raised(type(e).__name__, node=node)
        if last == "sum" and n in (1, 2) and set(kw) <= {"start"}:
            it = self.items(args[0])
            if it is not None:
                acc = args[1] if n == 2 else kw.get("start", c(0))
                for x in it:
                    acc = self.binop(acc, ast.Add(), x)
                return acc
        if last in ("min", "max") and n == 2 and not kw:
            le = self.sign(args[0], args[1], "<=")
            return args[0] if le == (last == "min") else args[1]
        if last == "enumerate" and n in (1, 2) and set(kw) <= {"start"} and n + len(kw) <= 2:
            it = self.items(args[0])
            start = args[1] if n == 2 else kw.get("start", c(0))
            if it is not None:
                return self.new("list", [self.new("tuple", [self.binop(start, ast.Add(), c(i)), x]) for i, x in enumerate(it)])
        if last == "zip" and n:
            its = [self.items(a) for a in args]
            if all(x is not None for x in its):
                return self.new("list", [self.new("tuple", list(x)) for x in zip(*its)])
        if last == "range" and all(is_num(a) for a in args):
            return self.new("list", [c(i) for i in range(*[a[1] for a in args])][:300]) if len(range(*[a[1] for a in args])) <= 200 else t("range", *args)
        if last == "super":
            raise Opaque("super()")
        if last == "print":
            return NONE
        return t("call", name, tuple(self.freeze(a) for a in args), tuple(sorted((k, self.freeze(x)) for k, x in kw.items())))

    ABCS = {"Sequence": ("list", "tuple"), "MutableSequence": ("list",), "Iterable": ("list", "tuple", "set", "dict"), "Collection": ("list", "tuple", "set", "dict"), "Sized": ("list", "tuple", "set", "dict"),
            "Mapping": ("dict",), "MutableMapping": ("dict",), "Set": ("set",), "MutableSet": ("set",), "Container": ("list", "tuple", "set", "dict"), "Callable": (), "Hashable": ("tuple",)}

    def isinst(self, v, ty):
        if ty[0] == "ref":
            return any(self.isinst(v, x) for x in self.heap[ty[1]]["items"])
        if v[0] == "ref":
            o = self.heap[v[1]]
            if o["kind"] in ("list", "tuple", "set", "dict"):
                if ty[0] == "ext" and ty[1].split(".")[-1] in self.ABCS and ty[1].startswith(("collections.", "typing.")):
                    return o["kind"] in self.ABCS[ty[1].split(".")[-1]]
                return ty == ("ext", o["kind"])
            if ty[0] == "cls":
                return ty[1] in o["cls"].mro
            return ty == ("ext", "object")
        if v[0] == "c":
            if ty[0] == "ext" and hasattr(builtins, ty[1]) and isinstance(getattr(builtins, ty[1]), type):
                return isinstance(v[1], getattr(builtins, ty[1]))
            return False
        if v[0] == "lin" or self.isint(v):
            return ty in (("ext", "int"), ("ext", "object"))
        if v == self.cfg.get("alien"):
            return ty == ("ext", "object")
        hk = self.cfg.get("isinstance")
        if hk:
            r = hk(self, v, ty)
            if r is not None:
                return r
        return self.fact(("isinstance", self.freeze(v), ty[1].name if ty[0] == "cls" else ty[1] if ty[0] == "ext" else ty))

    # ---- comparison
    def eq(self, a, b):
        if a == b and a[0] != "ref":
            return True
        al = self.cfg.get("alien")
        if al and (a == al or b == al) and a[0] != "ref" and b[0] != "ref":
            return False
        if a[0] == "ref" and b[0] == "ref":
            oa, ob = self.heap[a[1]], self.heap[b[1]]
            if oa["kind"] != "obj" and ob["kind"] != "obj":
                if oa["kind"] != ob["kind"] or len(oa["items"]) != len(ob["items"]):
                    return False
                if oa["kind"] in ("list", "tuple"):
                    return all(self.eq(x, y) for x, y in zip(oa["items"], ob["items"]))
                raise Opaque("set/dict comparison")
        for x, y in ((a, b), (b, a)):
            if x[0] == "ref" and self.heap[x[1]]["kind"] == "obj":
                g = self.prog.find_method(self.heap[x[1]]["cls"].name, "__eq__")
                if g is not None:
                    return self.truth(self.call_func(g, [x, y], {}))
        if a[0] == "ref" or b[0] == "ref":
            if a[0] == "ref" and b[0] == "ref":
                return a == b
            o, x = (a, b) if a[0] == "ref" else (b, a)
            if self.heap[o[1]]["kind"] == "obj" or is_c(x):
                return False
            return self.fact(("eq",) + tuple(sorted((self.freeze(a), self.freeze(b)), key=repr)))
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1]
        if a[0] in ("cls", "ext", "fn") or b[0] in ("cls", "ext", "fn"):
            if a[0] in ("t", "var", "sym") or b[0] in ("t", "var", "sym"):
                return self.fact(("eq",) + tuple(sorted((repr(a), repr(b)))))
            return a == b
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and not is_num(y):
                if x[0] == "lin" or self.isint(x) and not isinstance(y[1], bool):
                    return False
                if isinstance(y[1], bool) and self.isbool(x):
                    return self.fact(("truth", x), f"truth of {show(x)}") == y[1]
                if isinstance(y[1], bool) and self.isint(x):
                    return self.sign(x, c(int(y[1])), "==")
                return self.valeq(x, y[1])
        if a[0] == "t" and b[0] == "t" and a[1] == b[1] == "addr":
            return self.eq(a[2], b[2])
        if a[0] == "t" and b[0] == "t" and a[1] == b[1] == "str" and all(self.isint(x[2]) or x[2][:2] == ("t", "addr") for x in (a, b)):
            return self.eq(a[2], b[2])
        if self.isbool(a) and self.isbool(b):
            return self.truth(a) == self.truth(b)
        return self.sign(a, b, "==")

    def valeq(self, x, k):
        st = self.facts.val.get(x)
        key = (type(k).__name__, k)
        if st is not None:
            if st[0] == "=":
                return st[1] == key
            if key in st[1]:
                return False
        dom = self.cfg.get("values")
        vals = dom(x) if dom else None
        if vals is not None and k not in vals:
            return False
        if vals is not None:
            left = [v for v in vals if not (st and (type(v).__name__, v) in st[1])]
            if left == [k]:
                return True
        b = self.fork(f"{show(x)} == {k!r}")
        if b:
            self.facts.val[x] = ("=", key)
        else:
            self.facts.val[x] = ("!", (st[1] if st else frozenset()) | {key})
        return b

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if x[0] == "c":
                    return x[1] is None
                if x[0] in ("ref", "lin", "cls", "fn", "lam", "ext") or self.isint(x) or self.isbool(x):
                    return False
                nn = self.cfg.get("notnone")
                if x[0] == "t" and x[1] in ("str", "fmt", "hash", "type", "list", "tuple", "sorted", "set", "fstr") or nn and nn(x):
                    return False
                return self.valeq(x, None)
            if y in (TRUE, FALSE):
                if x[0] == "c":
                    return x[1] is y[1]
                if x[0] in ("ref", "lin"):
                    return False
                if self.isbool(x):
                    return self.fact(("truth", x), f"truth of {show(x)}") == y[1]
                return self.valeq(x, y[1])
        if a[0] == "ref" and b[0] == "ref":
            return a == b
        if a == b:
            return True
        if a[0] in ("cls", "ext") and b[0] in ("cls", "ext"):
            return a == b
        if a[0] == "ref" or b[0] == "ref":
            return False
        if self.isbool(a) and self.isbool(b):
            return self.truth(a) == self.truth(b)
        return self.fact(("is",) + tuple(sorted((repr(self.freeze(a)), repr(self.freeze(b))))))

    def less(self, a, b, op):
        """op '<' or '<='"""
        for x, nm in ((a, {"<": "__lt__", "<=": "__le__"}[op]), (b, {"<": "__gt__", "<=": "__ge__"}[op])):
            if x[0] == "ref" and self.heap[x[1]]["kind"] == "obj":
                g = self.prog.find_method(self.heap[x[1]]["cls"].name, nm)
                if g is not None:
                    return self.truth(self.call_func(g, [x, b if x is a else a], {}))
        ia, ib = self.items(a) if a[0] == "ref" else None, self.items(b) if b[0] == "ref" else None
        if ia is not None and ib is not None:
            for x, y in zip(ia, ib):
                if self.eq(x, y):
                    continue
                return self.less(x, y, "<")
            return len(ia) < len(ib) if op == "<" else len(ia) <= len(ib)
        if a[0] == "ref" or b[0] == "ref":
            raise Opaque("ordering of objects without ordering methods")
        if a[0] == "c" and b[0] == "c":
            try:
                return a[1] < b[1] if op == "<" else a[1] <= b[1]
            except TypeError:
                raise Raised("TypeError")
        if is_c(a) and a[1] is None or is_c(b) and b[1] is None:
            raise Raised("TypeError")
        if a[0] == "t" and b[0] == "t" and a[1] == b[1] == "addr":
            return self.less(a[2], b[2], op)
        return self.sign(a, b, op)

    def contains(self, x, cont):
        hk = self.cfg.get("contains")
        if hk:
            r = hk(self, x, cont)
            if r is not None:
                return r
        it = self.items(cont)
        if it is not None and not (is_c(cont) and isinstance(cont[1], str)):
            return any(self.eq(y, x) for y in it)
        if is_c(cont) and isinstance(cont[1], str) and is_c(x):
            return x[1] in cont[1]
        if cont[0] == "ref" and self.heap[cont[1]]["kind"] == "obj":
            g = self.prog.find_method(self.heap[cont[1]]["cls"].name, "__contains__")
            if g is not None:
                return self.truth(self.call_func(g, [cont, x], {}))
        if cont[0] == "t" and cont[1] == "range" and len(cont) in (3, 4):
            lo, hi = (c(0), cont[2]) if len(cont) == 3 else (cont[2], cont[3])
            return self.sign(lo, x, "<=") and self.sign(x, hi, "<")
        return self.fact(("in", self.freeze(x), self.freeze(cont)))

    # ---- expressions
    def expr(self, e, env, f, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Opaque("too many steps")
        self.cur_f, self.cur_m = f, m
        ty = type(e).__name__
        fn = getattr(self, "x_" + ty, None)
        if fn is None:
            raise Opaque(f"expression {ty}")
        return fn(e, env, f, m)

    def x_Constant(self, e, env, f, m):
        return c(e.value)

    def x_Name(self, e, env, f, m):
        if e.id in env:
            return env[e.id]
        return self.glob(e.id, m)

    def glob(self, name, m):
        r = self.prog.resolve_name(m, name)
        if r is None:
            if hasattr(builtins, name):
                return ("ext", name)
            raise Raised("NameError")
        k = r[0]
        if k == "func":
            return ("fn", r[1], None)
        if k == "class":
            return ("cls", r[1])
        if k == "global":
            mod = r[1]
            gname = r[2] if len(r) > 2 else name
            vals = mod.globals.get(gname, [])
            if len(vals) == 1 and vals[0] is not None:
                key = (mod.name, gname)
                hk = self.cfg.get("global")
                if hk:
                    rr = hk(self, mod, gname)
                    if rr is not None:
                        return rr
                try:
                    return self.expr(vals[0], {}, None, mod)
                except (Raised, Opaque):
                    pass
            return t("global", gname)
        if k == "ext":
            return ("ext", r[1])
        if k == "mod":
            return ("ext", str(r[1]))
        return t("global", name)

    def x_Attribute(self, e, env, f, m):
        d = dotted(e)
        if d:
            hk = self.cfg.get("dotted")
            if hk:
                r = hk(self, d, env, f, m)
                if r is not None:
                    return r
        b = self.expr(e.value, env, f, m)
        return self.getattr(b, e.attr, e)

    def x_Call(self, e, env, f, m):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "logger" and "logger" not in env:
            return NONE
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == "super" and f is not None and f.cls is not None:
            slf = env.get(f.params[0])
            mro = self.heap[slf[1]]["cls"].mro if slf and slf[0] == "ref" else f.cls.mro
            i = mro.index(f.cls) if f.cls in mro else 0
            for k in mro[i + 1:]:
                g = k.methods.get(e.func.attr)
                if g is not None:
                    args, kw = self.args(e, env, f, m)
                    return self.call_func(g, [slf] + args, kw, e)
            if e.func.attr == "__init__":
                return NONE
            raise Opaque("super() call")
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and e.func.id not in env:
            # short-circuit evaluation
            want = e.func.id == "any"
            r = self.comp_iter(e.args[0], env, f, m)
            if r is not None:
                for e2 in r:
                    if self.truth(self.expr(e.args[0].elt, e2, f, m)) == want:
                        return c(want)
                return c(not want)
        fn = self.expr(e.func, env, f, m)
        args, kw = self.args(e, env, f, m)
        return self.call(fn, args, kw, e, env, f, m)

    def args(self, e, env, f, m):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.items(self.expr(a.value, env, f, m))
                if it is None:
                    raise Opaque("*args of an opaque sequence")
                args += it
            else:
                args.append(self.expr(a, env, f, m))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, env, f, m)
            if k.arg is None:
                if v[0] == "ref" and self.heap[v[1]]["kind"] == "dict":
                    for kk, x in self.heap[v[1]]["items"]:
                        kw[kk[1]] = x
                else:
                    raise Opaque("**kwargs of an opaque mapping")
            else:
                kw[k.arg] = v
        return args, kw

    def x_BoolOp(self, e, env, f, m):
        v = NONE
        for i, x in enumerate(e.values):
            v = self.expr(x, env, f, m)
            if i < len(e.values) - 1 and self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def x_UnaryOp(self, e, env, f, m):
        v = self.expr(e.operand, env, f, m)
        if isinstance(e.op, ast.Not):
            return c(not self.truth(v))
        if isinstance(e.op, ast.USub):
            return mul(v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        if is_num(v):
            return c(~v[1])
        return t("inv", self.freeze(v))

    def x_IfExp(self, e, env, f, m):
        return self.expr(e.body if self.truth(self.expr(e.test, env, f, m)) else e.orelse, env, f, m)

    def x_NamedExpr(self, e, env, f, m):
        v = self.expr(e.value, env, f, m)
        env[e.target.id] = v
        return v

    def x_Compare(self, e, env, f, m):
        left = self.expr(e.left, env, f, m)
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, env, f, m)
            if not self.cmp(left, op, right):
                return FALSE
            left = right
        return TRUE

    def cmp(self, a, op, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if a[0] == "ref" and self.heap[a[1]]["kind"] == "obj":
                g = self.prog.find_method(self.heap[a[1]]["cls"].name, "__ne__")
                if g is not None:
                    return self.truth(self.call_func(g, [a, b], {}))
            return not self.eq(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.Lt):
            return self.less(a, b, "<")
        if isinstance(op, ast.LtE):
            return self.less(a, b, "<=")
        if isinstance(op, ast.Gt):
            return self.greater(a, b, ">")
        if isinstance(op, ast.GtE):
            return self.greater(a, b, ">=")
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return not self.contains(a, b)
        raise Opaque("comparison")

    def greater(self, a, b, op):
        if a[0] == "ref" and self.heap[a[1]]["kind"] == "obj":
            g = self.prog.find_method(self.heap[a[1]]["cls"].name, {">": "__gt__", ">=": "__ge__"}[op])
            if g is not None:
                return self.truth(self.call_func(g, [a, b], {}))
        return self.less(b, a, "<" if op == ">" else "<=")

    def x_BinOp(self, e, env, f, m):
        a, b = self.expr(e.left, env, f, m), self.expr(e.right, env, f, m)
        return self.binop(a, e.op, b, e)

    def binop(self, a, op, b, node=None):
        on = type(op).__name__
        hk = self.cfg.get("bin")
        if hk:
            r = hk(self, on, a, b)
            if r is not None:
                return r
        if self.pyval(a)[0] and self.pyval(b)[0]:
            x, y = self.pyval(a)[1], self.pyval(b)[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Mod": lambda: x % y, "Pow": lambda: x ** y if not (isinstance(y, int) and y > 4096) else None,
                     "FloorDiv": lambda: x // y, "Div": lambda: x / y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "LShift": lambda: x << y if y < 4096 else None, "RShift": lambda: x >> y}[on]()
                return self.lift(r)
            except KeyError:
                raise Opaque(on)
            except Exception as ex:
                raise Raised(type(ex).__name__, node=node)
        num = (lambda v: v[0] == "lin" or self.isint(v) or v[0] == "c" and isinstance(v[1], int))
        if on in ("Add", "Sub") and (num(a) or num(b)) and not any(is_c(v) and isinstance(v[1], str) or v[0] == "ref" for v in (a, b)):
            return add(a, b, 1 if on == "Add" else -1)
        if on == "Mult" and is_num(a) and isinstance(a[1], int) and b[0] != "ref":
            return mul(b, a[1])
        if on == "Mult" and is_num(b) and isinstance(b[1], int) and a[0] != "ref":
            return mul(a, b[1])
        if on == "Add" and self.strlike(a) and self.strlike(b):
            return self.concat([a, b])
        if on == "Mod" and is_c(a) and isinstance(a[1], str):
            xs = self.items(b) if b[0] == "ref" and self.heap[b[1]]["kind"] == "tuple" else [b]
            bits = a[1].split("%s")
            if xs is not None and len(bits) == len(xs) + 1 and "%" not in "".join(bits):
                return self.concat([y for i, x in enumerate(bits) for y in ([c(x), self.textof(xs[i])] if i < len(xs) else [c(x)])])
        dn = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(on)
        if a[0] == "ref":
            o = self.heap[a[1]]
            if o["kind"] == "obj" and dn:
                g = self.prog.find_method(o["cls"].name, dn)
                if g is not None:
                    return self.call_func(g, [a, b], {})
            if o["kind"] in ("list", "tuple") and on == "Add" and b[0] == "ref" and self.heap[b[1]]["kind"] == o["kind"]:
                return self.new(o["kind"], o["items"] + self.heap[b[1]]["items"])
        if on in self.SETOPS and a[0] == "ref" and b[0] == "ref" and self.heap[a[1]]["kind"] == "set" and self.heap[b[1]]["kind"] == "set":
            return self.new("set", self.setop(self.SETOPS[on], self.heap[a[1]]["items"], self.heap[b[1]]["items"]))
        for x, y in ((a, b), (b, a)):
            if on == "Mult" and x[0] == "ref" and self.heap[x[1]]["kind"] in ("list", "tuple") and is_num(y) and isinstance(y[1], int) and y[1] < 200:
                return self.new(self.heap[x[1]]["kind"], self.heap[x[1]]["items"] * y[1])
        return t("bin", on, self.freeze(a), self.freeze(b))

    def x_JoinedStr(self, e, env, f, m):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(c(v.value))
            else:
                x = self.expr(v.value, env, f, m)
                if is_c(x) and v.format_spec is None and v.conversion == -1:
                    parts.append(c(str(x[1])))
                else:
                    spec = ast.unparse(v.format_spec) if v.format_spec is not None else None
                    parts.append(t("fmt", self.freeze(x), spec, v.conversion) if spec or v.conversion != -1 else self.textof(x))
        return self.concat(parts)

    def strlike(self, v):
        f = self.cfg.get("isstr")
        return v[0] == "c" and isinstance(v[1], str) or v[0] == "t" and v[1] in ("str", "fstr", "fmt") or bool(f and f(v))

    def concat(self, parts):
        """the text made of the given string-like parts"""
        flat = []
        for p in parts:
            flat.extend(p[2:] if p[:2] == ("t", "fstr") else [p])
        out = []
        for p in flat:
            if is_c(p) and out and is_c(out[-1]):
                out[-1] = c(out[-1][1] + p[1])
            else:
                out.append(p)
        out = [p for p in out if p != c("")]
        if not out:
            return c("")
        if len(out) == 1:
            return out[0]
        return t("fstr", *out)

    def textof(self, v):
        """str(v) as a string-like term"""
        return self.external("str", [v], {}, None) if not self.strlike(v) else v

    def format(self, fmt, args, kw):
        """'..{}..'.format(...) as a concatenation, or None"""
        import string
        out, auto = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(fmt):
                out.append(c(lit))
                if name is None:
                    continue
                if spec or conv:
                    return None
                if name == "":
                    v, auto = args[auto], auto + 1
                elif name.isdigit():
                    v = args[int(name)]
                elif name in kw:
                    v = kw[name]
                else:
                    return None
                out.append(self.textof(v))
        except (IndexError, ValueError):
            return None
        return self.concat(out)

    def x_List(self, e, env, f, m):
        return self.new("list", self.seq(e.elts, env, f, m))

    def x_Tuple(self, e, env, f, m):
        return self.new("tuple", self.seq(e.elts, env, f, m))

    def x_Set(self, e, env, f, m):
        out = []
        for x in self.seq(e.elts, env, f, m):
            if x not in out:
                out.append(x)
        return self.new("set", out)

    def seq(self, elts, env, f, m):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.items(self.expr(x.value, env, f, m))
                if it is None:
                    raise Opaque("star element")
                out += it
            else:
                out.append(self.expr(x, env, f, m))
        return out

    def x_Dict(self, e, env, f, m):
        o = self.new("dict")
        if any(k is None for k in e.keys) and self.cfg.get("dictmerge"):
            parts = [self.expr(v, env, f, m) if k is None else self.freeze(("c", 0)) for k, v in zip(e.keys, e.values)]
            r = self.cfg["dictmerge"](self, parts)
            if r is not None:
                return r
        for k, v in zip(e.keys, e.values):
            if k is None:
                u = self.expr(v, env, f, m)
                if u[0] == "ref" and self.heap[u[1]]["kind"] == "dict":
                    for a, b in list(self.heap[u[1]]["items"]):
                        self.dict_set(self.heap[o[1]], a, b)
                    continue
                raise Opaque("dict unpacking")
            self.dict_set(self.heap[o[1]], self.expr(k, env, f, m), self.expr(v, env, f, m))
        return o

    def x_Lambda(self, e, env, f, m):
        return ("lam", e, Box(env), f, m)

    def comp_iter(self, e, env, f, m):
        """environments of the comprehension's iterations; None when an iterable is opaque"""
        envs = [dict(env)]
        for g in e.generators:
            nxt = []
            for en in envs:
                it = self.items(self.expr(g.iter, en, f, m))
                if it is None:
                    return None
                for x in it:
                    e2 = dict(en)
                    self.bind(g.target, x, e2, f, m)
                    if all(self.truth(self.expr(c_, e2, f, m)) for c_ in g.ifs):
                        nxt.append(e2)
            envs = nxt
        return envs

    def comp(self, e, env, f, m, kind):
        r = self.comp_iter(e, env, f, m)
        if r is not None:
            if kind == "dict":
                o = self.new("dict")
                for e2 in r:
                    self.dict_set(self.heap[o[1]], self.expr(e.key, e2, f, m), self.expr(e.value, e2, f, m))
                return o
            vals = [self.expr(e.elt, e2, f, m) for e2 in r]
            if kind == "set":
                u = []
                for v in vals:
                    if v not in u:
                        u.append(v)
                vals = u
            return self.new("list" if kind == "gen" else kind, vals)
        hk = self.cfg.get("comp")
        if hk:
            r = hk(self, e, env, f, m, kind)
            if r is not None:
                return r
        return self.opaque_comp(e, env, f, m, kind)

    def opaque_comp(self, e, env, f, m, kind):
        """[elt for x in opaque if cond] as a term: the bound variable is a de Bruijn symbol, the condition a nested decision table"""
        if len(e.generators) != 1 or kind == "dict":
            raise Opaque("comprehension over opaque iterables")
        g = e.generators[0]
        it = self.expr(g.iter, env, f, m)
        lvl = self.cfg.setdefault("_lvl", 0)
        self.cfg["_lvl"] = lvl + 1
        try:
            var = ("var", f"#{lvl}")

            def body(ev):
                e2 = dict(env)
                ev.bind(g.target, var, e2, f, m)
                if not all(ev.truth(ev.expr(x, e2, f, m)) for x in g.ifs):
                    return ("skip",)
                return ("elt", ev.freeze(ev.expr(e.elt, e2, f, m)))
            tab = self.subtable(body)
        finally:
            self.cfg["_lvl"] = lvl
        return t("comp", kind, self.freeze(it), tab)

    def subtable(self, body):
        """the decision table of a nested body, as a canonical term"""
        rows = {}
        script = []
        n = 0
        saved = (self.script, self.pos, self.trace, self.facts, list(self.heap))
        import copy
        base = copy.deepcopy(self.facts)
        try:
            while True:
                self.script, self.pos, self.trace = list(script), 0, []
                self.facts = copy.deepcopy(base)
                self.facts.log = []
                self.heap = [dict(o, items=list(o["items"]), fields=dict(o["fields"])) for o in saved[4]]
                try:
                    r = body(self)
                    rows[tuple(self.facts.log)] = r
                except Infeasible:
                    pass
                n += 1
                if n > 200:
                    raise Opaque("nested table too large")
                full = self.script[:self.pos]
                while full and full[-1] is False:
                    full.pop()
                if not full:
                    break
                script = full[:-1] + [False]
        finally:
            self.script, self.pos, self.trace, self.facts, self.heap = saved
        # canonical: the set of (facts -> result)
        return ("table",) + tuple(sorted(((tuple(sorted(k)), v) for k, v in rows.items()), key=repr))

    def x_ListComp(self, e, env, f, m):
        return self.comp(e, env, f, m, "list")

    def x_SetComp(self, e, env, f, m):
        return self.comp(e, env, f, m, "set")

    def x_GeneratorExp(self, e, env, f, m):
        return self.comp(e, env, f, m, "gen")

    def x_DictComp(self, e, env, f, m):
        return self.comp(e, env, f, m, "dict")

    def x_Subscript(self, e, env, f, m):
        b = self.expr(e.value, env, f, m)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = (None if x is None else self.expr(x, env, f, m) for x in (e.slice.lower, e.slice.upper, e.slice.step))
            ok, py = self.pyval(b)
            hk = self.cfg.get("slice")
            if hk:
                r = hk(self, b, lo, hi, st)
                if r is not None:
                    return r
            cs = [x is None or is_c(x) for x in (lo, hi, st)]
            if all(cs):
                sl = slice(*[None if x is None else x[1] for x in (lo, hi, st)])
                if b[0] == "ref" and self.heap[b[1]]["kind"] in ("list", "tuple"):
                    return self.new(self.heap[b[1]]["kind"], self.heap[b[1]]["items"][sl])
                if ok:
                    return c(py[sl])
            return t("slice", self.freeze(b), *[x if x is None else self.freeze(x) for x in (lo, hi, st)])
        i = self.expr(e.slice, env, f, m)
        return self.subscript(b, i, e)

    def subscript(self, b, i, node):
        hk = self.cfg.get("subscript")
        if hk:
            r = hk(self, b, i)
            if r is not None:
                return r
        if b[0] == "ref":
            o = self.heap[b[1]]
            if o["kind"] == "attrs" and is_c(i):
                o = self.heap[o["of"][1]]
                if i[1] in o["fields"]:
                    return o["fields"][i[1]]
                if o["name"] is not None:
                    return t("attr", ("sym", o["name"]), i[1])
                raise Raised("KeyError", node=node)
            if o["kind"] == "dict":
                r = self.dict_get(o, i)
                if r is None:
                    raise Raised("KeyError", node=node)
                return r
            if o["kind"] in ("list", "tuple"):
                if is_num(i):
                    try:
                        return o["items"][i[1]]
                    except IndexError:
                        raise Raised("IndexError", node=node)
                if all(is_c(x) for x in o["items"]):
                    return t("sub", self.freeze(b), self.freeze(i))
                raise Opaque("index of a concrete list")
            if o["kind"] == "obj":
                g = self.prog.find_method(o["cls"].name, "__getitem__")
                if g is not None:
                    return self.call_func(g, [b, i], {})
        if is_c(b) and is_c(i):
            try:
                return c(b[1][i[1]])
            except Exception as ex:
                raise Raised(type(ex).__name__, node=node)
        return t("sub", self.freeze(b), self.freeze(i))

    # ---- statements
    def bind(self, tg, v, env, f, m):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.expr(tg.value, env, f, m), tg.attr, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            it = self.items(v)
            if it is None:
                for i, x in enumerate(tg.elts):
                    self.bind(x, t("sub", self.freeze(v), c(i)), env, f, m)
                return
            if len(it) != len(tg.elts):
                raise Raised("ValueError")
            for x, y in zip(tg.elts, it):
                self.bind(x, y, env, f, m)
        elif isinstance(tg, ast.Subscript):
            b = self.expr(tg.value, env, f, m)
            if isinstance(tg.slice, ast.Slice):
                raise Opaque("slice store")
            i = self.expr(tg.slice, env, f, m)
            hk = self.cfg.get("setitem")
            if hk and hk(self, b, i, v):
                return
            if b[0] == "ref":
                o = self.heap[b[1]]
                if o["kind"] == "attrs" and is_c(i):
                    self.heap[o["of"][1]]["fields"][i[1]] = v
                    return
                if o["kind"] == "dict":
                    self.dict_set(o, i, v)
                    return
                if o["kind"] == "list" and is_num(i):
                    o["items"][i[1]] = v
                    return
            raise Opaque("subscript store")
        else:
            raise Opaque("assignment target")

    def block(self, body, env, f, m):
        for s in body:
            self.stmt(s, env, f, m)

    def stmt(self, s, env, f, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Opaque("too many steps")
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.expr(s.value, env, f, m)
        elif isinstance(s, ast.Return):
            raise _Ret(NONE if s.value is None else self.expr(s.value, env, f, m))
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, env, f, m)
            for tg in s.targets:
                self.bind(tg, v, env, f, m)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.expr(s.value, env, f, m), env, f, m)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            a, b = self.expr(load, env, f, m), self.expr(s.value, env, f, m)
            if a[0] == "ref" and self.heap[a[1]]["kind"] == "list" and isinstance(s.op, ast.Add):
                it = self.items(b)
                if it is None:
                    raise Opaque("+= of an opaque sequence")
                self.heap[a[1]]["items"].extend(it)
                return
            on = type(s.op).__name__
            if on in self.SETOPS and a[0] == "ref" and b[0] == "ref" and self.heap[a[1]]["kind"] == "set" and self.heap[b[1]]["kind"] == "set":
                self.heap[a[1]]["items"][:] = self.setop(self.SETOPS[on], list(self.heap[a[1]]["items"]), self.heap[b[1]]["items"])
                return
            self.bind(s.target, self.binop(a, s.op, b, s), env, f, m)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.expr(s.test, env, f, m)) else s.orelse, env, f, m)
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise self.current_exc or Raised("RuntimeError")
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            d = dotted(e)
            if isinstance(e, ast.Name) and e.id in env:
                raise Raised("Exception", node=s)
            raise Raised((d or "Exception").split(".")[-1], node=s)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.expr(s.test, env, f, m)):
                raise Raised("AssertionError", node=s)
        elif isinstance(s, ast.Try):
            self.try_(s, env, f, m)
        elif isinstance(s, ast.For):
            it = self.expr(s.iter, env, f, m)
            items = self.items(it)
            if items is None:
                self.opaque_for(s, it, env, f, m)
                return
            for x in items:
                self.bind(s.target, x, env, f, m)
                try:
                    self.block(s.body, env, f, m)
                except _Brk:
                    return
                except _Cont:
                    continue
            self.block(s.orelse, env, f, m)
        elif isinstance(s, ast.While):
            for _ in range(200):
                if not self.truth(self.expr(s.test, env, f, m)):
                    self.block(s.orelse, env, f, m)
                    return
                try:
                    self.block(s.body, env, f, m)
                except _Brk:
                    return
                except _Cont:
                    continue
            raise Opaque("unbounded loop")
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Continue):
            raise _Cont()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = ("nested", s, Box(env))
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                env[(a.asname or a.name).split(".")[0]] = ("ext", (s.module + "." if isinstance(s, ast.ImportFrom) and s.module else "") + a.name)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.expr(it.context_expr, env, f, m)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env, f, m)
            self.block(s.body, env, f, m)
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript) and not isinstance(tg.slice, ast.Slice) and self.cfg.get("delitem") and self.cfg["delitem"](self, self.expr(tg.value, env, f, m), self.expr(tg.slice, env, f, m)):
                    pass
                else:
                    raise Opaque("del")
        elif isinstance(s, ast.Match):
            self.match(s, env, f, m)
        else:
            raise Opaque(type(s).__name__)

    def match(self, s, env, f, m):
        v = self.expr(s.subject, env, f, m)

        def ok(p):
            if isinstance(p, ast.MatchValue):
                return self.eq(v, self.expr(p.value, env, f, m))
            if isinstance(p, ast.MatchSingleton):
                return self.is_(v, c(p.value))
            if isinstance(p, ast.MatchOr):
                return any(ok(x) for x in p.patterns)
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    env[p.name] = v
                return True
            raise Opaque("match pattern")
        for cs in s.cases:
            if ok(cs.pattern) and (cs.guard is None or self.truth(self.expr(cs.guard, env, f, m))):
                self.block(cs.body, env, f, m)
                return

    current_exc = None

    def try_(self, s, env, f, m):
        try:
            try:
                self.block(s.body, env, f, m)
            except Raised as r:
                for h in s.handlers:
                    if self.handles(h.type, r.name, m):
                        if h.name:
                            env[h.name] = t("exc", r.name)
                        old = self.current_exc
                        self.current_exc = r
                        try:
                            self.block(h.body, env, f, m)
                        finally:
                            self.current_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, f, m)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, f, m)

    def handles(self, ty, name, m):
        if ty is None:
            return True
        if isinstance(ty, ast.Tuple):
            return any(self.handles(x, name, m) for x in ty.elts)
        d = (dotted(ty) or "?").split(".")[-1]
        return d in self.exc_mro(name)

    EXT = {"AddressValueError": ["AddressValueError", "ValueError", "Exception", "BaseException"], "NetmaskValueError": ["NetmaskValueError", "ValueError", "Exception", "BaseException"]}

    def exc_mro(self, name):
        if name in self.prog.classes:
            out = []
            for k in self.prog.classes[name].mro:
                out.append(k.name)
                for b in k.external_bases:
                    out += self.exc_mro(str(b).split(".")[-1])
            return out
        if name in self.EXT:
            return self.EXT[name]
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            return [k.__name__ for k in b.__mro__]
        return [name, "Exception", "BaseException"]

    # ---- loops over opaque sequences
    def opaque_for(self, s, it, env, f, m):
        """accumulate (x.append under a condition) and search (return / break) loops become the terms a comprehension gives"""
        if s.orelse:
            raise Opaque("for/else over an opaque sequence")
        comp = loop_as_comp(s)
        if comp is None:
            raise Opaque("loop over an opaque sequence")
        kind, name, elt, conds, extra = comp
        e = ast.ListComp(elt=elt, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=conds, is_async=0)])
        ast.fix_missing_locations(ast.copy_location(e, s))
        if kind == "append":
            cur = env.get(name)
            if cur is None or cur[0] != "ref" or self.heap[cur[1]]["kind"] != "list" or self.heap[cur[1]]["items"]:
                raise Opaque("accumulator that is not a fresh list")
            env[name] = self.opaque_comp(e, env, f, m, "list")
            return
        raise Opaque("loop over an opaque sequence")


class Box(list):
    """a hashable-by-identity holder of an environment"""

    def __init__(self, env):
        super().__init__([env])

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def loop_as_comp(s):
    """(kind, accumulator, element, conditions, None) of `for x in it: [if c:] acc.append(e)`"""
    body = [b for b in s.body if not is_log(b) and not isinstance(b, ast.Pass)]
    conds = []
    while True:
        # guard clause: if c: continue
        if body and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
            conds.append(ast.UnaryOp(op=ast.Not(), operand=body[0].test))
            body = body[1:]
            continue
        if len(body) == 1 and isinstance(body[0], ast.If) and all(isinstance(x, (ast.Pass, ast.Continue)) for x in body[0].orelse):
            conds.append(body[0].test)
            body = [b for b in body[0].body if not is_log(b)]
            continue
        break
    if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call):
        cl = body[0].value
        if isinstance(cl.func, ast.Attribute) and cl.func.attr == "append" and isinstance(cl.func.value, ast.Name) and len(cl.args) == 1:
            return ("append", cl.func.value.id, cl.args[0], conds, None)
    return None


def is_log(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[0] == "logger"


def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth > 6:
        return "…"
    k = v[0]
    s = lambda x: show(x, depth + 1)
    if k == "c":
        return repr(v[1])
    if k in ("var", "sym"):
        return str(v[1])
    if k == "lin":
        return "(" + " + ".join([f"{x}*{s(y)}" if x != 1 else s(y) for y, x in v[2]] + ([str(v[1])] if v[1] else [])) + ")"
    if k == "t":
        if v[1] == "attr":
            return f"{s(v[2])}.{v[3]}"
        if v[1] == "sub":
            return f"{s(v[2])}[{s(v[3])}]"
        if v[1] == "call":
            fn = v[2] if isinstance(v[2], str) else s(v[2])
            return f"{fn}({', '.join([s(x) for x in v[3]] + [f'{n}={s(x)}' for n, x in v[4]])})"
        return f"{v[1]}({', '.join(s(x) if isinstance(x, tuple) else repr(x) for x in v[2:])})"
    if k == "truth":
        return f"truth of {s(v[1])}"
    return f"{k}({', '.join(s(x) if isinstance(x, tuple) else repr(x) for x in v[1:])})"


def rows(prog, body, cfg=None, cap=3000):
    """all table rows of body(ev): yields (ev, outcome) with outcome ('ret', v) / ('raise', name)"""
    script = []
    n = 0
    while True:
        ev = Ev(prog, script, dict(cfg or {}))
        try:
            try:
                out = ("ret", body(ev))
            except Raised as r:
                out = ("raise", r.name)
            yield ev, out
        except Infeasible:
            pass
        except _Ret:
            raise Opaque("return outside a function")
        n += 1
        if n > cap:
            raise Opaque(f"more than {cap} table rows")
        full = ev.script[:ev.pos]
        while full and full[-1] is False:
            full.pop()
        if not full:
            return
        script = full[:-1] + [False]


def outcome(ev, thunk):
    """evaluate part of a row: ('ret', frozen value) or ('raise', name)"""
    try:
        return ("ret", ev.freeze(thunk()))
    except Raised as r:
        return ("raise", r.name)


def classes(ev):
    """representatives of the terms a row knows to be equal"""
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x

    def union(a, b):
        a, b = find(a), find(b)
        if a != b:
            if is_c(b) or (not is_c(a) and repr(b) < repr(a)):
                a, b = b, a
            rep[b] = a
    for key, (lo, hi, _) in ev.facts.iv.items():
        if lo is not None and lo == hi:
            if len(key) == 1 and key[0][1] == 1:
                union(key[0][0], c(lo))
            elif len(key) == 2 and {x for _, x in key} == {1, -1} and lo == 0:
                union(key[0][0], key[1][0])
    for x, st in ev.facts.val.items():
        if st[0] == "=":
            union(x, c(st[1][1]))
    for k, b in ev.facts.tr.items():
        if k[0] == "truth" and isinstance(k[1], tuple) and ev.isbool(k[1]):
            union(k[1], c(b))
        if k[0] == "eq" and b and all(isinstance(x, tuple) for x in k[1:]):
            union(k[1], k[2])
    return find


def canon(ev, v, find=None):
    """a value rewritten with the row's equalities (congruence)"""
    find = find or classes(ev)

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "lin":
            acc = c(x[1])
            for k, n in x[2]:
                acc = add(acc, mul(go(k), n))
            return find(acc)
        y = tuple(go(e) for e in x)
        if y and isinstance(y[0], str):
            return find(y)
        return y
    prev = None
    v = ev.freeze(v)
    for _ in range(6):
        if v == prev:
            break
        prev, v = v, go(v)
    return v


def feasible(ev):
    """no two facts of the row contradict each other under the row's equalities"""
    tr, iv, val = {}, {}, {}
    find = classes(ev)
    for k, b in ev.facts.tr.items():
        kk = canon(ev, k, find) if k[0] != "truth" else ("truth", canon(ev, k[1], find))
        if kk[0] == "eq" and b is False and len(kk) == 3 and kk[1] == kk[2]:
            return False
        if kk[0] == "eq" and len(kk) == 3:
            kk = ("eq",) + tuple(sorted(kk[1:], key=repr))
        if tr.setdefault(kk, b) != b:
            return False
    for key, (lo, hi, ex) in ev.facts.iv.items():
        acc = c(0)
        for a, x in key:
            acc = add(acc, mul(canon(ev, a, find), x))
        k0, d = lin(acc)
        if not isinstance(k0, (int, float)):
            continue
        items, s, _ = ev.norm((0, d))
        lo, hi = (None if lo is None else lo - k0), (None if hi is None else hi - k0)
        ex = {e - k0 for e in ex}
        if not items:
            if lo is not None and lo > 0 or hi is not None and hi < 0 or 0 in ex:
                return False
            continue
        if s == -1:
            lo, hi, ex = (None if hi is None else -hi), (None if lo is None else -lo), {-e for e in ex}
        l2, h2, e2 = iv.get(items, (None, None, set()))
        lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
        hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        ex = ex | e2
        iv[items] = (lo, hi, ex)
        if lo is not None and hi is not None and (lo > hi or lo == hi and lo in ex):
            return False
    for x, st in ev.facts.val.items():
        y = canon(ev, x, find)
        if is_c(y) and st[0] == "!" and (type(y[1]).__name__, y[1]) in st[1]:
            return False
        if st[0] == "=":
            if val.setdefault(y, st[1]) != st[1]:
                return False
    return True
