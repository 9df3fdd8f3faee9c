"""What becomes of a caller's pattern: an interpreter over terms.

A search helper is walked once for every combination of its yes/no options.
The value of an expression is a term: a caller's pattern with what was done to
it, a set of line objects with where they come from, the text of one of those.
Every use of a pattern by the regular-expression engine is an event.  A list is
represented by the term of its elements; package functions are walked in place.

  ("p", name)      the caller's parameter          ("st", t)  white-space tolerant
  ("esc", t)       re.escape                       ("ex", t)  ^(?:t)$
  ("tpl", s)       any other text built from it    ("re", t, flags) compiled
  ("lines",)       every line                      ("kid"|"akid"|"anc", o) relatives
  ("self",)        the line itself                 ("found", name, o) those that match
  ("text", o)      the text of a line              ("dna", o)
  ("chg", t, how)  a text changed on the way       ("c", v)   a constant
  ("or", ...)      one of several
"""
import ast
import itertools

from .srcmodel import dotted
from .walk import Walk
from .edits import self_call

NEUTRAL = {"dict", "list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "str", "bool", "enumerate"}
ENGINE = {"search", "match", "fullmatch", "finditer", "findall", "sub", "subn", "split"}
RELATIVES = {"children": "kid", "all_children": "akid", "parent": "anc", "all_parents": "anc", "geneology": "anc", "lineage": "anc", "siblings": "kid"}
MAXDEPTH = 7


def alts(t):
    return t[1:] if t is not None and t[0] == "or" else (t,)


def union(*ts):
    xs = []
    for t in ts:
        if t is None:
            continue
        for a in alts(t):
            if a != ("empty",) and a not in xs:
                xs.append(a)
    if not xs:
        return ("empty",) if any(t == ("empty",) for t in ts) else None
    return xs[0] if len(xs) == 1 else ("or",) + tuple(sorted(xs, key=repr)[:6])


def roots(t):
    """caller parameters a term is made of"""
    if not isinstance(t, tuple):
        return set()
    if t[:1] == ("p",):
        return {t[1]}
    if t[:1] == ("tpl",):
        return set(t[2])
    if t[:1] == ("found",):
        return set()
    return set().union(*[roots(x) for x in t[1:]]) if len(t) > 1 else set()


def is_obj(t):
    return t is not None and t[0] in ("lines", "kid", "akid", "anc", "self", "found")


def spaces(e):
    """re.sub(): a constant pattern that matches a blank, replaced by a text that says \\s+"""
    if len(e.args) < 3 or not isinstance(e.args[0], ast.Constant) or not isinstance(e.args[0].value, str):
        return False
    import re
    try:
        if not re.search(e.args[0].value, "a b") or re.sub(e.args[0].value, "", "ab") != "ab":
            return False
    except re.error:
        return False
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) and "\\s+" in x.value for x in ast.walk(e.args[1]))


class Event(tuple):
    """(op, pattern term, target term, flags term, function qual, line)"""


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.events = set()
        self.odd = set()
        self.memo = {}
        self.budget = 0

    def operation(self, f, combo):
        """events and result of a function under truth values for its options"""
        self.events, self.odd, self.memo = set(), set(), {}
        self.budget = 400
        env = {}
        a = f.node.args
        self.optional = {x.arg for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and d.value is None}
        for i, p in enumerate(f.params):
            if i == 0 and f.kind == "method":
                env[p] = ("self",) if self.prog.is_subclass(f.cls.name, "BaseCfgLine") else ("cfg",) if not self.prog.is_subclass(f.cls.name, "ConfigList") else ("lines",)
            elif p in combo:
                env[p] = ("c", combo[p])
            else:
                env[p] = ("p", p)
        r = self.call_function(f, env, 0)
        return self.events, r

    def call_function(self, f, env, depth):
        key = (f.qual, tuple(sorted(env.items(), key=repr)))
        if key in self.memo:
            return self.memo[key]
        if depth > MAXDEPTH or self.budget <= 0:
            self.odd.add(f"{f.qual}: too deep")
            return None
        self.budget -= 1
        self.memo[key] = None
        w = Terms(self, f, depth)
        st = frozenset({(frozenset(), frozenset(env.items()))})
        for p, t in env.items():
            if t is not None and t[0] == "c" and isinstance(t[1], bool):
                st = w.fact(st, p, t[1], {p})
            elif t is not None and t[0] == "c" and t[1] is None:
                st = w.fact(st, f"{p} is None", True, {p})
                st = w.fact(st, p, False, {p})
            elif t is not None and t[0] == "p" and t[1] in self.optional:
                continue
            elif t is not None and t[0] in ("p", "st", "ex", "esc", "tpl", "lines", "kid", "akid", "anc", "self", "found"):
                st = w.fact(st, f"{p} is None", False, {p})
                st = w.fact(st, p, True, {p})
        from .srcmodel import strip_doc
        out = w.block(strip_doc(f.node.body), st)
        rs = []
        for s, node in w.returns:
            if isinstance(node, ast.Return) and node.value is not None:
                for facts, val in s:
                    w.cur = facts
                    rs.append(w.T(node.value, dict(val)))
        self.memo[key] = union(*rs) if rs else None
        return self.memo[key]


def diagnostic(body):
    """statements that only report"""
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ((dotted(s.value.func) or "").split(".")[0] in ("logger", "warnings", "logging") or dotted(s.value.func) == "print"):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and all(t.id in ("msg", "message", "error", "err", "err_txt", "err_text", "warning", "method_name") for t in s.targets):
            continue
        if isinstance(s, ast.If) and diagnostic(s.body) and diagnostic(s.orelse):
            continue
        return False
    return True


class Terms(Walk):
    def __init__(self, eng, f, depth):
        super().__init__(f.node)
        self.eng, self.f, self.depth = eng, f, depth
        self.cur = frozenset()

    # -- Walk plumbing: the environment is the value
    def expr(self, e, st):
        if e is None:
            return st
        out = set()
        for facts, v in st:
            self.cur = facts
            env = dict(v)
            self.T(e, env)
            out.add((facts, frozenset(env.items())))
        return frozenset(out)

    def stmt(self, s, st):
        if isinstance(s, ast.If) and diagnostic(s.body) and diagnostic(s.orelse):
            return st
        return super().stmt(s, st)

    def assume(self, st, test, truth):
        return super().assume(st, test, truth)

    def mapv(self, st, fn):
        out = set()
        for facts, v in st:
            self.cur = facts
            for w in fn(v):
                out.add((facts, w))
        return frozenset(out)

    def store(self, t, s, val):
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(s, ast.Assign):
            # an entry of a mapping stands for all of them
            env = dict(val)
            new = self.T(s.value, env)
            if roots(new):
                env[t.value.id] = union(env.get(t.value.id), new)
            return (frozenset(env.items()),)
        if not isinstance(t, ast.Name):
            return (val,)
        env = dict(val)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            env2 = {}
            self.bind_target(s.target, s.iter, env, env2)
            env[t.id] = env2.get(t.id)
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None:
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Tuple) for x in s.targets):
                tt = next(x for x in s.targets if isinstance(x, ast.Tuple))
                env[t.id] = None
                if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(tt.elts):
                    for a, b in zip(tt.elts, s.value.elts):
                        if isinstance(a, ast.Name) and a.id == t.id:
                            env[t.id] = self.T(b, env)
            else:
                env[t.id] = self.T(s.value, env)
        elif isinstance(s, ast.AugAssign):
            old = env.get(t.id)
            new = self.T(s.value, env)
            if isinstance(s.op, ast.Add) and (roots(old) or roots(new)) and not is_obj(old):
                env[t.id] = self.text_of([old, new])
            else:
                env[t.id] = union(old, new)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            env[t.id] = None
        else:
            env[t.id] = None
        return (frozenset(env.items()),)

    # -- facts
    def known(self, test):
        """truth of a condition on this path, if known"""
        st = frozenset({(self.cur, None)})
        if not self.assume(st, test, True):
            return False
        if not self.assume(st, test, False):
            return True
        return None

    # -- binding
    def bind_target(self, tgt, it, env, out):
        if isinstance(tgt, ast.Name):
            out[tgt.id] = self.T(it, env)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            nm = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
            for x in ast.walk(tgt):
                if isinstance(x, ast.Name):
                    out[x.id] = None
            if nm == "enumerate" and it.args and len(tgt.elts) == 2:
                self.bind_target(tgt.elts[1], it.args[0], env, out)
            elif nm == "zip" and len(tgt.elts) == len(it.args):
                for a, b in zip(tgt.elts, it.args):
                    self.bind_target(a, b, env, out)
            else:
                self.T(it, env)

    # -- texts built from patterns
    def text_of(self, pieces):
        """pieces: str or term"""
        if any(x is None for x in pieces):
            rs = set().union(*[roots(x) for x in pieces if isinstance(x, tuple)])
            return ("tpl", "?", tuple(sorted(rs))) if rs else None
        flat = []
        for x in pieces:
            if isinstance(x, tuple) and x[0] == "c":
                x = str(x[1])
            if isinstance(x, str) and flat and isinstance(flat[-1], str):
                flat[-1] += x
            else:
                flat.append(x)
        flat = [x for x in flat if x != ""]
        terms = [x for x in flat if isinstance(x, tuple)]
        if not terms:
            return ("c", "".join(flat))
        if len(flat) == 1:
            return flat[0]
        if len(terms) == 1 and len(flat) == 3 and terms[0][0] != "or" and not is_obj(terms[0]) and roots(terms[0]):
            if (flat[0], flat[2]) in (("^(?:", ")$"), (r"\A(?:", r")\Z"), ("^(?:", r")\Z"), (r"\A(?:", ")$")) and isinstance(flat[1], tuple):
                return ("ex", terms[0])
            if (flat[0], flat[2]) == ("(?:", ")") and isinstance(flat[1], tuple):
                return terms[0]
        if len(terms) == 1 and terms[0][0] == "or":
            return union(*[self.text_of([a if x is terms[0] else x for x in flat]) for a in alts(terms[0])])
        rs = set().union(*[roots(x) for x in terms])
        if not rs:
            return None
        return ("tpl", "".join(x if isinstance(x, str) else "{" + "/".join(sorted(roots(x))) + "}" for x in flat), tuple(sorted(rs)))

    # -- the engine is given a pattern
    def use(self, op, pat, target, flags, node):
        for p in alts(pat) if pat is not None else ():
            if p[0] == "re":
                flags = p[2] if len(p) > 2 and p[2] is not None else flags
                p = p[1]
            if not roots(p):
                if p[0] in ("text", "chg", "dna"):
                    # a line's text as the pattern, a caller's pattern as the text
                    for t in alts(target) if target is not None else ():
                        if t is not None and t[0] in ("p", "st", "esc", "ex"):
                            self.eng.events.add(Event(("swapped", t, p, None, self.f.qual, getattr(node, "lineno", 0))))
                continue
            for t in alts(target) if target is not None else (None,):
                self.eng.events.add(Event((op, p, t, flags, self.f.qual, getattr(node, "lineno", 0))))

    def matched(self, pat):
        for p in alts(pat) if pat is not None else ():
            if p[0] == "re":
                p = p[1]
            r = roots(p)
            if len(r) == 1:
                return next(iter(r))
        return None

    # -- terms
    def T(self, e, env):
        m = getattr(self, "t_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.T(ch, env)
        return None

    def t_Constant(self, e, env):
        return ("c", e.value)

    def t_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        try:
            v = self.eng.prog.const(self.f.module, e)
        except ValueError:
            return None
        return ("c", v) if isinstance(v, (str, int, bool)) else None

    def t_Starred(self, e, env):
        return self.T(e.value, env)

    def t_Tuple(self, e, env):
        ts = [self.T(x, env) for x in e.elts]
        if not ts:
            return ("empty",)
        return union(*ts)

    t_List = t_Set = t_Tuple

    def t_Attribute(self, e, env):
        d = dotted(e)
        if d and d.startswith("re.") and d.split(".")[-1].isupper():
            return ("c", d)
        b = self.T(e.value, env)
        if b is None:
            return None
        return union(*[self.attr(x, e.attr, e) for x in alts(b)])

    def attr(self, b, a, node):
        if b is None:
            return None
        if b[0] == "cfg":
            if a in ("ConfigObjs", "objs", "_list"):
                return ("lines",)
            if a == "ioscfg" or a == "text":
                return ("text", ("lines",))
            return None
        if b == ("lines",) and a in ("ioscfg",):
            return ("text", ("lines",))
        if b == ("lines",) and a in ("_list", "data"):
            return b
        if is_obj(b):
            if a in ("text", "_text"):
                return ("text", b)
            if a == "dna":
                return ("dna", b)
            if a == "ioscfg":
                return ("text", union(b, ("akid", b)))
            if a in RELATIVES:
                # relatives of a relative: keep the shape small
                base = b
                if b[0] in ("kid", "akid", "anc") and b[1] and b[1][0] in ("kid", "akid", "anc"):
                    base = b[1]
                return (RELATIVES[a], base)
            if a in ("confobj", "ccp_ref"):
                return ("lines",) if a == "confobj" else ("cfg",)
            return None
        if b[0] in ("p", "st", "esc", "ex", "tpl"):
            if a in ("text", "_text", "pattern"):
                return b
        if b[0] == "re" and a == "pattern":
            return b[1]
        return None

    def t_JoinedStr(self, e, env):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            elif isinstance(v, ast.FormattedValue):
                t = self.T(v.value, env)
                ps.append(t if v.format_spec is None and v.conversion in (-1, 115) else None)
        return self.text_of(ps)

    def t_BinOp(self, e, env):
        if isinstance(e.op, ast.Add) and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.Add):
            # a sum of texts is one text
            parts, x = [e.right], e.left
            while isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                parts.append(x.right)
                x = x.left
            ts = [self.T(p, env) for p in [x] + parts[::-1]]
            if any(is_obj(t) for t in ts):
                return union(*ts)
            return self.text_of(ts) if any(roots(t) for t in ts) else None
        l, r = self.T(e.left, env), self.T(e.right, env)
        if isinstance(e.op, ast.Add):
            if is_obj(l) or is_obj(r):
                return union(l, r)
            if roots(l) or roots(r):
                return self.text_of([l, r])
            return None
        if isinstance(e.op, ast.Mod) and l is not None and l[0] == "c" and isinstance(l[1], str):
            args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            bits = l[1].split("%s")
            if len(bits) == len(args) + 1 and "%" not in "".join(bits).replace("%%", ""):
                ps = [bits[0]]
                for a, b in zip(args, bits[1:]):
                    ps += [self.T(a, env), b]
                return self.text_of(ps)
            return self.text_of([None, r])
        if isinstance(e.op, ast.BitOr):
            return union(l, r) if l != r else l
        return self.text_of([None, l, r]) if roots(l) | roots(r) else None

    def t_IfExp(self, e, env):
        self.T(e.test, env)
        k = self.known(e.test)
        if k is True:
            return self.T(e.body, env)
        if k is False:
            return self.T(e.orelse, env)
        return union(self.T(e.body, env), self.T(e.orelse, env))

    def t_BoolOp(self, e, env):
        out = []
        saved = self.cur
        for i, v in enumerate(e.values):
            out.append(self.T(v, env))
            k = self.known(v)
            if k is (not isinstance(e.op, ast.And)):
                break
        self.cur = saved
        return union(*[x for x in out if x is not None and x[0] != "c"]) if any(x is not None for x in out) else None

    def t_Compare(self, e, env):
        ts = [self.T(e.left, env)] + [self.T(c, env) for c in e.comparators]
        # re.search(...) is not None
        return ts[0] if ts[0] is not None and ts[0][0] == "hit" else None

    def t_UnaryOp(self, e, env):
        t = self.T(e.operand, env)
        return ("nohit",) + t[1:] if isinstance(e.op, ast.Not) and t is not None and t[0] == "hit" else None

    def t_Subscript(self, e, env):
        b = self.T(e.value, env)
        self.T(e.slice, env)
        if b is not None and b[0] == "text" and isinstance(e.slice, ast.Slice):
            return ("chg", b, f"[{ast.unparse(e.slice)}]")
        if b is not None and b[0] == "p" and isinstance(e.slice, ast.Slice) and e.slice.lower is not None and not b[1].endswith("+"):
            # the specifications after the first
            return ("p", b[1] + "+")
        return b

    def t_Slice(self, e, env):
        return None

    def t_Lambda(self, e, env):
        return ("lambda", e)

    def t_NamedExpr(self, e, env):
        env[e.target.id] = self.T(e.value, env)
        return env[e.target.id]

    def t_Await(self, e, env):
        return self.T(e.value, env)

    def comp(self, e, env, elt):
        env2 = dict(env)
        got = None
        for g in e.generators:
            out = {}
            self.bind_target(g.target, g.iter, env2, out)
            env2.update(out)
            for c in g.ifs:
                h = self.T(c, env2)
                if h is not None and h[0] in ("hit", "nohit") and h[1] and isinstance(g.target, ast.Name) and is_obj(env2.get(g.target.id)):
                    if h[0] == "hit":
                        env2[g.target.id] = ("found", h[1], base(env2[g.target.id]))
        for x in elt:
            got = self.T(x, env2)
        return got

    def t_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    t_GeneratorExp = t_SetComp = t_ListComp

    def t_DictComp(self, e, env):
        self.comp(e, env, [e.key, e.value])
        return None

    def t_Call(self, e, env):
        fn = e.func
        d = dotted(fn)
        if isinstance(fn, ast.Name) and fn.id in NEUTRAL:
            ts = [self.T(a, env) for a in e.args]
            for k in e.keywords:
                self.T(k.value, env)
            if not e.args:
                return ("empty",) if fn.id not in ("str", "bool") else ("c", fn.id == "bool" and False)
            if fn.id == "bool" and ts[0] is not None and ts[0][0] not in ("hit", "nohit"):
                return None if ts[0][0] != "c" else ("c", bool(ts[0][1]))
            return ts[0]
        if isinstance(fn, ast.Name) and fn.id == "filter" and len(e.args) == 2:
            src = self.T(e.args[1], env)
            h = self.apply(e.args[0], [src], env)
            if h is not None and h[0] == "hit" and is_obj(src):
                return ("found", h[1], base(src)) if h[1] else src
            return src
        if isinstance(fn, ast.Name) and fn.id == "map" and len(e.args) == 2:
            src = self.T(e.args[1], env)
            return self.apply(e.args[0], [src], env)
        if isinstance(fn, ast.Name) and fn.id in ("any", "all", "next") and e.args:
            ts = [self.T(a, env) for a in e.args]
            return ts[0]
        # the regular-expression module
        if d and d.startswith("re.") and d.count(".") == 1:
            return self.re_call(d[3:], e, env)
        if isinstance(fn, ast.Attribute):
            recv = self.T(fn.value, env)
            r = self.method(e, fn, recv, env)
            if r is not NotImplemented:
                return r
        return self.package(e, env)

    def re_call(self, op, e, env):
        kw = {k.arg: self.T(k.value, env) for k in e.keywords if k.arg}
        pos = [self.T(a, env) for a in e.args]
        pat = pos[0] if pos else kw.get("pattern")
        if op == "escape":
            return None if pat is None else union(*[("esc", x) for x in alts(pat)]) if roots(pat) else pat
        if op == "compile":
            fl = pos[1] if len(pos) > 1 else kw.get("flags")
            if pat is None or not roots(pat):
                return None
            return union(*[x if x[0] == "re" else ("re", x, fl) for x in alts(pat)])
        if op in ENGINE:
            n = 2 if op in ("sub", "subn") else 1
            target = pos[n] if len(pos) > n else kw.get("string")
            fi = {"sub": 4, "subn": 4, "split": 3}.get(op, 2)
            fl = pos[fi] if len(pos) > fi else kw.get("flags")
            if op == "sub" and spaces(e) and target is not None and roots(target):
                # runs of white space become \\s+
                return union(*[("st", x) for x in alts(target)])
            self.use(op, pat, target, fl, e)
            return ("hit", self.matched(pat)) if op not in ("sub", "subn", "split") else None
        return None

    def method(self, e, fn, recv, env):
        if recv is not None and any(x is not None and x[0] == "re" for x in alts(recv)) and fn.attr in ENGINE:
            pos = [self.T(a, env) for a in e.args]
            kw = {k.arg: self.T(k.value, env) for k in e.keywords if k.arg}
            n = 1 if fn.attr in ("sub", "subn") else 0
            self.use(fn.attr, recv, pos[n] if len(pos) > n else kw.get("string"), None, e)
            return ("hit", self.matched(recv)) if n == 0 else None
        if fn.attr in ("append", "add", "update", "extend", "insert") and isinstance(fn.value, ast.Name) and fn.value.id in env and not is_listlike(recv):
            ts = [self.T(a, env) for a in e.args]
            env[fn.value.id] = union(recv, ts[-1]) if ts else recv
            return ("c", None)
        if fn.attr == "format" and recv is not None and recv[0] == "c" and isinstance(recv[1], str):
            import string
            ps, auto = [], 0
            try:
                for lit, name, spec, conv in string.Formatter().parse(recv[1]):
                    ps.append(lit)
                    if name is None:
                        continue
                    if name == "":
                        name, auto = str(auto), auto + 1
                    if name.isdigit() and int(name) < len(e.args):
                        t = self.T(e.args[int(name)], env)
                    else:
                        t = next((self.T(k.value, env) for k in e.keywords if k.arg == name), None)
                    ps.append(t if not spec and not conv else None)
            except ValueError:
                return None
            return self.text_of(ps)
        if fn.attr == "join" and recv is not None and recv[0] == "c":
            ts = [self.T(a, env) for a in e.args]
            if e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
                xs = [self.T(x, env) for x in e.args[0].elts]
                ps = []
                for i, x in enumerate(xs):
                    ps += ([recv[1]] if i else []) + [x]
                return self.text_of(ps)
            return self.text_of([None] + ts) if any(roots(t) for t in ts) else None
        if fn.attr in ("copy",) and recv is not None:
            return recv
        if fn.attr == "get" and recv is not None and recv[0] == "p" and recv[1] == "kwargs":
            for a in e.args:
                self.T(a, env)
            return None
        if recv is not None and recv[0] in ("p", "st", "esc", "ex", "tpl") and fn.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "casefold"):
            for a in e.args:
                self.T(a, env)
            return ("tpl", "{" + "/".join(sorted(roots(recv))) + "}." + fn.attr + "()", tuple(sorted(roots(recv))))
        if recv is not None and recv[0] in ("text", "dna", "chg") and fn.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "split", "expandtabs", "casefold", "title"):
            for a in e.args:
                self.T(a, env)
            if fn.attr == "rstrip" and not e.args:
                return recv        # a line's text never ends in white space
            return ("chg", recv, fn.attr)
        return NotImplemented

    def apply(self, f, args, env):
        if isinstance(f, ast.Lambda):
            env2 = dict(env)
            for a, t in zip(f.args.args, args):
                env2[a.arg] = t
            return self.T(f.body, env2)
        if isinstance(f, ast.Attribute) and f.attr in ENGINE:
            recv = self.T(f.value, env)
            if recv is not None and recv[0] == "re":
                self.use(f.attr, recv, args[0], None, f)
                return ("hit", self.matched(recv))
        if isinstance(f, ast.Call) and (dotted(f.func) or "").split(".")[-1] == "partial" and f.args and (dotted(f.args[0]) or "").startswith("re."):
            pos = [self.T(a, env) for a in f.args[1:]]
            if len(pos) == 1:
                self.use(dotted(f.args[0])[3:], pos[0], args[0], None, f)
                return ("hit", self.matched(pos[0]))
        if isinstance(f, ast.Name):
            g = self.f.nested.get(f.id) or (self.f.outer.nested.get(f.id) if self.f.outer else None)
            if g is not None:
                return self.enter(g, dict(zip(g.params, args)), env)
        self.T(f, env)
        return None

    def package(self, e, env):
        fn = e.func
        prog = self.eng.prog
        g, recv = None, None
        if isinstance(fn, ast.Name):
            g = self.f.nested.get(fn.id) or (self.f.outer.nested.get(fn.id) if self.f.outer else None)
            if g is None:
                r = prog.resolve_name(self.f.module, fn.id)
                g = r[1] if r and r[0] == "func" else None
            if g is not None and g.name == "build_space_tolerant_regex":
                ts = [self.T(a, env) for a in e.args] + [self.T(k.value, env) for k in e.keywords]
                t = ts[0] if ts else None
                return union(*[("st", x) for x in alts(t)]) if t is not None and roots(t) else t
            if isinstance(env.get(fn.id), tuple) and env[fn.id] and env[fn.id][0] == "lambda":
                return self.apply(env[fn.id][1], [self.T(a, env) for a in e.args], env)
        elif isinstance(fn, ast.Attribute):
            recv = self.T(fn.value, env)
            own = self_call(prog, self.f, e)
            if own is not None:
                g = own
                if recv is None:
                    recv = env.get(self.f.params[0]) if self.f.params else None
            elif recv is not None:
                cands = set()
                for x in alts(recv):
                    cn = "CiscoConfParse" if x is not None and x[0] == "cfg" else "ConfigList" if x == ("lines",) and prog.find_method("ConfigList", fn.attr) and self.listlike(fn.value) else "BaseCfgLine" if is_obj(x) else None
                    m = prog.find_method(cn, fn.attr) if cn else None
                    cands.add(m)
                if len(cands) == 1:
                    g = cands.pop()
        pos = [(a, self.T(a, env)) for a in e.args]
        kws = {k.arg: self.T(k.value, env) for k in e.keywords}
        if g is None:
            # an unknown function given a pattern
            if any(roots(t) for _, t in pos) or any(roots(t) for t in kws.values()):
                nm = (d.split(".")[-1] if (d := dotted(fn)) else "?")
                if nm not in ("isinstance", "len", "type", "enforce_valid_types", "info", "debug", "warning", "error", "critical", "print", "hasattr", "getattr", "range", "get", "deepcopy", "copy", "InvalidParameters", "ValueError", "result_type", "zip", "is_not", "startswith", "endswith", "issubclass", "callable", "repr", "id", "partial"):
                    self.eng.odd.add(f"{self.f.qual}: {nm}()")
            return None
        b = {}
        ps = list(g.params)
        if g.cls is not None and g.kind == "method" and ps:
            b[ps[0]] = recv
            ps = ps[1:]
        for p, (a, t) in zip(ps, pos):
            b[p] = t
        for k, t in kws.items():
            if k in ps:
                b[k] = t
        a = g.node.args
        for arg, dv in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
            if arg.arg not in b:
                b[arg.arg] = ("c", dv.value) if isinstance(dv, ast.Constant) else ("empty",) if isinstance(dv, (ast.Tuple, ast.List)) and not dv.elts else None
        for p in ps:
            b.setdefault(p, None)
        return self.enter(g, b, env)

    def listlike(self, e):
        """the receiver is the list of lines itself, not one line taken from it"""
        if isinstance(e, ast.Name):
            return self.f.params[:1] == [e.id] and self.f.cls is not None and self.eng.prog.is_subclass(self.f.cls.name, "ConfigList")
        return isinstance(e, ast.Attribute) and e.attr in ("ConfigObjs", "confobj", "objs", "_list")

    def enter(self, g, b, env):
        if not relevant(b):
            return None
        if g.outer is self.f or g.outer is not None and g.outer is self.f.outer:
            b = {**{k: v for k, v in env.items()}, **b}
        return self.eng.call_function(g, b, self.depth + 1)


def relevant(b):
    return any(t is not None and (roots(t) or is_obj(t) or t[0] == "cfg") for t in b.values())


def is_listlike(t):
    return False


def base(o):
    """where found objects were looked for"""
    return o[2] if o is not None and o[0] == "found" else o


def option_params(f):
    """yes/no options: parameters whose default is a bool"""
    a = f.node.args
    out = []
    for arg, dv in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
        if isinstance(dv, ast.Constant) and isinstance(dv.value, bool):
            out.append(arg.arg)
    return out


def combos(opts, only):
    opts = [o for o in opts if o in only]
    for vals in itertools.product((False, True), repeat=len(opts)):
        yield dict(zip(opts, vals))
