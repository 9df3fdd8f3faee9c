"""C10: every accepted option takes effect in every variant."""
import ast

from ..edits import self_call
from ..opts import Engine, diagnostic, roots
from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted
from ..walk import Walk
from .c11 import BAD as _B, EX as EX11, CLASSES, NOT_A_PATTERN, PATTERNS, PREFIXES, PRIMARY, layers, name, walk

# accepted without effect by design
IDLE = {"debug", "allow_none", "_unknown_arg"}
EXCLUDERS = ("excludespec", "ignore_rgx", "uncfgspec")
EXEMPT = {("ConfigList", "insert_before_deprecated")}
VALIDATORS = {"enforce_valid_types", "isinstance", "type", "issubclass"}
WHAT = {"st": ("ignore_ws", "white-space tolerant"), "esc": ("escape_chars", "escaped"), "ex": ("exactmatch", "anchored at both ends")}


# the documentation starts counting later than the number after the default
FIRST = {("BaseCfgLine", "append_to_family"): 1}
LEGACY = {"sync_diff", "req_cfgspec_all_diff", "req_cfgspec_excl_diff", "iter_with_comments", "iter_no_comments"}


def options(f):
    """optional parameters of a call"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    return [x.arg for x in pos[len(pos) - len(a.defaults):]] + [x.arg for x in a.kwonlyargs]


def operations(prog):
    for cn in CLASSES:
        for n, g in sorted(prog.classes[cn].methods.items()):
            if (n.startswith(PREFIXES + ("append", "prepend")) or n in LEGACY) and (cn, n) not in EXEMPT:
                yield g


# -- patterns under the yes/no options -----------------------------------------
def patterns(prog, res):
    eff = {}
    for g, ps, c, ev, ret, odd in walk(prog, res):
        res.count("option combinations")
        desc = ", ".join(f"{k}={v}" for k, v in c.items())
        for op, pat, target, flags, fq, line in sorted(ev, key=repr):
            ls, core = layers(pat)
            rs = {name(r) for r in roots(pat)}
            if not rs & set(ps) or core[0] == "tpl" and core[1] == "?" or op == "swapped":
                continue
            who = "/".join(sorted(rs))
            where = f"{g.module.rel}:{line}"
            anchored = "ex" in ls or op == "fullmatch" or core[0] == "tpl" and core[1].startswith("^") and core[1].endswith("$")
            for lay, (opt, what) in WHAT.items():
                has = anchored if lay == "ex" else lay in ls
                if who in EXCLUDERS or core[0] == "tpl" and lay != "ex":
                    continue
                if lay == "ex" and (op in ("sub", "subn") or who not in PRIMARY):
                    continue
                want = c.get(opt, False)
                if want and not has:
                    res.add(f"{g.qual}|{who}|{opt}", f"{g.qual} with {desc}: {who} is not {what} when matched in {fq}", where)
                elif has and not want:
                    if opt in c:
                        res.add(f"{g.qual}|{who}|{opt}", f"{g.qual} with {desc}: {who} is {what} in {fq} though the option is off", where)
                    else:
                        res.add(f"{g.qual}|{who}|{opt}", f"{g.qual}: {who} is always {what} in {fq}", where)
            if "regex_flags" in g.params and flags != ("p", "regex_flags") and (flags is None or flags[0] == "c"):
                res.add(f"{g.qual}|{who}|regex_flags", f"{g.qual} matches {who} in {fq} without the caller's regex_flags", where)
        for opt in ("recurse", "all_children"):
            if opt in c:
                kinds = set()
                for e in ev:
                    kinds |= levels(e[2])
                for k in kinds & {"kid", "akid"}:
                    if (k == "akid") != c[opt]:
                        res.add(f"{g.qual}|{opt}", f"{g.qual} with {desc} examines {'all descendants' if k == 'akid' else 'direct children only'}", g.loc())


def levels(t):
    out = set()
    while isinstance(t, tuple) and t:
        out.add(t[0])
        if t[0] == "or":
            for x in t[1:]:
                out |= levels(x)
            return out
        t = t[2] if t[0] == "found" and len(t) > 2 else t[1] if len(t) > 1 else None
    return out


# -- every option is used --------------------------------------------------------
def uses(f):
    """names read outside of diagnostics and validation"""
    out = {}

    def visit(n):
        if isinstance(n, ast.If) and diagnostic(n.body) and diagnostic(n.orelse):
            return
        if isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.If) and not n.orelse and n.body and isinstance(n.body[-1], ast.Raise) and diagnostic(n.body[:-1]):
            # a guard that only rejects
            for x in ast.walk(n.test):
                if isinstance(x, ast.NamedExpr):
                    visit(x.value)
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Call):
            d = (dotted(n.func) or "").split(".")
            if d[0] in ("logger", "warnings", "logging") or d[-1] in VALIDATORS:
                return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.setdefault(n.id, []).append(n)
        if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) and t.id in ("msg", "message", "error", "err", "err_txt", "err_text", "warning") or isinstance(t, ast.Name) and (t.id.startswith("err_") or t.id.startswith("msg_")) for t in n.targets):
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    for s in f.node.body:
        visit(s)
    # a name handed only to a validator through another name stays unused
    return out


def same_branches(f, opt):
    """an option whose two branches do the same"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp)) and opt in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}:
            if isinstance(n, ast.IfExp):
                if ast.dump(n.body) == ast.dump(n.orelse):
                    return n
            elif n.orelse and [ast.dump(x) for x in n.body] == [ast.dump(x) for x in n.orelse]:
                return n
    return None


def live(prog, res):
    for g in operations(prog):
        res.count("search, match and edit calls")
        used = uses(g)
        for o in options(g):
            if o in IDLE:
                continue
            res.count("options")
            if o not in used:
                if gate(g, o):
                    continue
                res.add(f"{g.qual}|{o}|unused", f"{g.qual} accepts {o} but never uses it", g.loc())
                continue
            n = same_branches(g, o)
            if n is not None and len(used[o]) == 1:
                res.add(f"{g.qual}|{o}|same", f"{g.qual} does the same whether or not {o} is set", g.loc(n))
        for p in g.params[1:]:
            if p in PATTERNS and p not in options(g) and p not in used:
                res.add(f"{g.qual}|{p}|unused", f"{g.qual} accepts {p} but never uses it", g.loc())


# -- integer options that stand for "not given" ------------------------------------
def sentinels(g):
    """options whose default is a negative number"""
    a = g.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant) and type(d.operand.value) is int:
            yield x.arg, -d.operand.value


OPS = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}


def number(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = number(e.operand)
        return None if v is None else -v
    return e.value if isinstance(e, ast.Constant) and type(e.value) is int else None


def thresholds(prog, res):
    """the first real value must not be taken for the default, and the value itself must be used"""
    for g in operations(prog):
        for o, d in sentinels(g):
            res.count("options with a number for 'not given'")
            tests = []
            for n in ast.walk(g.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
                    l, r = n.left, n.comparators[0]
                    fn = OPS[type(n.ops[0])]
                    if isinstance(l, ast.Name) and l.id == o and number(r) is not None:
                        tests.append((n, (lambda v, fn=fn, k=number(r): fn(v, k))))
                    elif isinstance(r, ast.Name) and r.id == o and number(l) is not None:
                        tests.append((n, (lambda v, fn=fn, k=number(l): fn(k, v))))
            first = FIRST.get((g.cls.name, g.name), d + 1)
            sep = [n for n, t in tests if t(d) != t(first)]
            if tests and not sep:
                res.add(f"{g.qual}|{o}|threshold", f"{g.qual} treats {o}={first} like the default {d} (not given)", g.loc(tests[0][0]))
            seen = {id(x) for n, _ in tests for x in ast.walk(n)}
            if tests and not any(id(x) not in seen for x in uses(g).get(o, [])):
                res.add(f"{g.qual}|{o}|value", f"{g.qual} tests {o} but never uses its value", g.loc(tests[0][0]))


# -- a default value and its type --------------------------------------------------
class Typed(Walk):
    """facts: which way the untyped_default switch is known"""

    def assume(self, st, test, truth):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id == "untyped_default" and isinstance(test.comparators[0], ast.Constant) and isinstance(test.comparators[0].value, bool):
            pos = isinstance(test.ops[0], (ast.Is, ast.Eq))
            return self.assume(st, test.left, truth == (pos == test.comparators[0].value))
        return super().assume(st, test, truth)


def defaults(prog, res):
    for cn in CLASSES:
        for n, g in sorted(prog.classes[cn].methods.items()):
            if not {"untyped_default", "default", "result_type"} <= set(g.params):
                continue
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in ("untyped_default", "default", "result_type") for x in ast.walk(g.node)):
                continue
            w = Typed(g.node)
            w.run(None)
            for st, node in w.returns:
                if not isinstance(node, ast.Return) or node.value is None:
                    continue
                arms = []

                def split(e, s):
                    if isinstance(e, ast.IfExp):
                        split(e.body, w.assume(s, e.test, True))
                        split(e.orelse, w.assume(s, e.test, False))
                    else:
                        arms.append((e, s))
                split(node.value, st)
                for e, s in arms:
                    raw = isinstance(e, ast.Name) and e.id == "default"
                    typed = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "result_type" and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == "default"
                    if not raw and not typed:
                        continue
                    res.count("returns of the default")
                    for facts, _ in s:
                        if dict(facts).get("untyped_default") is not raw:
                            res.add(f"{g.qual}|untyped_default", f"{g.qual} returns the default {'as given' if raw else 'as result_type'} without untyped_default being {'set' if raw else 'off'}", g.loc(node))
                            break


# -- settings kept on the object ---------------------------------------------------
def kept(prog, res):
    """a class that keeps a constructor setting hands on that setting, not a constant"""
    for cn, c in sorted(prog.classes.items()):
        init = c.methods.get("__init__")
        if init is None:
            continue
        own = set()
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in options(init):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0] and t.attr == n.value.id:
                        own.add(t.attr)
        own -= IDLE
        if not own:
            continue
        for n, g in sorted(c.methods.items()):
            for x in ast.walk(g.node):
                if not isinstance(x, ast.Call) or not isinstance(x.func, ast.Name):
                    continue
                r = prog.resolve_name(g.module, x.func.id)
                if not r or r[0] != "class":
                    continue
                h = prog.find_method(r[1].name if hasattr(r[1], "name") else r[1], "__init__")
                if h is None:
                    continue
                for k in x.keywords:
                    if k.arg in own and k.arg in h.params:
                        res.count("settings handed to another object")
                        if isinstance(k.value, ast.Constant) and k.arg not in options(g):
                            res.add(f"{cn}|{k.arg}|constant", f"{g.qual} builds a {x.func.id} with {k.arg}={k.value.value!r} instead of the {k.arg} {cn} was given", g.loc(x))


# -- exclusion ----------------------------------------------------------------------
class Excl(Walk):
    """value: {(line variable, what the exclusion test said)}"""

    def __init__(self, g, spec):
        super().__init__(g.node)
        self.g, self.spec = g, spec
        al = {spec}
        while True:
            new = {t.id for n in ast.walk(g.node) if isinstance(n, ast.Assign) and mentions(n.value, al) for t in n.targets if isinstance(t, ast.Name)} - al
            if not new:
                break
            al |= new
        self.al = al
        self.bad = {}
        self.edits = set()

    def tested(self, e):
        """(variable,) when a condition tries the exclusion pattern on a line"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            t = self.tested(e.left)
            return (t[0], t[1] == isinstance(e.ops[0], ast.IsNot)) if t else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and e.args:
            return self.tested(e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("search", "match", "fullmatch", "re_search"):
            if mentions(e.func.value, self.al) or e.args and mentions(e.args[0], self.al):
                vs = {x.value.id for a in e.args for x in ast.walk(a) if isinstance(x, ast.Attribute) and x.attr in ("text", "_text") and isinstance(x.value, ast.Name)}
                if isinstance(e.func.value, ast.Name) and e.func.attr == "re_search":
                    vs = {e.func.value.id}
                if len(vs) == 1:
                    return vs.pop(), True
        return None

    def assume(self, st, test, truth):
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "bool" and len(test.args) == 1 and not test.keywords:
            return self.assume(st, test.args[0], truth)
        t = self.tested(test)
        if t:
            v, pos = t
            hit = truth == pos
            return frozenset((f, val | {(v, hit)}) for f, val in st if (v, not hit) not in val)
        if isinstance(test, ast.Name) and test.id == self.spec or isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == self.spec:
            return super().assume(st, test, truth)
        if isinstance(test, ast.Call) and mentions(test, self.al):
            # some other test of the exclusion
            vs = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} - self.al
            return frozenset((f, val | {(v, None) for v in vs}) for f, val in st)
        return super().assume(st, test, truth)

    def store(self, t, s, val):
        if isinstance(t, ast.Name):
            val = frozenset((v, b) for v, b in val if v != t.id)
            src = getattr(s, "iter", None) or getattr(s, "value", None)
            if src is not None and mentions(src, self.al):
                val |= {(t.id, None)}
        return (val,)

    def expr(self, e, st):
        if e is None:
            return st
        for n in ast.walk(e):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            v = None
            if n.func.attr in ("re_sub", "delete", "replace_text", "append_to_family") and isinstance(n.func.value, ast.Name):
                v = n.func.value.id
            elif n.func.attr in ("insert_after", "insert_before") and n.args and isinstance(n.args[0], ast.Name) and not isinstance(n.func.value, ast.Name):
                v = n.args[0].id
            if v is None or v in self.g.params or v in self.al:
                continue
            self.edits.add(n)
            for f, val in st:
                if dict(f).get(self.spec) is False or dict(f).get(f"{self.spec} is None") is True:
                    continue
                if (v, True) in val:
                    self.bad[n.lineno] = f"edits lines that match {self.spec}"
                elif not any(x == v for x, _ in val):
                    self.bad.setdefault(n.lineno, f"edits {v} without trying {self.spec} on its text")
        return super().expr(e, st)


def mentions(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def exclusion(prog, res):
    for g in operations(prog):
        for spec in ("excludespec",):
            if spec not in g.params:
                continue
            w = Excl(g, spec)
            w.run(frozenset())
            res.count("edits under an exclusion", len(w.edits))
            for line, why in sorted(w.bad.items()):
                res.add(f"{g.qual}|{spec}|line", f"{g.qual} {why}", f"{g.module.rel}:{line}")


def gate(g, o):
    """the option is documented to allow one value only: another is refused"""
    for n in ast.walk(g.node):
        if isinstance(n, ast.If) and o in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}:
            for b in (n.body, n.orelse):
                if b and isinstance(b[-1], ast.Raise):
                    return True
    return False


# -- options handed on ------------------------------------------------------------
class Hand(Walk):
    """value: (options used so far, options missing from a call: (option, line, callee))"""

    def __init__(self, an, f, opts):
        super().__init__(f.node)
        self.an, self.f, self.opts = an, f, set(opts)
        self.swaps = []
        self.ncalls = 0

    def stmt(self, s, st):
        if isinstance(s, ast.If) and diagnostic(s.body) and diagnostic(s.orelse):
            return st
        return super().stmt(s, st)

    def take(self, val, names):
        used, miss = val
        names = names & self.opts
        if not names:
            return val
        return (used | names, frozenset(m for m in miss if m[0] not in names))

    def expr(self, e, st):
        if e is None:
            return st
        st = super().expr(e, st)
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if isinstance(e, ast.Call) and ((dotted(e.func) or "").split(".")[-1] in VALIDATORS or (dotted(e.func) or "").split(".")[0] == "logger"):
            return st
        if isinstance(e, (ast.Call,)):
            names -= validated(e)
        return self.mapv(st, lambda v: (self.take(v, names),))

    def call(self, n, val):
        g = self.an.resolve(self.f, n)
        if g is None:
            return (val,)
        b, star = self.an.bind(g, n)
        if star:
            return (val,)
        used, miss = val
        shared = [o for o in options(g) if o in self.opts and o not in IDLE]
        if shared:
            self.ncalls += 1
        for o in shared:
            a = b.get(o)
            if a is None or isinstance(a, ast.Constant):
                if o not in used:
                    miss |= {(o, n.lineno, g.qual)}
            elif isinstance(a, ast.Name) and a.id != o and a.id in self.opts and a.id in options(g):
                self.swaps.append((o, a.id, n, g))
        return ((used, miss),)


def validated(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in VALIDATORS:
            out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    return out


class Analysis:
    def __init__(self, prog):
        self.prog = prog

    def resolve(self, f, call):
        fn = call.func
        if not isinstance(fn, ast.Attribute):
            if isinstance(fn, ast.Name):
                g = f.nested.get(fn.id)
                return g
            return None
        g = self_call(self.prog, f, call)
        if g is not None:
            return g
        if isinstance(fn.value, ast.Attribute) and fn.value.attr in ("ConfigObjs", "confobj", "objs"):
            return self.prog.find_method("ConfigList", fn.attr)
        if isinstance(fn.value, ast.Name) and fn.value.id not in ("re", "copy", "logger", "warnings", "inspect"):
            # a line object
            m = self.prog.find_method("BaseCfgLine", fn.attr)
            if m is not None and fn.attr.startswith(PREFIXES):
                return m
        return None

    def bind(self, g, call):
        ps = list(g.params)
        if g.kind == "method" and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
        out = dict(zip(ps, call.args))
        out.update({k.arg: k.value for k in call.keywords if k.arg})
        return out, star


def handed(prog, res):
    an = Analysis(prog)
    for g in operations(prog):
        opts = [o for o in options(g) if o not in IDLE]
        if not opts:
            continue
        w = Hand(an, g, opts)
        w.run((frozenset(), frozenset()))
        res.count("calls that share an option", w.ncalls)
        for o, q, n, h in w.swaps:
            res.add(f"{g.qual}|{o}|swap", f"{g.qual} hands its option {q} to {h.qual} as {o}", g.loc(n))
        done = set()
        for st, node in w.returns:
            for _, (used, miss) in st:
                for o, line, q in miss:
                    if (o, q) not in done:
                        done.add((o, q))
                        res.add(f"{g.qual}|{o}|dropped", f"{g.qual} accepts {o} but calls {q} without it (line {line}) and does not apply it itself on that path", f"{g.module.rel}:{line}")


def check(prog, res):
    for c in CLASSES:
        if c not in prog.classes:
            raise AnalysisBroken(f"{c} no longer exists")
    patterns(prog, res)
    live(prog, res)
    handed(prog, res)
    thresholds(prog, res)
    defaults(prog, res)
    kept(prog, res)
    exclusion(prog, res)


def run(ctx):
    res = Result("Term dataflow of every caller's pattern under every combination of the yes/no options (white-space tolerance, escaping, anchoring, depth, flags), "
                 "liveness of every accepted option, and path-sensitive tracking of options a called operation shares.")
    check(ctx.prog, res)
    res.floor("search, match and edit calls", 28)
    res.floor("option combinations", 60)
    res.floor("options", 60)
    res.floor("options with a number for 'not given'", 2)
    res.floor("returns of the default", 3)
    res.floor("settings handed to another object", 4)
    res.floor("edits under an exclusion", 3)
    res.floor("calls that share an option", 12)
    return res


BAD = (("            parentspec = build_space_tolerant_regex(parentspec)\n            childspec", "            childspec", "CiscoConfParse.find_parent_objects|parentspec|ignore_ws"),
       ("recurse=recurse)", "recurse=False)", "CiscoConfParse.find_parent_objects|recurse|dropped"),
       ("recurse=recurse)", "recurse=ignore_ws)", "CiscoConfParse.find_parent_objects|recurse"),
       ("return self._find(linespec, exactmatch)", "return self._find(linespec)", "CiscoConfParse.find_objects|exactmatch|unused"),
       ("exactmatch=exactmatch, ignore_ws=ignore_ws", "exactmatch=ignore_ws, ignore_ws=exactmatch", "CiscoConfParse.insert_after_child|exactmatch|swap"),
       ("                if excludespec and re.search(excludespec, c.text):\n                    continue\n", "", "CiscoConfParse.insert_after_child|excludespec|unused"),
       ("if recurse is False:", "if recurse is True:", "BaseCfgLine.re_search_children|recurse"))


def selftest():
    r = Result("x")
    check(Program.from_source(EX11), r)
    if r.findings:
        raise AnalysisBroken(f"C10 self-example: {[f.key for f in r.findings]}")
    for a, b, want in BAD:
        if a not in EX11:
            raise AnalysisBroken(f"C10 self-example text {a!r}")
        r = Result("x")
        check(Program.from_source(EX11.replace(a, b, 1)), r)
        if want not in [f.key for f in r.findings]:
            raise AnalysisBroken(f"C10 self-example: {[f.key for f in r.findings]} without {want}")
