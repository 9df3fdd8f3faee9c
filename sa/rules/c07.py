"""C07: parsing keeps every line exactly once and in order."""
import ast

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc
from ..walk import Walk
from ..edits import is_reparse, self_call
from ..lines import TextLines
from .c05 import returns_param

DROP = {"pop", "remove", "clear"}
REORDER = {"sort", "reverse"}
STRIPS = {"strip", "rstrip", "lstrip"}


# -- conditions on one line ---------------------------------------------------
def is_text(e, var):
    """the text of the line the variable stands for (possibly stripped)"""
    if isinstance(e, ast.Name):
        return e.id == var
    if isinstance(e, ast.Attribute) and e.attr in ("text", "_text"):
        return isinstance(e.value, ast.Name) and e.value.id == var
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in STRIPS and not e.args:
        return is_text(e.func.value, var)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
        return is_text(e.args[0], var)
    return False


def keeps_text(cond, var, neg=False):
    """True: the condition holds for every line that is not blank; False: it may fail for one; None: not recognised"""
    if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
        return keeps_text(cond.operand, var, not neg)
    if isinstance(cond, ast.BoolOp):
        rs = [keeps_text(v, var, neg) for v in cond.values]
        if isinstance(cond.op, ast.Or) != neg:
            return True if True in rs else None if None in rs else False
        return False if False in rs else None if None in rs else True
    if isinstance(cond, ast.Constant):
        return bool(cond.value) != neg
    if isinstance(cond, ast.Call) and isinstance(cond.func, ast.Name) and cond.func.id == "bool" and len(cond.args) == 1:
        return keeps_text(cond.args[0], var, neg)
    if is_text(cond, var) or isinstance(cond, ast.Call) and isinstance(cond.func, ast.Name) and cond.func.id == "len" and cond.args and is_text(cond.args[0], var):
        # the truth of a line object itself is its length
        return not neg
    if isinstance(cond, ast.Call) and isinstance(cond.func, ast.Attribute) and cond.func.attr == "isspace" and is_text(cond.func.value, var):
        return neg
    if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
        l, o, r = cond.left, cond.ops[0], cond.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
        ln = isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args and is_text(l.args[0], var)
        if isinstance(r, ast.Constant) and (is_text(l, var) and isinstance(r.value, str) or ln and isinstance(r.value, int)):
            v = r.value
            blank = v == 0 if ln else v == ""
            if isinstance(o, (ast.Eq, ast.NotEq)):
                eq = isinstance(o, ast.Eq) != neg
                return (not eq) if blank else False
            if ln:
                if neg:
                    o = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}.get(type(o), type(o))()
                return isinstance(o, ast.Gt) and v <= 0 or isinstance(o, ast.GtE) and v <= 1
            return False
        if is_text(l, var) and isinstance(o, (ast.In, ast.NotIn)):
            vals = r.elts if isinstance(r, (ast.Tuple, ast.List, ast.Set)) else None
            if vals is not None and all(isinstance(x, ast.Constant) for x in vals):
                inn = isinstance(o, ast.In) != neg
                return False if inn else all(str(x.value).strip() == "" for x in vals)
    # a property of the line other than being blank
    names = {x.id for x in ast.walk(cond) if isinstance(x, ast.Name)}
    if var not in names:
        return None
    if isinstance(cond, ast.Compare) and isinstance(cond.ops[0], (ast.Is, ast.IsNot)) and isinstance(cond.comparators[0], ast.Constant) and cond.comparators[0].value is None:
        return isinstance(cond.ops[0], ast.IsNot) != neg
    if isinstance(cond, ast.Call) and isinstance(cond.func, ast.Name) and cond.func.id == "isinstance":
        return not neg
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and (x.func.attr in STRIPS | {"startswith", "endswith", "isdigit", "isalpha"})) for x in ast.walk(cond)):
        return None
    return False


class Status:
    """what a list is, compared with the lines that were given"""
    ALL, BLANK, ASKED = "all", "blank", "blank if asked"


def option(test):
    """the branch of a conditional expression on which blank lines are to be ignored"""
    neg = False
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, neg = test.operand, not neg
    return None if (dotted(test) or "").split(".")[-1] != "ignore_blank_lines" else "orelse" if neg else "body"


def join(a, b, asked=None):
    if a is None or b is None:
        return None
    if asked == "body" and a == Status.BLANK or asked == "orelse" and b == Status.BLANK:
        if (b if asked == "body" else a) == Status.ALL:
            return Status.ASKED
    if Status.ASKED in (a, b) and set((a, b)) <= {Status.ASKED, Status.ALL}:
        return Status.ASKED
    if isinstance(a, tuple):
        return a
    if isinstance(b, tuple):
        return b
    return Status.BLANK if Status.BLANK in (a, b) else Status.ALL


class Flow(Walk):
    """value: frozenset of (name, status)"""

    def __init__(self, an, f, depth=0, exits=None):
        super().__init__(f.node)
        self.an, self.f, self.depth = an, f, depth
        self.out = []
        self.sinks = []

    # -- status of an expression
    def st(self, e, env, depth=0):
        if e is None or depth > 8:
            return None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            return env.get(ast.unparse(e))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            k = self.st(g.iter, env, depth + 1)
            if k is None:
                return None
            v = g.target.id if isinstance(g.target, ast.Name) else g.target.elts[1].id if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(g.target.elts[1], ast.Name) else None
            if v is None:
                return None
            if not (isinstance(e.elt, ast.Name) and e.elt.id == v or is_text(e.elt, v) and not any(isinstance(x, ast.Attribute) and x.attr in ("strip", "lstrip") for x in ast.walk(e.elt))):
                if is_text(e.elt, v):
                    return ("bad", f"lines are changed to {ast.unparse(e.elt)}")
                return None
            for c in g.ifs:
                r = keeps_text(c, v)
                k = join(k, Status.BLANK if r else None if r is None else ("bad", f"lines that fail `{ast.unparse(c)}` are dropped though not blank"))
            return k
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.id if isinstance(fn, ast.Name) else None
            if nm in ("list", "tuple", "iter", "enumerate") and e.args:
                k = self.st(e.args[0], env, depth + 1)
                return k
            if nm in ("sorted", "reversed", "set") and e.args:
                k = self.st(e.args[0], env, depth + 1)
                return None if k is None else ("bad", f"lines are reordered by {nm}()")
            if nm == "filter" and len(e.args) == 2:
                k = self.st(e.args[1], env, depth + 1)
                if k is None:
                    return None
                if isinstance(e.args[0], ast.Lambda) and e.args[0].args.args:
                    r = keeps_text(e.args[0].body, e.args[0].args.args[0].arg)
                    return join(k, Status.BLANK if r else None if r is None else ("bad", f"lines that fail `{ast.unparse(e.args[0].body)}` are dropped though not blank"))
                if isinstance(e.args[0], ast.Constant) and e.args[0].value is None or dotted(e.args[0]) in ("len", "bool"):
                    return join(k, Status.BLANK)
                return None
            if isinstance(fn, ast.Attribute) and fn.attr == "copy" and not e.args:
                return self.st(fn.value, env, depth + 1)
            g = self.an.resolve(self.f, e)
            if g is not None and self.depth < 4:
                b = self.an.bind(g, e)
                env2 = {p: self.st(a, env, depth + 1) for p, a in b.items()}
                if any(v is not None for v in env2.values()):
                    return self.an.summary(g, env2, self.depth + 1)
            return None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            k = self.st(e.value, env, depth + 1)
            if k is None:
                return None
            s = e.slice
            if s.step is not None and not (isinstance(s.step, ast.Constant) and s.step.value in (1, None)):
                return ("bad", f"lines are taken by [{ast.unparse(s)}]")
            lo = s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value in (0, None)
            if lo and s.upper is None:
                return k
            return ("bad", f"only lines [{ast.unparse(s)}] are kept")
        if isinstance(e, ast.IfExp):
            return join(self.st(e.body, env, depth + 1), self.st(e.orelse, env, depth + 1), option(e.test))
        return None

    def put(self, val, key, k):
        d = dict(val)
        if k is None:
            d.pop(key, None)
            d[key] = None
        else:
            d[key] = k
        return frozenset(d.items())

    def call(self, n, val):
        fn = n.func
        if isinstance(fn, ast.Attribute):
            key = ast.unparse(fn.value)
            d = dict(val)
            if d.get(key) is not None:
                if fn.attr in REORDER:
                    return (self.put(val, key, ("bad", f"the lines are reordered by {fn.attr}()")),)
                if fn.attr in DROP:
                    return (self.put(val, key, None),)
                if fn.attr in ("append", "insert", "extend"):
                    return (self.put(val, key, None),)
        self.an.sink(self, n, dict(val))
        return (val,)

    def store(self, t, s, val):
        v = getattr(s, "value", None)
        if isinstance(t, (ast.Name, ast.Attribute)):
            key = ast.unparse(t)
            d = dict(val)
            if isinstance(s, ast.Assign):
                if isinstance(v, ast.Tuple) or any(isinstance(x, ast.Tuple) for x in s.targets):
                    # several results of one call: a list handed through it
                    if key in d and isinstance(v, ast.Call) and any(isinstance(x, ast.Name) and x.id == key for x in list(v.args) + [k.value for k in v.keywords]):
                        return (val,)
                    if key in d:
                        return (self.put(val, key, None),)
                    return (val,)
                k = self.st(v, d)
                if k is not None or key in d:
                    return (self.put(val, key, k),)
                return (val,)
            if key in d and isinstance(s, (ast.AugAssign, ast.Delete)):
                return (self.put(val, key, None),)
        elif isinstance(t, ast.Subscript) and isinstance(s, ast.Delete):
            key = ast.unparse(t.value)
            if dict(val).get(key) is not None:
                return (self.put(val, key, ("bad", f"lines are deleted ({ast.unparse(t)})")),)
        return (val,)


def asked(facts):
    """the path is one on which blank lines are to be ignored"""
    return any(b and k.split(".")[-1] == "ignore_blank_lines" for k, b in facts)


class Analysis:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.memo = {}

    def sink(self, w, n, env):
        pass

    def resolve(self, f, call):
        if isinstance(call.func, ast.Name):
            r = self.prog.resolve_name(f.module, call.func.id)
            return r[1] if r and r[0] == "func" else None
        return self_call(self.prog, f, call)

    def bind(self, g, call):
        ps = list(g.params)
        if g.kind in ("method", "classmethod") and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        out = dict(zip(ps, call.args))
        out.update({k.arg: k.value for k in call.keywords if k.arg})
        return out

    def summary(self, g, env, depth):
        """what a function that takes the lines returns"""
        key = (g.qual, tuple(sorted((k, str(v)) for k, v in env.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        # a function that changes its list argument in place is not followed
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROP | REORDER | {"append", "insert", "extend"} and isinstance(n.func.value, ast.Name) and env.get(n.func.value.id) is not None:
                return None
        w = Flow(self, g, depth)
        w.run(frozenset((k, v) for k, v in env.items() if v is not None))
        out = []
        for st, node in w.returns:
            if isinstance(node, ast.Return):
                for facts, val in st:
                    k = w.st(node.value, dict(val)) if node.value is not None else None
                    if k == Status.BLANK and asked(facts):
                        k = "blank if asked"
                    out.append(k)
        self.memo[key] = combine(out)
        return self.memo[key]


def combine(ks):
    bad = [k for k in ks if isinstance(k, tuple)]
    if bad:
        return bad[0]
    if not ks or any(k is None for k in ks):
        return None
    return "blank" if "blank" in ks else "blank if asked" if "blank if asked" in ks else "all"


def parse_loop(prog, an, res):
    """one line object per given text, in order, from that text"""
    boot = prog.find_method("ConfigList", "bootstrap_obj_init_ng")
    if boot is None:
        raise AnalysisBroken("ConfigList.bootstrap_obj_init_ng no longer exists")
    param = boot.params[1] if len(boot.params) > 1 else None
    # the loop over the given text
    loops = []
    for s in [n for n in ast.walk(boot.node) if isinstance(n, ast.For)]:
        it = s.iter
        names = {x.id for x in ast.walk(it) if isinstance(x, ast.Name)}
        if param in names:
            loops.append(s)
    built = set()
    for lp in loops:
        w = Flow(an, boot)
        k = w.st(lp.iter, {param: Status.ALL})
        tv = lp.target.id if isinstance(lp.target, ast.Name) else lp.target.elts[1].id if isinstance(lp.target, ast.Tuple) and len(lp.target.elts) == 2 and isinstance(lp.target.elts[1], ast.Name) else None
        if isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Name) and lp.iter.func.id == "enumerate" and not isinstance(lp.target, ast.Tuple):
            tv = None
        if k is None or tv is None:
            res.undec(f"{boot.qual}: how the loop over the given lines visits them")
            continue
        if isinstance(k, tuple):
            res.add(f"{boot.qual}|visits", f"{boot.qual} does not visit every given line in order: {k[1]}", boot.loc(lp))
        # which list collects the objects
        apps = [n for b in lp.body for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.args and isinstance(n.args[0], ast.Name)]
        objs = {t.id for b in lp.body for s in ast.walk(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and mentions(s.value, tv) and line_call(prog, an, boot, s.value) for t in s.targets if isinstance(t, ast.Name)}
        lists = {n.func.value.id for n in apps if n.args[0].id in objs}
        if not lists or not objs:
            res.undec(f"{boot.qual}: which list collects the line objects")
            continue
        for s in [x for b in lp.body for x in ast.walk(b)]:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == tv for t in s.targets):
                if is_text(s.value, tv) and not any(isinstance(x, ast.Attribute) and x.attr in ("strip", "lstrip") for x in ast.walk(s.value)):
                    continue
                if is_text(s.value, tv):
                    res.add(f"{boot.qual}|text", f"{boot.qual} changes the text of the lines ({ast.unparse(s.value)}) before it builds them", boot.loc(s))
                elif mentions(s.value, tv) and rewrites(s.value, tv):
                    res.add(f"{boot.qual}|text", f"{boot.qual} changes the text of the lines ({ast.unparse(s.value)[:60]}) before it builds them", boot.loc(s))
                else:
                    res.undec(f"{boot.qual}: {tv} is changed inside the loop ({ast.unparse(s.value)[:40]})")
        for name in sorted(lists):
            class Count(Walk):
                def call(self, n, v):
                    if n in apps and n.func.value.id == name:
                        return (min(v + 1, 2),)
                    return (v,)
            c = Count(boot.node)
            c.brk.append(frozenset())
            c.cont.append(frozenset())
            end = c.block(lp.body, frozenset({(frozenset(), 0)}))
            cont, brk = c.cont.pop(), c.brk.pop()
            res.count("paths of the parse loop", len(end | cont | brk))
            for facts, v in end | cont:
                if v == 0 and not (asked(facts) and blank_fact(facts, tv)):
                    res.add(f"{boot.qual}|lost", f"{boot.qual} can pass over a given line without building an object for it", boot.loc(lp))
                elif v > 1:
                    res.add(f"{boot.qual}|double", f"{boot.qual} can put two objects for one given line into the list", boot.loc(lp))
            if brk or any(isinstance(n, ast.Return) for _s, n in c.returns):
                res.add(f"{boot.qual}|stops", f"{boot.qual} can stop before the last given line", boot.loc(lp))
            built.add(name)
    # comprehension form
    if not loops:
        res.undec(f"{boot.qual}: no loop over the given lines")
        return
    # what happens to the collected list afterwards
    if not built:
        return
    last = max(lp.end_lineno for lp in loops)
    top = next((i for i, s in enumerate(strip_doc(boot.node.body)) if s.lineno > last), None)
    if top is None or not all(lp in boot.node.body for lp in loops):
        res.undec(f"{boot.qual}: statements after the parse loop")
        return
    w = Flow(an, boot)
    w.run(frozenset((n, Status.ALL) for n in built), strip_doc(boot.node.body)[top:])
    for st, node in w.returns:
        for facts, val in st:
            d = dict(val)
            vals = [("self._list", d.get("self._list"))]
            if isinstance(node, ast.Return) and node.value is not None:
                vals.append(("the returned list", w.st(node.value, d)))
            for what, k in vals:
                res.count("results of the parse")
                if isinstance(k, tuple):
                    res.add(f"{boot.qual}|after", f"{boot.qual}: after building the lines, {k[1]} ({what})", boot.loc(node))
                elif k == Status.BLANK and not asked(facts):
                    res.add(f"{boot.qual}|blank", f"{boot.qual} drops blank lines although the caller did not ask for it ({what})", boot.loc(node))
                elif k is None and what == "the returned list":
                    res.undec(f"{boot.qual}: {what}")


STR_EDITS = {"replace", "lower", "upper", "expandtabs", "title", "capitalize", "casefold", "translate", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix",
             "swapcase", "zfill", "center", "ljust", "rjust", "join", "format"}


def rewrites(e, var):
    """the expression is an edited form of the text in `var`"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr in STR_EDITS and (rewrites(e.func.value, var) or is_text(e.func.value, var) or e.func.attr in ("join", "format")):
            return True
        if dotted(e.func) in ("re.sub", "re.subn"):
            return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
        return rewrites(e.args[0], var)
    if isinstance(e, ast.Subscript):
        return is_text(e.value, var) or rewrites(e.value, var)
    if isinstance(e, ast.BinOp):
        return any(is_text(x, var) or rewrites(x, var) for x in (e.left, e.right))
    if isinstance(e, ast.JoinedStr):
        return len(e.values) > 1
    if isinstance(e, ast.IfExp):
        return rewrites(e.body, var) or rewrites(e.orelse, var)
    return False


def parse_steps(prog, boot):
    """the functions the parse runs after it has built the lines"""
    out, todo = [], [boot]
    while todo:
        f = todo.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = self_call(prog, f, n)
                if g is None and isinstance(n.func, ast.Name):
                    r = prog.resolve_name(f.module, n.func.id)
                    g = r[1] if r and r[0] == "func" else None
                if g is not None and g not in out and g is not boot and (g.cls is None or g.cls.name == "ConfigList") and g.module.name == boot.module.name:
                    out.append(g)
                    todo.append(g)
    return out


def text_edits(prog, res):
    """no step of the parse edits the text of a line it built"""
    boot = prog.find_method("ConfigList", "bootstrap_obj_init_ng")
    for f in [boot] + parse_steps(prog, boot):
        res.count("steps of the parse")
        for n in ast.walk(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                if not (isinstance(t, ast.Attribute) and t.attr in ("text", "_text")):
                    continue
                v = n.value
                b = v.func.value if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "rstrip" and not v.args else v
                if isinstance(n, ast.Assign) and isinstance(b, ast.Attribute) and b.attr in ("text", "_text") and ast.dump(b.value) == ast.dump(t.value):
                    continue
                res.add(f"{f.qual}|edits", f"{f.qual}, a step of the parse, changes the text of a line ({ast.unparse(n)[:60]})", f.loc(n))


def mentions(e, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e))


def blank_fact(facts, tv):
    for k, b in facts:
        try:
            e = ast.parse(k, mode="eval").body
        except SyntaxError:
            continue
        if mentions(e, tv) and keeps_text(e, tv, neg=b) is True:
            return True
    return False


TEXT_PARAMS = ("line", "txt", "text")


def line_call(prog, an, f, call):
    """the parameter of a line-building call that takes the text"""
    fn = call.func
    ps = None
    if isinstance(fn, ast.Name):
        r = prog.resolve_name(f.module, fn.id)
        if r and r[0] == "func" and "comment_delimiter" in r[1].all_params:
            ps = r[1].params
        elif r and r[0] == "class" and prog.is_subclass(r[1].name, "BaseCfgLine"):
            ps = prog.find_method("BaseCfgLine", "__init__").params[1:]
        elif fn.id in f.all_params or any(isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.id == fn.id for x in ast.walk(f.node)):
            if any(k.arg in TEXT_PARAMS for k in call.keywords) and any(k.arg == "comment_delimiter" for k in call.keywords):
                ps = prog.find_method("BaseCfgLine", "__init__").params[1:]
    elif isinstance(fn, ast.Subscript) and any(k.arg in TEXT_PARAMS for k in call.keywords):
        ps = prog.find_method("BaseCfgLine", "__init__").params[1:]
    elif isinstance(fn, ast.Attribute):
        g = self_call(prog, f, call)
        if g is not None and any(p in TEXT_PARAMS for p in g.params) and g.name not in ("bootstrap_obj_init_ng",):
            ps = g.params[1:]
    if ps is None:
        return None
    got = dict(zip(ps, call.args))
    got.update({k.arg: k.value for k in call.keywords if k.arg})
    return next((got[p] for p in TEXT_PARAMS if p in got), None)


def loop_var(lp):
    """the variable that holds the element a loop visits"""
    if isinstance(lp.target, ast.Name):
        return lp.target.id
    if isinstance(lp.target, ast.Tuple) and len(lp.target.elts) == 2 and isinstance(lp.target.elts[1], ast.Name):
        return lp.target.elts[1].id
    return None


def text_flow(prog, an, res):
    """the text reaches the line object unchanged"""
    todo = []
    for f in prog.all_funcs():
        if f.outer is not None:
            continue
        tp = [p for p in f.params if p in TEXT_PARAMS]
        if f.module.name == "ciscoconfparse" and f.cls is None and tp and "comment_delimiter" in f.all_params and f.name != "parse_line_braces":
            todo.append((f, tp[0]))
        elif f.cls is not None and f.cls.name == "ConfigList" and f.name == "bootstrap_obj_init_ng":
            todo.append((f, None))
    for f, p in todo:
        vs = {p} if p else {loop_var(lp) for lp in ast.walk(f.node) if isinstance(lp, ast.For)} - {None}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                a = line_call(prog, an, f, n)
                if a is None or not any(mentions(a, v) for v in vs):
                    continue
                res.count("hand-overs of a line's text")
                v = next(v for v in vs if mentions(a, v))
                if isinstance(a, ast.Name):
                    continue
                if is_text(a, v) and not any(isinstance(x, ast.Attribute) and x.attr in ("strip", "lstrip") for x in ast.walk(a)):
                    continue
                if isinstance(a, ast.IfExp) and isinstance(a.body, ast.Name) and isinstance(a.orelse, ast.Name):
                    continue
                res.add(f"{f.qual}|text", f"{f.qual} builds the line from {ast.unparse(a)[:50]}, not from the given text", f.loc(n))
        if p:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in n.targets):
                    if isinstance(n.value, ast.Name) or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "str":
                        continue
                    if is_text(n.value, p) and not any(isinstance(x, ast.Attribute) and x.attr in ("strip", "lstrip") for x in ast.walk(n.value)):
                        continue
                    if mentions(n.value, p):
                        res.add(f"{f.qual}|text", f"{f.qual} changes the given text ({ast.unparse(n.value)[:50]}) before it builds the line", f.loc(n))
    # the base class and its setter
    base = prog.classes["BaseCfgLine"]
    st = base.setters.get("text")
    for g in [base.methods.get("__init__"), st]:
        if g is None:
            continue
        roots = [p for p in g.params[1:] if p in TEXT_PARAMS + ("newtext",) or g is st]
        loc = {}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                loc.setdefault(n.targets[0].id, []).append(n.value)

        def clean(e, depth=0):
            """True: the text up to trailing white space; a str: how it was changed; None: unknown"""
            if depth > 6:
                return None
            if isinstance(e, ast.Name):
                if e.id in roots and all(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" or dead(g, v) for v in loc.get(e.id, [])):
                    return True
                vs = loc.get(e.id, [])
                if len(vs) == 1:
                    return clean(vs[0], depth + 1)
                return None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                b = clean(e.func.value, depth + 1)
                if b is True and e.func.attr == "rstrip" and not e.args:
                    return True
                if b is True and e.func.attr in STRIPS | {"replace", "lower", "upper", "expandtabs", "title", "capitalize", "casefold", "translate"}:
                    return ast.unparse(e)
                return b if isinstance(b, str) else None
            if isinstance(e, ast.Subscript) and clean(e.value, depth + 1) is True:
                return ast.unparse(e)
            if isinstance(e, ast.Call) and dotted(e.func) in ("re.sub",) and len(e.args) > 2 and clean(e.args[2], depth + 1) is True:
                return ast.unparse(e)
            return None
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("_text", "text") and isinstance(t.value, ast.Name) and t.value.id == g.params[0] for t in n.targets):
                if not any(mentions(n.value, r) for r in roots) and not any(mentions(n.value, x) for x in loc):
                    continue
                res.count("stores of a line's text")
                c = clean(n.value)
                if isinstance(c, str):
                    res.add(f"{g.qual}|stores", f"{g.qual} stores {c} as the text of the line", g.loc(n))
                elif c is None:
                    res.undec(f"{g.qual}: text stored ({ast.unparse(n.value)[:40]})")


def dead(g, v):
    """the assignment sits under `if False`"""
    for n in ast.walk(g.node):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Constant) and not n.test.value and any(x is v for x in ast.walk(n)):
            return True
    return False


def constructor(prog, an, res):
    """the lines given to CiscoConfParse reach the line list"""
    f = prog.find_method("CiscoConfParse", "__init__")
    if f is None:
        raise AnalysisBroken("CiscoConfParse.__init__ no longer exists")
    param = "config" if "config" in f.params else f.params[1]
    hits = []

    class W(Flow):
        def __init__(self):
            super().__init__(an, f)

        def expr(self, e, st):
            st = super().expr(e, st)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                r = prog.resolve_name(f.module, e.func.id)
                if r and r[0] == "class" and prog.is_subclass(r[1].name, "ConfigList"):
                    g = prog.find_method(r[1].name, "__init__")
                    b = dict(zip(g.params[1:], e.args))
                    b.update({k.arg: k.value for k in e.keywords if k.arg})
                    a = b.get(g.params[1])
                    for facts, val in st:
                        hits.append((facts, self.st(a, dict(val)) if a is not None else None, e))
            return st
    w = W()
    w.run(frozenset({(param, Status.ALL)}))
    if not hits:
        res.undec(f"{f.qual}: where the line list is created")
    for facts, k, node in hits:
        res.count("ways from the given lines to the line list")
        if isinstance(k, tuple):
            res.add(f"{f.qual}|given", f"{f.qual} does not hand every given line to the line list: {k[1]}", f.loc(node))
        elif k == Status.BLANK and not asked(facts):
            res.add(f"{f.qual}|blank", f"{f.qual} drops blank lines although the caller did not ask for it", f.loc(node))
    g = prog.find_method("ConfigList", "__init__")
    p = g.params[1]
    w = Flow(an, g)

    class V(Flow):
        def call(self, n, val):
            if is_reparse(n):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "text_list"), None)
                k = self.st(a, dict(val)) if a is not None else None
                res.count("ways from the given lines to the line list")
                if isinstance(k, tuple):
                    res.add(f"{g.qual}|given", f"{g.qual} does not parse every given line: {k[1]}", g.loc(n))
                elif k == Status.BLANK:
                    res.undec(f"{g.qual}: blank lines dropped before the parse")
            return super().call(n, val)
    v = V(an, g)
    v.run(frozenset({(p, Status.ALL)}))


def listing(prog, res):
    for cn in ("ConfigList", "CiscoConfParse"):
        for name in ("ioscfg", "text"):
            p = prog.find_prop(cn, name)
            if p is None:
                continue
            k = TextLines(prog, p).returned(p)
            res.count("text listings")
            if k is None:
                res.undec(f"{p.qual}: what it lists")
            elif k != ("all",):
                res.add(f"{p.qual}|listing", f"{p.qual} does not list the text of every line in order: {k[1]}", p.loc())


def check(prog, res):
    an = Analysis(prog, res)
    parse_loop(prog, an, res)
    text_flow(prog, an, res)
    text_edits(prog, res)
    constructor(prog, an, res)
    listing(prog, res)


def run(ctx):
    res = Result("Dataflow of the list of lines from the constructor through the parse loop to the text listing: one object per given text on every path of the loop, "
                 "every later filter, slice, deletion or reordering classified by its condition, the text followed into the line object.")
    check(ctx.prog, res)
    res.floor("paths of the parse loop", 1)
    res.floor("results of the parse", 2)
    res.floor("hand-overs of a line's text", 3)
    res.floor("stores of a line's text", 2)
    res.floor("ways from the given lines to the line list", 2)
    res.floor("text listings", 1)
    res.assumptions.append("reading a file into lines is C30; junos braces are converted before the parse and are not followed")
    return res


EX = '''
def build(lines, txt, comment_delimiter): return BaseCfgLine(all_lines=lines, line=txt, comment_delimiter=comment_delimiter)
class BaseCfgLine:
    def __init__(self, all_lines=None, line="", comment_delimiter="!"):
        self.text = line
    @property
    def text(self): return self._text
    @text.setter
    def text(self, newtext):
        self._text = newtext.rstrip()
class ConfigList:
    def __init__(self, initlist):
        self._list = self.bootstrap_obj_init_ng(initlist)
    def bootstrap_obj_init_ng(self, text_list):
        retval = []
        for idx, txt in enumerate(text_list):
            obj = build(text_list, txt=txt, comment_delimiter="!")
            retval.append(obj)
        self._list = retval
        if self.ignore_blank_lines:
            retval = [o for o in self._list if o.text.strip() != "" or o.keep]
            self._list = retval
        return retval
    @property
    def ioscfg(self): return [o.text for o in self._list]
class CiscoConfParse:
    def __init__(self, config=(), ignore_blank_lines=False):
        self.ConfigObjs = ConfigList(initlist=[x for x in config if len(x) > 0] if ignore_blank_lines else config)
    @property
    def ioscfg(self): return [o.text for o in self.ConfigObjs]
'''
BAD = (("            retval.append(obj)", "            if not obj.is_comment:\n                retval.append(obj)", "ConfigList.bootstrap_obj_init_ng|lost"),
       ("            retval.append(obj)", "            if txt == 'end':\n                break\n            retval.append(obj)", "ConfigList.bootstrap_obj_init_ng|stops"),
       ("enumerate(text_list)", "enumerate(text_list[1:])", "ConfigList.bootstrap_obj_init_ng|visits"),
       ('o.text.strip() != "" or o.keep', 'len(o.text) > 1', "ConfigList.bootstrap_obj_init_ng|after"),
       ("if self.ignore_blank_lines:", "if True:", "ConfigList.bootstrap_obj_init_ng|blank"),
       ("txt=txt,", "txt=txt.strip(),", "ConfigList.bootstrap_obj_init_ng|text"),
       ("            obj = build", "            txt = txt.replace('\t', ' ')\n            obj = build", "ConfigList.bootstrap_obj_init_ng|text"),
       ("            retval.append(obj)", "            retval.append(obj)\n            obj.text = obj.text.rstrip('@')", "ConfigList.bootstrap_obj_init_ng|edits"),
       ("newtext.rstrip()", "newtext.replace('x', '')", "BaseCfgLine.text.setter|stores"),
       ("[o.text for o in self.ConfigObjs]", "[o.text for o in self.ConfigObjs if o.text]", "CiscoConfParse.ioscfg|listing"),
       ("if ignore_blank_lines else config", "if not ignore_blank_lines else config", "CiscoConfParse.__init__|blank"))


def selftest():
    p = Program.from_source(EX)
    r = Result("x")
    check(p, r)
    if r.findings:
        raise AnalysisBroken(f"C07 self-example: {[f.key for f in r.findings]}")
    for a, b, want in BAD:
        if a not in EX:
            raise AnalysisBroken("C07 self-example text")
        r = Result("x")
        check(Program.from_source(EX.replace(a, b)), r)
        got = [f.key for f in r.findings]
        if not any(g.split("|")[1] == want.split("|")[1] for g in got):
            raise AnalysisBroken(f"C07 self-example: {got} without {want} ({r.undecided})")
