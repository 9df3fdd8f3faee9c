"""C08: parent and child links are recorded together."""
import ast
import re

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc
from ..walk import Walk
from ..edits import self_call

ROOTS = {"add_child", "add_parent"}
BUILDERS = {"cfgobj_from_text", "config_line_factory"}
OTHER = {"extend", "sort", "reverse", "clear", "pop", "copy"}


def mentions(expr, name):
    return re.search(r"(?<![\w.])" + re.escape(name) + r"(?!\w)", expr) is not None


def is_children(e):
    return isinstance(e, ast.Attribute) and e.attr == "children"


class Links(Walk):
    """value: frozenset of ("place"|"rec", parent, child), ("need"|"free"|"own", child), ("alias", name, expr)"""

    def __init__(self, an, f):
        super().__init__(f.node)
        self.an, self.f = an, f
        self.cur = frozenset()
        self.broken = []

    def mapv(self, st, fn):
        out = set()
        for f, v in st:
            self.cur = f
            for w in fn(v):
                out.add((f, w))
        return frozenset(out)

    # -- names of objects
    def ex(self, e, val):
        if isinstance(e, ast.Name):
            for t in val:
                if t[0] == "alias" and t[1] == e.id:
                    return t[2]
            return e.id
        if isinstance(e, ast.Attribute):
            x = self.ex(e.value, val)
            if e.attr == "parent":
                for t in val:
                    if t[0] == "rec" and t[2] == x:
                        return t[1]
                if ("own", x) in val:
                    return x
            return f"{x}.{e.attr}"
        if isinstance(e, ast.Subscript):
            return f"{self.ex(e.value, val)}[{ast.unparse(e.slice)}]"
        return f"{ast.unparse(e)}@{getattr(e, 'lineno', 0)}:{getattr(e, 'col_offset', 0)}"

    def free(self, c, val):
        if ("free", c) in val or ("own", c) in val:
            return True
        names = {c} | {t[1] for t in val if t[0] == "alias" and t[2] == c}
        held = {t[1] for t in val if t[0] == "alias" and t[2] == f"{c}.parent"}
        for k, b in self.cur:
            for n in names:
                if any(b and k in (f"{o} is {n}", f"{n} is {o}", f"{o} == {n}", f"{n} == {o}") or not b and k == f"{n} in {o}.children" for o in held):
                    return True
                if b and k in (f"{n}.parent is {n}", f"{n} is {n}.parent", f"{n}.parent == {n}", f"{n} == {n}.parent"):
                    return True
                if not b and k == f"{n} in {n}.parent.children":
                    return True
        return False

    # -- effects
    def place(self, p, c, val):
        return val | {("place", p, c)}

    def leave(self, c, val):
        return (val - {("need", c)}) | {("free", c)}

    def record(self, p, c, val):
        ok = self.free(c, val)
        val = frozenset(t for t in val if not (t[0] in ("own", "free") and t[1] == c))
        # what C.parent meant so far
        if p == c:
            val = frozenset(t for t in val if not (t[0] == "rec" and t[2] == c))
            val |= {("own", c)}
        else:
            val |= {("rec", p, c)}
        if not ok:
            val |= {("need", c)}
        return val

    def unplace(self, holder, c, val):
        """c leaves the list of children of `holder`"""
        if ("place", holder, c) in val:
            return val - {("place", holder, c)}
        if holder == f"{c}.parent":
            return self.leave(c, val)
        return val

    def call(self, n, val):
        fn = n.func
        if isinstance(fn, ast.Attribute) and self.kids(fn.value, val) is not None:
            p = self.kids(fn.value, val)
            if fn.attr in ("append", "insert", "add") and n.args:
                return (self.place(p, self.ex(n.args[-1], val), val),)
            if fn.attr == "extend" and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)):
                for a in n.args[0].elts:
                    val = self.place(p, self.ex(a, val), val)
                return (val,)
            if fn.attr == "remove" and n.args:
                return (self.unplace(p, self.ex(n.args[0], val), val),)
            if fn.attr in OTHER and fn.attr != "copy":
                self.an.odd.add(self.f)
            return (val,)
        g = self.an.resolve(self.f, n)
        if g is None:
            return (val,)
        return self.apply(g, n, val)

    def kids(self, e, val):
        """the parent whose list of children the expression is"""
        if is_children(e):
            return self.ex(e.value, val)
        if isinstance(e, ast.Name):
            x = self.ex(e, val)
            if x.endswith(".children"):
                return x[:-len(".children")]
        return None

    def apply(self, g, n, val):
        outs = self.an.summary(g)
        if not outs or all(not o for o in outs):
            return (val,)
        b = self.an.bind(g, n)
        sub = {}
        for p, a in b.items():
            sub[p] = self.ex(a, val)
        res = set()
        for o in outs:
            v = val
            free = {t[1] for t in val if t[0] in ("free", "own")}

            def tr(x):
                root = re.match(r"\w+", x)
                if root and root.group() in sub:
                    return sub[root.group()] + x[root.end():]
                return None
            # leave first, then record, then what is still owed
            for t in o:
                ts = [tr(x) for x in t[1:]]
                if any(x is None for x in ts):
                    continue
                if t[0] in ("place", "rec"):
                    if t[0] == "rec":
                        v = frozenset(y for y in v if not (y[0] in ("own", "free") and y[1] == ts[1]))
                    v |= {(t[0], ts[0], ts[1])}
            for t in o:
                ts = [tr(x) for x in t[1:]]
                if any(x is None for x in ts):
                    continue
                if t[0] == "need":
                    if not (ts[0] in free or self.free(ts[0], val)):
                        v |= {("need", ts[0])}
                elif t[0] == "free":
                    v = self.leave(ts[0], v)
                elif t[0] == "own":
                    v = frozenset(y for y in v if not (y[0] == "rec" and y[2] == ts[0])) | {("own", ts[0])}
            res.add(v)
        return tuple(res)

    def store(self, t, s, val):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) else None
        if isinstance(t, ast.Attribute) and t.attr == "parent" and isinstance(s, ast.Assign) and not isinstance(s.value, ast.Tuple):
            return (self.record(self.ex(v, val), self.ex(t.value, val), val),)
        if isinstance(t, ast.Attribute) and t.attr == "parent":
            self.an.odd.add(self.f)
            return (val,)
        if is_children(t):
            p = self.ex(t.value, val)
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.Tuple)):
                for a in s.value.elts:
                    val = self.place(p, self.ex(a, val), val)
                return (val,)
            if isinstance(v, (ast.List, ast.Tuple)) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args:
                return (val,)
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and is_children(v.left) and self.ex(v.left.value, val) == p and isinstance(v.right, ast.List):
                for a in v.right.elts:
                    val = self.place(p, self.ex(a, val), val)
                return (val,)
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and is_children(v.generators[0].iter) and len(v.generators[0].ifs) == 1:
                c = v.generators[0].ifs[0]
                if isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.IsNot, ast.NotEq)):
                    return (self.unplace(p, self.ex(c.comparators[0], val), val),)
            self.an.odd.add(self.f)
            return (val,)
        if isinstance(t, ast.Name):
            # an expression that mentions the name means something else from here on
            gone = [x for x in val if any(mentions(y, t.id) for y in x[1:] if isinstance(y, str)) and not (x[0] == "alias" and x[1] != t.id and not mentions(x[2], t.id))]
            self.settle(val, t.id, s)
            val = val - frozenset(gone)
            if isinstance(v, (ast.Name, ast.Attribute)) and dotted(v) is not None and not mentions(ast.unparse(v), t.id):
                x = self.ex(v, val)
                val |= {("alias", t.id, x)}
            elif isinstance(v, ast.Call):
                nm = (dotted(v.func) or "").split(".")[-1]
                if nm in BUILDERS or nm.endswith("CfgLine"):
                    val |= {("free", t.id)}
            return (val,)
        return (val,)

    def settle(self, val, name, node):
        """pairs that mention a name about to be rebound must be complete"""
        for k, msg in owed(val):
            if any(mentions(x, name) for x in k[1:]):
                self.broken.append((k, msg, node))

    def finish(self):
        """-> the outcomes of the function in terms of its parameters"""
        ps = set(self.f.params)
        outs = set()
        for st, node in self.returns:
            for _, val in st:
                debt = owed(val)
                keep = set()
                for t in val:
                    if t[0] == "alias":
                        continue
                    if all(re.match(r"\w+", x) and re.match(r"\w+", x).group() in ps for x in t[1:]):
                        keep.add(t)
                for k, msg in debt:
                    if k not in keep:
                        self.broken.append((k, msg, node))
                outs.add(frozenset(keep))
        return outs


def owed(val):
    out = []
    for t in val:
        if t[0] == "place" and ("rec",) + t[1:] not in val:
            out.append((t, f"{t[2]} is put into the children of {t[1]} without making {t[1]} its parent"))
        elif t[0] == "rec" and ("place",) + t[1:] not in val:
            out.append((t, f"{t[1]} becomes the parent of {t[2]} without {t[2]} being put into its children"))
        elif t[0] == "need":
            out.append((t, f"{t[1]} gets a new parent without leaving the children of the one it had"))
    return out


class Analysis:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.memo, self.odd, self.done = {}, set(), {}
        self.funcs = []
        for f in prog.all_funcs():
            if touches(f):
                self.funcs.append(f)
        lines = prog.subclasses.get("BaseCfgLine", set())
        self.linemeth = {}
        for c in lines:
            for n, g in prog.classes[c].methods.items():
                self.linemeth.setdefault(n, []).append(g)
        # functions that change links, directly or through calls
        self.act = set(self.funcs)
        self.callers = {}
        while True:
            more = set()
            for f in prog.all_funcs():
                if f in self.act:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call):
                        g = self.resolve(f, n)
                        if g in self.act:
                            more.add(f)
            if not more:
                break
            self.act |= more
        for f in prog.all_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    g = self.resolve(f, n)
                    if g in self.act and g is not f:
                        self.callers.setdefault(g, []).append(f)

    def resolve(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f.nested.get(fn.id) if hasattr(f, "nested") else None
            if g is not None:
                return g
            r = self.prog.resolve_name(f.module, fn.id)
            return r[1] if r and r[0] == "func" else None
        if isinstance(fn, ast.Attribute):
            g = self_call(self.prog, f, call)
            if g is not None:
                return g
            d = dotted(fn)
            if d and d.split(".")[0] in self.prog.classes and len(d.split(".")) == 2:
                return self.prog.find_method(*d.split("."))
            gs = [x for x in self.linemeth.get(fn.attr, ()) if x in self.funcs_set()]
            if len(gs) == 1:
                return gs[0]
        return None

    def funcs_set(self):
        if not hasattr(self, "_fs"):
            # methods of line objects that change links, directly or through a method of the same object
            fs = {f for f in self.funcs if f.cls is not None and f.cls.name in self.prog.subclasses.get("BaseCfgLine", set())}
            while True:
                more = set()
                for gs in self.linemeth.values():
                    for g in gs:
                        if g in fs:
                            continue
                        for n in ast.walk(g.node):
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                                if any(x in fs for x in self.linemeth.get(n.func.attr, ())):
                                    more.add(g)
                if not more:
                    break
                fs |= more
            self._fs = fs
        return self._fs

    def bind(self, g, call):
        ps = list(g.params)
        out = {}
        static = any((dotted(d) or "") == "staticmethod" for d in g.node.decorator_list)
        if g.cls is not None and not static and isinstance(call.func, ast.Attribute) and ps:
            out[ps[0]] = call.func.value
            ps = ps[1:]
        out.update(dict(zip(ps, call.args)))
        out.update({k.arg: k.value for k in call.keywords if k.arg})
        return out

    def summary(self, g):
        if g not in self.act:
            return None
        if g in self.memo:
            return self.memo[g]
        self.memo[g] = {frozenset()}
        if g.name == "text" and g.kind == "setter":
            return self.memo[g]
        w = Links(self, g)
        init = frozenset()
        if g.name == "__init__" and g.params:
            init = frozenset({("free", g.params[0])})
        w.run(init)
        outs = w.finish()
        self.done[g] = w
        self.memo[g] = outs
        if len(outs) > 24:
            self.res.undec(f"{g.qual}: too many outcomes")
            self.memo[g] = {frozenset()}
        return self.memo[g]


def touches(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "parent" and isinstance(n.ctx, ast.Store):
            return True
        if is_children(n) and isinstance(n.ctx, ast.Store):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "remove", "extend"):
            if is_children(n.func.value):
                return True
            if isinstance(n.func.value, ast.Name) and any(isinstance(a, ast.Assign) and is_children(a.value) and any(isinstance(t, ast.Name) and t.id == n.func.value.id for t in a.targets) for a in ast.walk(f.node)):
                return True
    return False


def check(prog, res):
    if "BaseCfgLine" not in prog.classes:
        raise AnalysisBroken("BaseCfgLine no longer exists")
    an = Analysis(prog, res)
    pairs = 0
    for f in sorted(an.act, key=lambda x: x.qual):
        outs = an.summary(f)
        res.count("functions that change links")
        w = an.done.get(f)
        if w is None:
            continue
        broken = list(w.broken)
        root = f.name in ROOTS or not an.callers.get(f)
        for o in outs:
            pairs += sum(1 for t in o if t[0] == "place" and ("rec",) + t[1:] in o)
            if root and not (f.name == "text" and f.kind == "setter"):
                broken += [(k, msg, f.node) for k, msg in owed(o)]
        for k, msg, node in broken:
            if f in an.odd:
                res.undec(f"{f.qual}: {msg} (children changed in a way not followed)")
            else:
                res.add(f"{f.qual}|{k[0]}", f"in {f.qual}, {msg}", f.loc(node))
    res.count("links recorded at both ends", pairs)
    # every line starts as its own parent, without children
    init = prog.find_method("BaseCfgLine", "__init__")
    if init is None:
        raise AnalysisBroken("BaseCfgLine.__init__ no longer exists")
    me = init.params[0]
    w = Links(an, init)
    w.run(frozenset({("free", me)}))
    for st, node in w.returns:
        for _, val in st:
            res.count("paths through the line constructor")
            if ("rec",) in {t[:1] for t in val} or ("own", me) not in val:
                p = [t for t in val if t[0] == "rec" and t[2] == me]
                res.add(f"{init.qual}|own", f"{init.qual} can leave a new line with {'another parent' if p else 'no parent'} instead of itself", init.loc(node))
    stores = [n for n in ast.walk(init.node) if isinstance(n, ast.Attribute) and is_children(n) and isinstance(n.ctx, ast.Store)]
    res.count("children lists created", len(stores))


def run(ctx):
    res = Result("Path-sensitive pairing of the writes that link lines (placing in a list of children, recording the parent, leaving the former parent), "
                 "helpers inlined through summaries over their parameters.")
    check(ctx.prog, res)
    res.floor("functions that change links", 4)
    res.floor("links recorded at both ends", 2)
    res.floor("paths through the line constructor", 1)
    return res


EX = '''
def build(x): return BaseCfgLine(x)
def move(p, c):
    if c.parent is not c:
        c.parent.children.remove(c)
    p.children.append(c)
    c.parent = p
class BaseCfgLine:
    def __init__(self, t):
        self.parent = self
        self.children = []
    def add_child(self, c):
        if c in self.children:
            return False
        c._leave()
        self.children.append(c)
        c.parent = self
        return True
    def add_parent(self, p):
        if p is self:
            self._leave()
        elif p is not self.parent:
            p.add_child(self)
    def _leave(self):
        if self.parent is not self and self in self.parent.children:
            self.parent.children.remove(self)
        self.parent = self
class ConfigList:
    def parse(self, text):
        last = None
        for t in text:
            obj = cfgobj_from_text(t)
            self._add(last, obj)
            last = obj
        for x, y in zip(self.a, self.b):
            move(x, y)
    def _add(self, p, c):
        if p is None:
            return
        if c.parent is c:
            p.children.append(c)
            c.parent = p
    def other_order(self, p, c):
        old = c.parent
        if old is c:
            kids = p.children
            kids.append(c)
            c.parent = p
        else:
            c.parent = p
            p.children.append(c)
            old.children.remove(c)
'''
BAD = (("            p.children.append(c)\n            c.parent = p\n    def other", "            p.children.append(c)\n    def other", "ConfigList.parse|place"),
       ("        if c.parent is c:\n            p", "        if True:\n            p", None),
       ("    p.children.append(c)\n    c.parent = p\nclass", "    c.parent = p\nclass", "ConfigList.parse|rec"),
       ("    if c.parent is not c:\n        c.parent.children.remove(c)\n", "", "ConfigList.parse|need"),
       ("        c._leave()\n", "", "BaseCfgLine.add_child|need"),
       ("        c.parent = self\n", "", "BaseCfgLine.add_child|place"),
       ("        self.parent = self\n        self.children = []", "        self.children = []", "BaseCfgLine.__init__|own"),
       ("            p.add_child(self)", "            self.parent = p", "BaseCfgLine.add_parent|rec"),
       ("            self.parent.children.remove(self)\n", "            pass\n", "BaseCfgLine.add_child|need"))


def selftest():
    r = Result("x")
    check(Program.from_source(EX), r)
    if r.findings or r.undecided:
        raise AnalysisBroken(f"C08 self-example: {[f.key for f in r.findings]} {r.undecided}")
    for a, b, want in BAD:
        if a not in EX:
            raise AnalysisBroken(f"C08 self-example text {a!r}")
        r = Result("x")
        check(Program.from_source(EX.replace(a, b, 1)), r)
        got = [f.key for f in r.findings]
        if want is None and got or want is not None and want not in got:
            raise AnalysisBroken(f"C08 self-example: {got} without {want} ({r.undecided})")
