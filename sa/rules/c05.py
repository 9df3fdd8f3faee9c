"""C05: line numbers equal list positions after every edit."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted, strip_doc
from ..walk import Walk, core
from ..edits import RAW, OPS, Lists, callees, edit_methods, is_reparse, list_classes, self_call
from ..defassign import stored

CLEAN = (False, False, None)


def bound_in(loop):
    return set(stored(loop.body)) | (set(stored([loop.target])) if isinstance(loop, (ast.For, ast.AsyncFor)) else set())


def renumber(L, s):
    """the loop renumbers the list: True / 'wrong' / 'unknown' / None when it is not about numbers"""
    if not isinstance(s, (ast.For, ast.While)):
        return None
    w = [x for x in ast.walk(s) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "linenum" for t in x.targets)]
    if not w or isinstance(s, ast.While):
        return "unknown" if w else None
    it = s.iter
    ok = "unknown"
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
        src = it.args[0]
        part = isinstance(src, ast.Subscript) and isinstance(src.slice, ast.Slice)
        c = core(src)
        start = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == "start"), None)
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id in ("reversed", "sorted", "set"):
            return "wrong" if src.func.id != "sorted" and L.kind(c) else "unknown"
        if part:
            if L.kind(src.value) and start is None and src.slice.lower is not None and not (isinstance(src.slice.lower, ast.Constant) and src.slice.lower.value == 0):
                return "wrong"
            return "unknown"
        if not L.kind(c):
            return None
        off = 0
        if start is not None:
            if not (isinstance(start, ast.Constant) and isinstance(start.value, int)):
                return "unknown"
            off = start.value
        if not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and all(isinstance(x, ast.Name) for x in s.target.elts)):
            return "unknown"
        i, o = (x.id for x in s.target.elts)
        ok = form(s.body, i, lambda t: isinstance(t.value, ast.Name) and t.value.id == o, off)
    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and isinstance(s.target, ast.Name):
        i = s.target.id
        lens = [a for a in it.args if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and a.args and L.kind(a.args[0])]
        if not lens:
            return None
        if len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and it.args[0].value:
            return "wrong"
        if len(it.args) > 1 and not (len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and it.args[0].value == 0):
            return "unknown"
        ok = form(s.body, i, lambda t: isinstance(t.value, ast.Subscript) and L.kind(t.value.value) and isinstance(t.value.slice, ast.Name) and t.value.slice.id == i, 0)
    return ok


def form(body, i, elem, off):
    """how the element's number is assigned in the loop body"""
    if any(isinstance(x, (ast.Break, ast.Return)) for b in body for x in ast.walk(b)):
        return "wrong"      # the elements after that one keep their old numbers
    if any(isinstance(x, ast.Continue) for b in body for x in ast.walk(b)):
        return "unknown"
    for st in body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "linenum" for t in st.targets):
            t = next(t for t in st.targets if isinstance(t, ast.Attribute) and t.attr == "linenum")
            if not elem(t):
                return "unknown"
            v = st.value
            k = None
            if isinstance(v, ast.Name) and v.id == i:
                k = 0
            elif isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == i and isinstance(v.right, ast.Constant) and isinstance(v.right.value, int) and isinstance(v.op, (ast.Add, ast.Sub)):
                k = v.right.value if isinstance(v.op, ast.Add) else -v.right.value
            if k is None:
                return "unknown"
            return True if k + off == 0 else "wrong"
        if isinstance(st, ast.If):
            inner = form(st.body, i, elem, off)
            if inner == "unknown":
                continue
            t = st.test
            if isinstance(t, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == "linenum" for x in ast.walk(t)):
                return inner
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                return "unknown"
            # another condition: some elements keep their old number
            return "unknown" if st.orelse else "wrong"
    return "unknown"


class Track(Walk):
    def __init__(self, an, f, binding):
        super().__init__(f.node)
        self.an, self.f = an, f
        self.L = Lists(an.prog, f, binding)
        self.loops = []
        self.fresh = self.reparsed_names()
        self.built = self.built_names() if f.name == "bootstrap_obj_init_ng" else set()

    def reparsed_names(self):
        out = {}
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                out.setdefault(n.targets[0].id, []).append(n.value)
        return {k for k, vs in out.items() if all(self.reparsed(v, ()) for v in vs)}

    def built_names(self):
        """lists filled once per input line, in order, with numbered objects -> position up to which that holds"""
        out = {}
        for s in ast.walk(self.f.node):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate":
                for st in s.body:
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name):
                        out[st.value.func.value.id] = 10 ** 9
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in out:
                if not (isinstance(n.value, ast.List) and not n.value.elts) and not self.keeps(n.value, out):
                    out[n.targets[0].id] = min(out[n.targets[0].id], n.lineno)
        return out

    def keeps(self, v, names):
        """the value is the built list itself, possibly handed through a function that returns it"""
        if isinstance(v, ast.Name):
            return v.id in names
        if isinstance(v, ast.Tuple):
            return True
        if isinstance(v, ast.Call):
            if any(isinstance(x, ast.Name) and x.id in names for x in list(v.args) + [k.value for k in v.keywords]):
                g = self_call(self.an.prog, self.f, v)
                if g is None and isinstance(v.func, ast.Name):
                    r = self.an.prog.resolve_name(self.f.module, v.func.id)
                    g = r[1] if r and r[0] == "func" else None
                return g is not None and returns_param(g)
        return False

    def reparsed(self, v, seen=None):
        """the value is the list a re-parse produced"""
        if isinstance(v, ast.Name):
            return v.id in (self.fresh if seen is None else ())
        if isinstance(v, ast.Call):
            if is_reparse(v):
                return True
            g = self_call(self.an.prog, self.f, v)
            if g is not None and g not in self.an.stack:
                rs = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
                self.an.stack.append(g)
                try:
                    t = Track(self.an, g, ())
                    return bool(rs) and all(r.value is not None and t.reparsed(r.value) for r in rs)
                finally:
                    self.an.stack.pop()
        return False

    # ---- statements
    def stmt(self, s, st):
        r = renumber(self.L, s)
        if r is True:
            self.an.renumbered.add((self.f.qual, s.lineno))
            return self.mapv(self.forget(st, bound_in(s)), lambda v: ((v[1], v[1], v[2] if v[1] else None),))
        if r == "wrong":
            self.an.wrong.append((self.f, s))
            return self.mapv(st, lambda v: (CLEAN,))
        if r == "unknown":
            self.an.unknown.append(f"{self.f.qual}: the numbering loop at line {s.lineno}")
            return self.mapv(st, lambda v: (CLEAN,))
        if isinstance(s, (ast.For, ast.While)):
            self.loops.append(s)
            try:
                return super().stmt(s, st)
            finally:
                self.loops.pop()
        return super().stmt(s, st)

    def dirty(self, n, dup=False):
        w = f"{self.f.loc(n)} {ast.unparse(n)[:90]}"
        return (True, dup, w)

    def call(self, n, v):
        fn = n.func
        if is_reparse(n):
            if self.f.name == "bootstrap_obj_init_ng":
                return (v,)
            return (CLEAN,)
        if isinstance(fn, ast.Attribute):
            k = self.L.kind(fn.value)
            if k == "raw" and fn.attr in RAW:
                self.an.sites.add((self.f.qual, n.lineno))
                if fn.attr == "clear":
                    return (CLEAN,)
                if fn.attr == "pop" and not n.args and not n.keywords:
                    return (v,)
                dup = False
                if self.loops and fn.attr in ("insert", "append") and n.args and isinstance(n.args[-1], ast.Name):
                    # the same object at several positions
                    nm = n.args[-1].id
                    dup = all(nm not in bound_in(lp) for lp in self.loops[-1:])
                return (self.dirty(n, dup or v[1]),)
            if k == "obj" and fn.attr in RAW and self.an.prog.find_method("ConfigList", fn.attr) is None:
                # the abstract base class does it through the item operations
                via = {"append": "insert", "extend": "insert", "pop": "__delitem__", "remove": "__delitem__", "clear": "__delitem__", "reverse": "__setitem__"}.get(fn.attr)
                g = via and self.an.prog.find_method("ConfigList", via)
                if g:
                    return self.an.apply(g, (), v)
        cs = callees(self.an.prog, self.f, self.L, n, self.an.names)
        out = set()
        for g, b in cs:
            out |= set(self.an.apply(g, b, v))
        return out or (v,)

    def store(self, t, s, v):
        if isinstance(t, ast.Subscript):
            k = self.L.kind(t.value)
            if k == "raw":
                self.an.sites.add((self.f.qual, s.lineno))
                return (self.dirty(s, v[1]),)
            if k == "obj":
                op = OPS["del"] if isinstance(s, ast.Delete) else OPS["set"]
                g = self.an.prog.find_method("ConfigList", op)
                return self.an.apply(g, (), v) if g else (v,)
            return (v,)
        if isinstance(s, ast.AugAssign):
            k = self.L.kind(t)
            if k == "raw":
                self.an.sites.add((self.f.qual, s.lineno))
                return (self.dirty(s, v[1] or isinstance(s.op, ast.Mult)),)
            if k == "obj":
                g = self.an.prog.find_method("ConfigList", OPS["aug*" if isinstance(s.op, ast.Mult) else "aug+"])
                return self.an.apply(g, (), v) if g else (v,)
            return (v,)
        if isinstance(t, ast.Attribute) and t.attr == "_list" and self.L.kind(t) == "raw" and isinstance(s, ast.Assign):
            self.an.sites.add((self.f.qual, s.lineno))
            val = s.value
            if self.reparsed(val):
                return (CLEAN,)
            if isinstance(val, ast.List) and not val.elts:
                return (CLEAN,)
            if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == "list" and len(val.args) == 1 and self.L.kind(val.args[0]):
                return (v,)
            if self.L.kind(val) == "raw" or self.built and self.keeps(val, {k for k, ln in self.built.items() if s.lineno < ln}):
                return (v,) if not self.built else (CLEAN,)
            if isinstance(val, ast.BinOp) and isinstance(val.op, ast.Mult):
                return (self.dirty(s, True),)
            return (self.dirty(s, v[1]),)
        return (v,)


def returns_param(g):
    """every returned value is one of the parameters (possibly in a tuple)"""
    rs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Return) and x.value is not None]
    ps = set(g.params)
    re = set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id in ps:
                    re.add(t.id)
    return bool(rs) and all(isinstance(r, ast.Name) and r.id in ps and r.id not in re or isinstance(r, ast.Tuple) for r in rs)


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.names = edit_methods(prog)
        self.memo, self.active = {}, set()
        self.sites, self.renumbered, self.wrong, self.unknown = set(), set(), [], []
        self.stack = []
        self.changed = False

    def apply(self, g, binding, v):
        """exit values of function g entered with value v"""
        key = (g.qual, binding, v[:2])
        if key in self.active:
            return self.memo.get(key, ())
        if key in self.memo and self.done:
            return self.fix(self.memo[key], v)
        self.active.add(key)
        try:
            for _ in range(4):
                before = self.memo.get(key)
                t = Track(self, g, binding)
                t.run((v[0], v[1], "entry" if v[0] else None))
                out = {w for st, _n in t.returns for _f, w in st}
                self.memo[key] = frozenset(out)
                if self.memo[key] == before:
                    break
                if key not in self.rec:
                    break
        finally:
            self.active.discard(key)
        return self.fix(self.memo[key], v)

    done = True
    rec = frozenset()

    @staticmethod
    def fix(out, v):
        return {(a, b, v[2] if w == "entry" else w) for a, b, w in out}


def touched(prog):
    """functions that mention the line list at all"""
    out = []
    for f in prog.all_funcs():
        if f.outer is not None:
            continue
        src = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if f.cls is not None and (f.cls.name in list_classes(prog) or any(prog.is_subclass(f.cls.name, x) for x in ("CiscoConfParse", "BaseCfgLine"))) or src & {"ConfigObjs", "confobj", "_list"}:
            out.append(f)
    return out


def numbered_builder(prog, res):
    """every line the parse builds is numbered with its index before it is handed back"""
    boot = prog.find_method("ConfigList", "bootstrap_obj_init_ng")
    if boot is None:
        return
    for lp in [s for s in ast.walk(boot.node) if isinstance(s, ast.For)]:
        if not (isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Name) and lp.iter.func.id == "enumerate" and isinstance(lp.target, ast.Tuple) and isinstance(lp.target.elts[0], ast.Name)):
            continue
        idx = lp.target.elts[0].id
        for n in ast.walk(lp):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                continue
            r = prog.resolve_name(boot.module, n.func.id)
            if not r or r[0] != "func":
                continue
            g = r[1]
            from .c17 import bind_error  # noqa: F401  (signature helper lives there)
            got = {}
            for p, a in zip(g.params, n.args):
                got[p] = a
            got.update({k.arg: k.value for k in n.keywords if k.arg})
            ps = [p for p, a in got.items() if isinstance(a, ast.Name) and a.id == idx]
            stores = [x for x in ast.walk(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "linenum" for t in x.targets)]
            if len(ps) != 1 or not stores:
                continue

            class W(Walk):
                def store(self, t, s, v):
                    if isinstance(t, ast.Attribute) and t.attr == "linenum":
                        return (isinstance(s.value, ast.Name) and s.value.id == ps[0],)
                    if isinstance(t, ast.Name):
                        # a new object under the same name starts without a number
                        return (False if isinstance(getattr(s, "value", None), ast.Call) else v,)
                    return (v,)
            w = W(g.node)
            w.run(False)
            res.count("line builders whose numbering was followed")
            for st, node in w.returns:
                if any(not v for _f, v in st) and isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant)):
                    res.add(f"{g.qual}|unnumbered", f"{g.qual} may return a new line that does not carry its index as its line number", g.loc(node))


def check(prog, res):
    if "ConfigList" not in prog.classes:
        raise AnalysisBroken("class ConfigList no longer exists")
    an = Analysis(prog)
    for f in touched(prog):
        if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
            continue
        if f.name in ("__new__",):
            continue
        out = an.apply(f, (), CLEAN)
        res.count("public functions followed")
        bad = [w for w in out if w[0]]
        for d, dup, w in bad[:1]:
            why = "the same line object sits at several positions" if dup else "the list was changed and not renumbered"
            res.add(f"{f.qual}", f"{f.qual} can finish with line numbers that differ from list positions: {why}", f.loc(), (w or "",))
    for f, s in {(f.qual, s.lineno): (f, s) for f, s in an.wrong}.values():
        res.add(f"{f.qual}|numbering", f"{f.qual} does not give every line its own index as its number", f.loc(s))
    for u in sorted(set(an.unknown)):
        res.undec(u)
    res.count("operations on the line list", len(an.sites))
    res.count("renumbering loops", len(an.renumbered))
    numbered_builder(prog, res)


def run(ctx):
    res = Result("Interprocedural typestate of the one list of configuration lines: every public function that changes the list (raw list operations, item and "
                 "slice stores, deletions, rebinding) renumbers or re-parses it on every path to a normal exit; the renumbering loop and the parse's own numbering are checked.")
    check(ctx.prog, res)
    res.floor("operations on the line list", 10)
    res.floor("public functions followed", 150)
    return res


EX = '''
class ConfigList:
    def __init__(self): self._list = self.bootstrap_obj_init_ng([])
    def reassign_linenums(self):
        for idx, obj in enumerate(self._list):
            obj.linenum = idx
    def bootstrap_obj_init_ng(self, text):
        self._list = [x for x in text if x]
        self.reassign_linenums()
        return self._list
    def bad_append(self, x): self._list.append(x)
    def ok_append(self, x):
        self._list.append(x)
        self._tidy()
    def _tidy(self): self.reassign_linenums()
    def flagged(self, xs):
        changed = False
        for x in xs:
            self._list.append(x)
            changed = True
        if changed:
            self.reassign_linenums()
    def twice(self, x, where):
        for i in where:
            self._list.insert(i, x)
        self.reassign_linenums()
    def half(self, x, atomic=False):
        self._list.append(x)
        if atomic:
            self._list = self.bootstrap_obj_init_ng(self.text)
class BaseCfgLine:
    def bad_delete(self):
        del self.confobj._list[self.linenum]
    def ok_delete(self):
        del self.confobj._list[self.linenum]
        self.confobj.reassign_linenums()
class CiscoConfParse:
    def commit(self):
        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
    def bad_front(self, x):
        self.ConfigObjs.bad_append(x)
    def ok_front(self, x):
        self.ConfigObjs.bad_append(x)
        self.commit()
'''


def selftest():
    p = Program.from_source(EX)
    r = Result("x")
    check(p, r)
    got = sorted(f.key for f in r.findings)
    want = sorted(["ConfigList.bad_append", "ConfigList.half", "ConfigList.twice", "BaseCfgLine.bad_delete", "CiscoConfParse.bad_front"])
    if got != want:
        raise AnalysisBroken(f"C05 self-example: {got}")
