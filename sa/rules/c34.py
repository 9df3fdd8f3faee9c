"""C34: edits at several places keep positions right.

Rules over every function of the configuration classes that changes the line list:
 order   a loop that changes the list at positions collected before the loop visits them
         from the last to the first (or renumbers between, or stops after the first);
 live    no loop runs over the list itself while its body changes it;
 stale   a line is removed through its stored number only where the list element at that
         position is compared with it;
 whole   removing a line with its family takes the line and every descendant, nothing else;
 once    a line reachable through several matching parents is edited once, every match is
         edited, and an edit of a matched line is handed the line, not its text.
"""
import ast

from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted, strip_doc
from ..edits import RAW, Lists, callees, edit_methods, is_reparse
from ..defassign import stored
from .c33 import family, FAMILIES

GROW = {"append", "insert", "pop", "remove", "clear", "extend"}
FLIP = {"asc": "desc", "desc": "asc", "any": "any", None: None}


def const(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None


class Fn:
    def __init__(self, an, f):
        self.an, self.f, self.prog = an, f, an.prog
        self.L = Lists(an.prog, f)
        self.vals, self.loops, self.parent = {}, {}, {}
        self.sorts = {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                self.parent[ch] = n
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.vals.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.vals.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.loops.setdefault(x.id, []).append(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("sort", "reverse"):
                r = next((const(k.value) for k in n.keywords if k.arg == "reverse"), False)
                keyed = any(k.arg == "key" for k in n.keywords)
                self.sorts.setdefault(n.func.value.id, []).append("flip" if n.func.attr == "reverse" else None if keyed else "desc" if r else "asc")

    # -- in which direction an iterable of positions (or of lines) runs
    def order(self, e, depth=0):
        if depth > 6:
            return None
        if self.unordered(e):
            return "any"
        if isinstance(e, ast.Name):
            vs = self.vals.get(e.id, [])
            os_ = {self.order(v, depth + 1) for v in vs if not (isinstance(v, (ast.List, ast.Call)) and self.filled(e.id, v))} if vs else {None}
            fill = self.fill_order(e.id)
            if fill is not None:
                os_ = (os_ | {fill}) if os_ - {None} else {fill}
            o = os_.pop() if len(os_) == 1 else None
            for s in self.sorts.get(e.id, []):
                o = FLIP[o] if s == "flip" else s
            return o
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            o = self.order(e.value, depth + 1)
            st = const(e.slice.step) if e.slice.step is not None else 1
            return None if not isinstance(st, int) else FLIP[o] if st < 0 else o
        if isinstance(e, ast.Attribute):
            return "asc" if e.attr in ("children", "all_children") or self.L.kind(e) else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            o = self.order(g.iter, depth + 1)
            if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "enumerate":
                return self.order(g.iter.args[0], depth + 1) if g.iter.args else None
            if isinstance(e.elt, ast.Name) or isinstance(e.elt, ast.Attribute) and e.elt.attr == "linenum":
                return o
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.id if isinstance(fn, ast.Name) else None
            if nm == "sorted":
                rv = next((k.value for k in e.keywords if k.arg == "reverse"), None)
                key = next((k.value for k in e.keywords if k.arg == "key"), None)
                if isinstance(key, ast.Name) and key.id in ("str", "repr", "hash", "id"):
                    return "any"
                if key is not None and not (isinstance(key, ast.Lambda) and isinstance(key.body, ast.Attribute) and key.body.attr in ("linenum", "lineno")):
                    return None
                if rv is None:
                    return "asc"
                r = const(rv)
                return None if r is None else "desc" if r else "asc"
            if nm == "reversed" and e.args:
                return FLIP[self.order(e.args[0], depth + 1)]
            if nm in ("list", "tuple", "iter", "filter") and e.args:
                return self.order(e.args[-1], depth + 1)
            if nm == "enumerate" and e.args:
                return self.order(e.args[0], depth + 1)
            if nm == "range" and e.args:
                st = const(e.args[2]) if len(e.args) == 3 else 1
                return None if not isinstance(st, int) else "desc" if st < 0 else "asc"
            if isinstance(fn, ast.Attribute) and fn.attr.lstrip("_").startswith("find"):
                return "asc"
            if isinstance(fn, ast.Attribute) and fn.attr == "copy" and not e.args:
                return self.order(fn.value, depth + 1)
        return None

    def unordered(self, e):
        """a set: its elements come in no order that follows their positions"""
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ("set", "frozenset"):
                return True
            if e.func.id in ("list", "tuple", "iter", "reversed", "enumerate") and e.args:
                return self.unordered(e.args[0])
        if isinstance(e, ast.Name):
            vs = self.vals.get(e.id, [])
            return bool(vs) and e.id not in self.sorts and e.id not in self.f.all_params and all(v is not None and not isinstance(v, ast.Name) and self.unordered(v) for v in vs)
        return False

    def filled(self, name, v):
        return isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "set") and not v.args

    def fill_order(self, name):
        """order of a list filled by append in loops"""
        os_ = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                if n.func.attr == "append":
                    lp = self.enclosing(n, (ast.For,))
                    os_.add(self.order(lp.iter, 2) if lp is not None else None)
                elif n.func.attr == "insert":
                    lp = self.enclosing(n, (ast.For,))
                    z = n.args and const(n.args[0]) == 0
                    os_.add(FLIP[self.order(lp.iter, 2)] if lp is not None and z else None)
                elif n.func.attr in ("add", "update", "extend"):
                    os_.add(None)
        return os_.pop() if len(os_) == 1 else None

    def enclosing(self, n, kinds):
        p = self.parent.get(n)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if isinstance(p, kinds):
                return p
            p = self.parent.get(p)
        return None

    def inside(self, n, anc):
        while n is not None:
            if n is anc:
                return True
            n = self.parent.get(n)
        return False

    # -- positional changes of the list
    def positional(self, kinds=("raw",)):
        """(node, index expression, what)"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("insert", "pop") and n.args and self.L.kind(n.func.value) in kinds:
                yield n, n.args[0], n.func.attr
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and self.L.kind(n.value) in kinds:
                yield n, n.slice.lower if isinstance(n.slice, ast.Slice) and n.slice.lower is not None else n.slice, "del"

    def alias(self, e, at):
        """index expression seen through a local name: its one assignment, or the latest one before the change in an enclosing block"""
        for _ in range(3):
            if not isinstance(e, ast.Name) or e.id in self.loops:
                break
            vs = self.vals.get(e.id, [])
            v = vs[0] if len(vs) == 1 else self.latest(e.id, at)
            if v is None:
                break
            e = v
        return e

    def latest(self, name, at):
        p, ch = self.parent.get(at), at
        while p is not None:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and ch in b:
                    for s in reversed(b[:b.index(ch)]):
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                            return s.value
                        if name in stored([s]):
                            return None
            if p is self.f.node:
                return None
            p, ch = self.parent.get(p), p
        return None

    def may_stop(self, loop, node):
        """after the change the loop is left on some path, by break or return"""
        s = node
        while s is not None and self.parent.get(s) is not None and s is not loop:
            q = self.parent[s]
            for fld in ("body", "orelse"):
                b = getattr(q, fld, None)
                if isinstance(b, list) and s in b:
                    for nx in b[b.index(s) + 1:]:
                        for x in ast.walk(nx):
                            if isinstance(x, ast.Return) or isinstance(x, ast.Break) and self.enclosing(x, (ast.For, ast.While)) is loop:
                                return True
            s = q
        return False

    def stops(self, loop, node):
        """after the change the loop is left on every path"""
        s = node
        while s is not None and self.parent.get(s) is not None and s is not loop:
            p = self.parent[s]
            for fld in ("body", "orelse"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and s in b:
                    for nx in b[b.index(s) + 1:]:
                        if isinstance(nx, (ast.Break, ast.Return, ast.Raise)):
                            return True
            s = p
        return False


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.names = edit_methods(prog)
        self.fn = {}
        self.lm = {}

    def get(self, f):
        if f.qual not in self.fn:
            self.fn[f.qual] = Fn(self, f)
        return self.fn[f.qual]

    def mutates_list(self, g, stack=()):
        """the function changes the line list (not only texts)"""
        if g.qual in self.lm:
            return self.lm[g.qual]
        if g.qual in stack or len(stack) > 8 or g.name == "__init__":
            return False
        F = self.get(g)
        r = False
        for n in ast.walk(g.node):
            if self.changes(F, n, stack + (g.qual,)):
                r = True
                break
        if r or not stack:
            self.lm[g.qual] = r
        return r

    def changes(self, F, n, stack=()):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in GROW and F.L.kind(n.func.value) == "raw":
                return True
            if is_reparse(n):
                return False
            return any(self.mutates_list(g, stack) for g, _b in callees(self.prog, F.f, F.L, n, self.names))
        return isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and F.L.kind(n.value) in ("raw", "obj")

    def renumbers(self, F, loop):
        """the loop body brings the line numbers up to date"""
        for n in ast.walk(loop):
            if isinstance(n, ast.Attribute) and n.attr == "linenum" and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Call):
                if is_reparse(n):
                    return True
                for g, _b in callees(self.prog, F.f, F.L, n, self.names):
                    if any(isinstance(x, ast.Attribute) and x.attr == "linenum" and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node)):
                        return True
        return False


def loopvars(loop):
    return {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}


def order_rule(an, F, res):
    for node, idx, what in F.positional(("raw", "obj")):
        loop = F.enclosing(node, (ast.For,))
        if loop is None:
            w = F.enclosing(node, (ast.While,))
            if w is not None:
                res.undec(f"{F.f.qual}: positional {what} in a while loop")
            continue
        res.count("changes at several positions")
        idx = F.alias(idx, node)
        names = {x.id for x in ast.walk(idx) if isinstance(x, ast.Name)}
        lv = loopvars(loop)
        if not names & lv:
            # the same position each time (e.g. always the front), or one that is recomputed
            res.undec(f"{F.f.qual}: the position of the {what} does not come from the loop")
            continue
        moved = set(stored(loop.body)) - lv
        if names & moved:
            res.undec(f"{F.f.qual}: the position of the {what} is adjusted inside the loop")
            continue
        o = F.order(loop.iter)
        if what == "insert" and F.may_stop(loop, node) and collects(F, loop):
            res.add(f"{F.f.qual}|first only", f"{F.f.qual} stops before every collected position is changed: not every matching line is edited", F.f.loc(node))
            continue
        if o == "desc":
            continue
        if F.stops(loop, node):
            continue
        if F.may_stop(loop, node) and what != "insert":
            continue
        if any(isinstance(x, ast.Attribute) and x.attr == "linenum" for x in ast.walk(idx)) and an.renumbers(F, loop):
            continue
        if o is None:
            res.undec(f"{F.f.qual}: direction of the loop over `{ast.unparse(loop.iter)[:50]}`")
            continue
        res.add(f"{F.f.qual}|order|{what}", f"{F.f.qual} changes the line list ({what}) at positions collected beforehand, {'in no order' if o == 'any' else 'from the first to the last'}: each change shifts the positions that follow", F.f.loc(node))


def collects(F, loop):
    """the loop runs over the positions of every match, collected before it"""
    it = loop.iter
    for _ in range(4):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("sorted", "reversed", "list", "tuple") and it.args:
            it = it.args[0]
        elif isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and it.slice.lower is None and it.slice.upper is None:
            it = it.value
    return isinstance(it, (ast.Name, ast.ListComp))


def live_rule(an, F, res):
    for comp in [n for n in ast.walk(F.f.node) if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))]:
        g0 = comp.generators[0].iter
        if not F.L.kind(g0):
            continue
        res.count("loops over the line list")
        inner = [comp.elt] if not isinstance(comp, ast.DictComp) else [comp.key, comp.value]
        inner += [x for g in comp.generators for x in g.ifs] + [g.iter for g in comp.generators[1:]]
        if any(an.changes(F, n) for b in inner for n in ast.walk(b)):
            res.add(f"{F.f.qual}|live", f"{F.f.qual} changes the line list while a comprehension runs over that very list: lines are skipped or visited twice", F.f.loc(comp))
    for loop in [n for n in ast.walk(F.f.node) if isinstance(n, ast.For)]:
        it = loop.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter", "filter", "zip", "map") and it.args:
            it = it.args[-1 if it.func.id in ("filter", "map") else 0]
        if not F.L.kind(it):
            continue
        res.count("loops over the line list")
        for n in [x for b in loop.body for x in ast.walk(b)]:
            if an.changes(F, n) and not F.stops(loop, n):
                res.add(f"{F.f.qual}|live", f"{F.f.qual} changes the line list while a loop runs over that very list: lines are skipped or visited twice", F.f.loc(n))
                break


def stale_rule(an, F, res):
    for node, idx, what in F.positional():
        if what == "insert":
            continue
        lp = F.enclosing(node, (ast.For, ast.While))
        e = F.alias(idx, node)
        src = [x for x in ast.walk(e) if isinstance(x, ast.Attribute) and x.attr == "linenum"]
        if not src:
            continue
        res.count("removals through a stored number")
        ok = False
        # any comparison of the list's element with the line, in a condition that governs the removal
        tests = []
        p, ch = F.parent.get(node), node
        while p is not None and p is not F.f.node:
            if isinstance(p, (ast.If, ast.While)):
                tests.append(p.test)
            for fld in ("body", "orelse"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and ch in b:
                    for s in b[:b.index(ch)]:
                        if isinstance(s, ast.Assert):
                            tests.append(s.test)
                        elif isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)):
                            tests.append(s.test)
            p, ch = F.parent.get(p), p
        b = F.f.node.body
        if ch in b:
            for s in b[:b.index(ch)]:
                if isinstance(s, ast.Assert):
                    tests.append(s.test)
                elif isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)):
                    tests.append(s.test)
        for t in tests:
            for c in ast.walk(t):
                if isinstance(c, ast.Compare) and any(F.elem_of_list(x) for x in ast.walk(c)):
                    ok = True
                if isinstance(c, ast.Call):
                    ok = True       # a helper decides; followed no further
        if not ok:
            res.add(f"{F.f.qual}|stale", f"{F.f.qual} removes whatever line is at a line object's stored number without comparing the two: after other edits that is another line", F.f.loc(node))


def elem_of_list(self, x):
    if isinstance(x, ast.Subscript) and self.L.kind(x.value):
        return True
    if isinstance(x, ast.Name):
        return any(isinstance(v, ast.Subscript) and self.L.kind(v.value) for v in self.vals.get(x.id, []) if v is not None)
    return False


Fn.elem_of_list = elem_of_list


# -- whole: what a recursive removal collects ---------------------------------
class Family:
    """which lines, relative to the receiver, an expression stands for"""

    def __init__(self, F):
        self.F, self.me = F, F.f.params[0] if F.f.params else None

    def elem(self, e, depth=0):
        """kinds of one line: self, child (direct), desc (any descendant), part, other"""
        if depth > 8:
            return {"unknown"}
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return {"self"}
            out = set()
            for lp in self.F.loops.get(e.id, []):
                out |= self.coll(lp.iter, depth + 1)
                if isinstance(lp, ast.comprehension) and lp.ifs:
                    out = {"part"}
            for v in self.F.vals.get(e.id, []):
                out |= self.elem(v, depth + 1) if v is not None else {"unknown"}
            return out or {"unknown"}
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and e.attr == "parent":
            return {"other"}
        return {"unknown"}

    def coll(self, e, depth=0):
        if depth > 8:
            return {"unknown"}
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if e.value.id == self.me:
                return {"children": {"child"}, "all_children": {"desc"}, "all_parents": {"other"}, "siblings": {"other"}, "lineage": {"self", "desc", "other"}, "geneology": {"self", "other"}}.get(e.attr, {"unknown"})
            if e.attr in ("all_children", "children") and "child" in self.elem(e.value, depth + 1):
                return {"below " + e.attr}
            return {"unknown"}
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(set(), *(self.coll(x.value, depth + 1) if isinstance(x, ast.Starred) else self.elem(x, depth + 1) for x in e.elts))
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else None
            if nm in ("sorted", "reversed", "list", "tuple", "set", "iter", "frozenset"):
                return self.coll(e.args[0], depth + 1) if e.args else set()
            if nm == "chain" or dotted(e.func) == "itertools.chain":
                return set().union(set(), *(self.coll(a, depth + 1) for a in e.args))
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "copy"):
                return set().union(self.coll(e.func.value, depth + 1), *(self.coll(a, depth + 1) for a in e.args))
            return {"unknown"}
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
            return self.coll(e.left, depth + 1) | self.coll(e.right, depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            if e.slice.lower is None and e.slice.upper is None:
                return self.coll(e.value, depth + 1)
            return {"part"}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(e.generators) == 1:
            if e.generators[0].ifs:
                return {"part"}
            return self.elem(e.elt, depth + 1)
        if isinstance(e, ast.Name):
            out = set()
            for v in self.F.vals.get(e.id, []):
                out |= self.coll(v, depth + 1) if v is not None else set()
            for n in ast.walk(self.F.f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                    if n.func.attr in ("add", "append") and n.args:
                        k = self.elem(n.args[0], depth + 1)
                        out |= k if k == {"self"} or not self.conditional(n, e.id) else {"part"}
                    elif n.func.attr == "insert" and len(n.args) == 2:
                        out |= self.elem(n.args[1], depth + 1)
                    elif n.func.attr in ("update", "extend") and n.args:
                        out |= set().union(*(self.coll(a, depth + 1) for a in n.args)) if not self.conditional(n, e.id) else {"part"}
                    elif n.func.attr in ("discard", "remove", "pop", "clear", "difference_update", "intersection_update"):
                        out |= {"part"}
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    out |= self.coll(n.value, depth + 1)
            return out or {"unknown"}
        return {"unknown"}

    def conditional(self, n, name):
        """the collection of a line depends on something about the line itself"""
        p = self.F.parent.get(n)
        while p is not None and p is not self.F.f.node:
            if isinstance(p, ast.If):
                names = {x.id for x in ast.walk(p.test) if isinstance(x, ast.Name)}
                lv = set().union(set(), *(loopvars(lp) for k in self.F.loops for lp in self.F.loops[k]))
                if names & lv and name not in names and not any(isinstance(x, ast.Attribute) and x.attr == "debug" for x in ast.walk(p.test)):
                    return True
            p = self.F.parent.get(p)
        return False


def whole_rule(an, prog, res):
    seen = set()
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        g = c.methods.get("delete")
        if g is None or not prog.is_subclass(c.name, "BaseCfgLine") or g.qual in seen:
            continue
        seen.add(g.qual)
        F = an.get(g)
        fam = Family(F)
        kinds, part_of = set(), []
        recursive = False
        for n in ast.walk(g.node):
            # element removals
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and F.L.kind(n.value) == "raw":
                tgt = F.alias(n.slice, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "remove") and n.args and F.L.kind(n.func.value) in ("raw", "obj"):
                tgt = F.alias(n.args[0], n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "delete":
                k = fam.elem(n.func.value)
                kinds |= {"desc"} if k & {"child", "desc"} else k
                recursive = True
                continue
            if tgt is None:
                continue
            if isinstance(tgt, ast.Slice):
                lp = F.enclosing(n, (ast.For,))
                one = width_one(F, tgt, n)
                if lp is not None and one is False:
                    kinds.add("other")
                if one is not None:
                    tgt = F.alias(tgt.lower, n)
            if isinstance(tgt, ast.Attribute) and tgt.attr == "linenum":
                tgt = tgt.value
            elif isinstance(tgt, ast.Call) and isinstance(tgt.func, ast.Attribute) and tgt.func.attr == "index" and tgt.args:
                tgt = tgt.args[0]
            kinds |= fam.elem(tgt)
        res.count("recursive removals followed")
        if "below all_children" in kinds and "child" in kinds:
            kinds = kinds - {"below all_children", "child"} | {"desc"}
        if kinds & {"unknown"} or not kinds:
            res.undec(f"{g.qual}: which lines it removes ({', '.join(sorted(kinds)) or 'none found'})")
            continue
        if "desc" not in kinds or "part" in kinds:
            res.add(f"{g.qual}|whole", f"{g.qual} does not remove every descendant of the line (it removes: {', '.join(sorted(kinds))})", g.loc())
        if "self" not in kinds:
            res.add(f"{g.qual}|self", f"{g.qual} does not remove the line itself", g.loc())
        if "other" in kinds:
            res.add(f"{g.qual}|other", f"{g.qual} removes lines that are neither the line nor its descendants", g.loc())


def width_one(F, sl, at):
    """the slice is one element long: True; it is longer for some line: False; None: not recognised"""
    if sl.lower is None or sl.upper is None or sl.step is not None:
        return None
    lo, hi = ast.unparse(F.alias(sl.lower, at)), F.alias(sl.upper, at)
    if not (isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Add)):
        return None
    terms, todo = [], [hi]
    while todo:
        e = todo.pop()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            todo += [e.left, e.right]
        else:
            terms.append(F.alias(e, at))
    left = [e for e in terms if ast.unparse(e) != lo]
    if len(left) != len(terms) - 1:
        return None
    n = [const(e) for e in left]
    if all(isinstance(x, int) for x in n):
        return sum(n) == 1
    if all(isinstance(x, int) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" for x, e in zip(n, left)):
        return False
    return None


def recurse_rule(an, F, res):
    """an operation that deletes lines deletes them with their descendants"""
    if "recurse" in F.f.all_params:
        return
    for n in ast.walk(F.f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "delete":
            gs = [g for g, _b in callees(an.prog, F.f, F.L, n, an.names) if "recurse" in g.params]
            if not gs:
                continue
            a = next((k.value for k in n.keywords if k.arg == "recurse"), n.args[0] if n.args else None)
            res.count("removals asked of a line")
            if a is not None and isinstance(a, ast.Constant) and a.value is False:
                res.add(f"{F.f.qual}|orphans", f"{F.f.qual} removes lines without their descendants: these stay behind below another line", F.f.loc(n))


# -- once ---------------------------------------------------------------------
def search_loop(F, loop):
    """the loop runs over lines found by a search of the configuration"""
    it = loop.iter
    for _ in range(6):
        if isinstance(it, ast.Name) and len(F.vals.get(it.id, [])) == 1 and F.vals[it.id][0] is not None:
            it = F.vals[it.id][0]
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("reversed", "sorted", "list", "tuple", "enumerate") and it.args:
            it = it.args[0]
        else:
            break
    return isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr.lstrip("_").startswith("find")


def edits_of(an, F, loop, var):
    """edit calls in the loop body that change the line the variable stands for"""
    out = []
    for n in [x for b in loop.body for x in ast.walk(b)]:
        if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
            continue
        on = isinstance(n.func.value, ast.Name) and n.func.value.id == var
        arg = any(isinstance(a, ast.Name) and a.id == var for a in list(n.args) + [k.value for k in n.keywords])
        if on or arg:
            from .c33 import Analysis as A33
            for g, _b in callees(an.prog, F.f, F.L, n, an.names):
                if an.mutates_list(g) or an.a33.mutates(g):
                    out.append(n)
                    break
    return out


def deduped(F, loop, var, edit, outer=None):
    """a membership test on the line, in a set that grows inside the loop, governs the edit"""
    for n in ast.walk(F.f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            if any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(n.left)) or isinstance(n.left, ast.Name) and any(v is not None and any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(v)) for v in F.vals.get(n.left.id, [])):
                c = n.comparators[0]
                u = ast.unparse(c)
                q = n
                while q in F.parent and not isinstance(q, ast.stmt):
                    q = F.parent[q]
                if isinstance(q, ast.If) and not any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for b in q.body + q.orelse for x in ast.walk(b)) and not F.inside(edit, q):
                    continue        # the test changes nothing
                if outer is not None and isinstance(c, ast.Name) and c.id in stored(outer.body):
                    continue        # emptied for every parent
                if isinstance(n.left, ast.Attribute) and n.left.attr in ("text", "_text"):
                    continue        # two lines may have one text
                for m in ast.walk(F.f.node):
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ("add", "append", "update") and ast.unparse(m.func.value) == u:
                        return True
                    if isinstance(m, ast.AugAssign) and ast.unparse(m.target) == u:
                        return True
    return False


def once_rule(an, F, res):
    for outer in [n for n in ast.walk(F.f.node) if isinstance(n, ast.For)]:
        if not isinstance(outer.target, (ast.Name, ast.Tuple)):
            continue
        ov = loopvars(outer)
        if not search_loop(F, outer):
            continue
        # direct edits of the found lines
        for v in sorted(ov):
            es = edits_of(an, F, outer, v)
            if not es:
                continue
            res.count("edits of every found line")
            for e in es:
                st = e
                while st in F.parent and not isinstance(st, ast.stmt):
                    st = F.parent[st]
                if F.may_stop(outer, st):
                    res.add(f"{F.f.qual}|first only", f"{F.f.qual} stops after editing the first matching line", F.f.loc(e))
            it = outer.iter
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and (it.slice.lower is not None or it.slice.upper is not None):
                res.add(f"{F.f.qual}|part", f"{F.f.qual} edits only part of the matching lines ({ast.unparse(it)})", F.f.loc(outer))
        # edits by text for each found line
        for n in [x for b in outer.body for x in ast.walk(b)]:
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            lp = F.enclosing(n, (ast.For,))
            if lp is not outer and (lp is None or F.enclosing(lp, (ast.For,)) is not outer):
                continue
            ov = loopvars(outer) | loopvars(lp)
            for g, _b in callees(an.prog, F.f, F.L, n, an.names):
                ps = [p for p in g.params[1:2]]
                if g.cls is None or g.cls.name not in FAMILIES or not an.mutates_list(g) or not ps or not by_object(an.prog, g, ps[0]):
                    continue
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == ps[0]), None)
                if a is None:
                    continue
                res.count("edits handed the matched line")
                if isinstance(a, ast.Attribute) and a.attr in ("text", "_text") and isinstance(a.value, ast.Name) and a.value.id in ov or isinstance(a, ast.Name) and a.id in F.f.all_params:
                    res.add(f"{F.f.qual}|by text", f"{F.f.qual} runs {g.qual} with a text for every matching line: every line that matches the text is edited each time", F.f.loc(n))
        # nested: lines below the found lines
        for inner in [n for b in outer.body for n in ast.walk(b) if isinstance(n, ast.For)]:
            if F.enclosing(inner, (ast.For,)) is not outer or not isinstance(inner.target, ast.Name):
                continue
            v = inner.target.id
            es = edits_of(an, F, inner, v)
            if not es:
                continue
            src = inner.iter
            for _ in range(4):
                if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id in ("list", "sorted", "reversed", "tuple") and src.args:
                    src = src.args[0]
                elif isinstance(src, ast.Name) and len(F.vals.get(src.id, [])) == 1 and F.vals[src.id][0] is not None:
                    src = F.vals[src.id][0]
            res.count("edits below every found line")
            deep = isinstance(src, ast.Attribute) and src.attr == "all_children" or isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and returns_all_children(an, F, src)
            flat = isinstance(src, ast.Attribute) and src.attr == "children"
            for e in es:
                st = e
                while st in F.parent and not isinstance(st, ast.stmt):
                    st = F.parent[st]
                if F.may_stop(inner, st):
                    res.add(f"{F.f.qual}|first only", f"{F.f.qual} stops after editing the first matching line below a parent", F.f.loc(e))
            if flat:
                continue
            if not deep:
                res.undec(f"{F.f.qual}: lines of the inner loop `{ast.unparse(inner.iter)[:40]}`")
            elif not deduped(F, inner, v, es[0], outer):
                res.add(f"{F.f.qual}|twice", f"{F.f.qual} edits the descendants of every matching parent: when parents are nested, a line is edited once per parent", F.f.loc(inner))


def returns_all_children(an, F, call):
    for g, _b in callees(an.prog, F.f, F.L, call, an.names):
        rs = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        if rs and all(isinstance(r, ast.Attribute) and r.attr == "all_children" for r in rs):
            return True
    return False


def by_object(prog, g, p):
    """the parameter may be a line object (then one line) or a text (then every match)"""
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == p and "BaseCfgLine" in ast.unparse(n.args[1]):
            return True
    return False


def check(prog, res):
    if not all(c in prog.classes for c in FAMILIES):
        raise AnalysisBroken("a configuration class no longer exists")
    an = Analysis(prog)
    from .c33 import Analysis as A33
    an.a33 = A33(prog)
    for f in prog.all_funcs():
        if f.outer is not None or not family(prog, f) or f.name == "bootstrap_obj_init_ng":
            continue
        if not (an.a33.mutates(f)):
            continue
        F = an.get(f)
        res.count("edit operations examined")
        order_rule(an, F, res)
        live_rule(an, F, res)
        stale_rule(an, F, res)
        once_rule(an, F, res)
        recurse_rule(an, F, res)
    whole_rule(an, prog, res)


def run(ctx):
    res = Result("Index and collection dataflow of every edit operation that touches several lines: direction of loops over collected positions, loops over the live list, "
                 "removals through stored numbers, the set of lines a recursive removal collects, and one edit per matching line.")
    check(ctx.prog, res)
    res.floor("edit operations examined", 20)
    res.floor("recursive removals followed", 1)
    res.floor("edits of every found line", 2)
    res.assumptions.append("each line is in the children of one line only (C08); searches list lines in configuration order (C12)")
    return res


EX = '''
class ConfigList:
    def ok_ins(self, spec, v):
        at = [i for i, o in enumerate(self._list) if o.text == spec]
        for i in sorted(at, reverse=True):
            self._list.insert(i, v)
    def bad_ins(self, spec, v):
        at = [i for i, o in enumerate(self._list) if o.text == spec]
        for i in at:
            self._list.insert(i + 1, v)
    def ok_first(self, spec, v):
        for i, o in enumerate(self._list):
            if o.text == spec:
                self._list.insert(i, v)
                break
    def bad_live(self, spec):
        for o in self._list:
            if o.text == spec:
                self._list.remove(o)
    def insert_before(self, exist_val, v):
        if isinstance(exist_val, BaseCfgLine):
            at = [i for i, o in enumerate(self._list) if o is exist_val]
        else:
            at = [i for i, o in enumerate(self._list) if exist_val in o.text]
        for i in at[::-1]:
            self._list.insert(i, v)
class BaseCfgLine:
    def delete(self, recurse=True):
        lines = {self}
        if recurse:
            lines.update(self.all_children)
        for o in sorted(lines, reverse=True):
            if self.confobj._list[o.linenum] is o:
                del self.confobj._list[o.linenum]
    def edit(self, t): self._text = t
class Kid(BaseCfgLine):
    def delete(self):
        for o in sorted(self.children, reverse=True):
            del self.confobj._list[o.linenum]
class CiscoConfParse:
    def ok_each(self, spec, v):
        for o in self.find_objects(spec):
            self.ConfigObjs.insert_before(o, v)
    def bad_each(self, spec, v):
        for o in self.find_objects(spec):
            self.ConfigObjs.insert_before(spec, v)
    def ok_deep(self, spec, t):
        seen = set()
        for p in self.find_objects(spec):
            for k in p.all_children:
                if k in seen: continue
                seen.add(k)
                k.edit(t)
    def bad_deep(self, spec, t):
        for p in self.find_objects(spec):
            for k in p.all_children:
                k.edit(t)
    def bad_first(self, spec, t):
        for p in self.find_objects(spec):
            p.edit(t)
            return t
'''


def selftest():
    p = Program.from_source(EX)
    r = Result("x")
    check(p, r)
    got = sorted(f.key for f in r.findings)
    want = sorted(["ConfigList.bad_ins|order|insert", "ConfigList.bad_live|live", "Kid.delete|stale", "Kid.delete|whole", "Kid.delete|self", "CiscoConfParse.bad_each|by text",
                   "CiscoConfParse.bad_deep|twice", "CiscoConfParse.bad_first|first only"])
    if got != want:
        raise AnalysisBroken(f"C34 self-example: {got} not {want}")
