"""C02: separately built objects share no mutable state.

Uses the effect/alias analysis: no function may mutate anything rooted at a
module global or a class object; no default argument, class-level container,
module-level container or cached result that can be mutated in place may reach
two objects."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, deco_name, dotted
from ..absint import Interp, CONTAINER_WHATS, is_container_mut

# documented process-wide set-up: writes module globals on purpose
SETUP = {"initialize_globals": "package start-up, writes the package's version/encoding names once",
         "configure_loguru": "logging set-up", "ccp_logger_control": "logging set-up",
         "initialize_ciscoconfparse": "package start-up"}
CACHES = {"lru_cache", "cache", "memoize", "cached", "singledispatch"}
IMMUT_CALLS = {"int", "str", "float", "bool", "tuple", "frozenset", "range", "bytes"}


def mutable_expr(prog, module, n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        d = (dotted(n.func) or "?").split(".")[-1]
        if d in ("list", "dict", "set", "deque", "defaultdict", "OrderedDict", "bytearray", "Counter"):
            return True
        return d in prog.classes
    if isinstance(n, ast.Name) and module is not None:
        r = prog.resolve_name(module, n.id)
        if r and r[0] == "global":
            vals = r[1].globals.get(r[2], [])
            return any(v is not None and not isinstance(v, ast.Name) and mutable_expr(prog, None, v) for v in vals)
    return False


def scalar_root(interp, root):
    return root.startswith("g:") and interp_scalar(interp, root)


def interp_scalar(interp, root):
    parts = root[2:].rsplit(".", 1)
    if len(parts) != 2:
        return False
    t = interp.gtypes.get((parts[0], parts[1]))
    return t is not None and bool(t) and all(isinstance(x, str) and x in ("str", "int", "bool", "float", "NoneType", "Pattern", "bytes") for x in t)


def setup_fn(q):
    return q.split(".")[-1] in SETUP


def mutated_attrs(prog, interp):
    """attr -> witness: container attributes mutated in place through an object"""
    out = {}
    for q, s in interp.sum.items():
        for (root, path, what), ch in s.muts.items():
            if path and path[-1].startswith(".") and is_container_mut(what):
                f = prog.funcs[q]
                own = f.cls is not None and f.params and root == "p:" + f.params[0] and len(path) == 1
                if own:
                    kind = f.cls.name
                elif path[-1] in (".children", "._list", ".all_text") or (len(path) > 1 and path[-2] in (".parent", ".children")):
                    kind = "BaseCfgLine" if path[-1] != "._list" else "ConfigList"
                else:
                    kind = None
                out.setdefault(path[-1][1:], {}).setdefault(kind, (q, ch[0][1], what))
    return out


def mut_witness(prog, mut, attr, cname):
    """a function that mutates attr in place on an object of (a relative of) cname"""
    for kind, w in sorted(mut.get(attr, {}).items(), key=lambda kv: str(kv[0])):
        if kind is None:
            if len([c for c in prog.classes.values() if attr in c.attrs]) == 1 or cname is None:
                return w
        elif cname is None or cname not in prog.classes or prog.is_subclass(cname, kind) or prog.is_subclass(kind, cname):
            return w
    return None


def assigned_in_ctor(prog, cname, attr):
    """self.attr assigned unconditionally by the constructor chain"""
    c = prog.classes[cname]
    for k in c.mro:
        f = k.methods.get("__init__")
        if f is None:
            continue
        if _definitely_assigns(prog, f, attr, set()):
            return True
        # continues into super().__init__ only if this one calls it
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" for n in ast.walk(f.node)):
            return False
    return False


def _definitely_assigns(prog, f, attr, seen):
    if f in seen:
        return False
    seen.add(f)
    selfn = f.params[0] if f.params else None

    def blk(body):
        """(assigned, falls through)"""
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for e in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(e, ast.Attribute) and e.attr == attr and isinstance(e.value, ast.Name) and e.value.id == selfn:
                            return True
            elif isinstance(s, ast.If):
                # a dispatch of several tests without `else` (the value was validated before)
                arms, n = [], s
                while True:
                    arms.append(n.body)
                    if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                        n = n.orelse[0]
                        continue
                    break
                if len(arms) >= 3 and not n.orelse and all(blk(x) for x in arms):
                    return True
                a, b = blk(s.body), blk(s.orelse)
                ra = bool(s.body) and isinstance(s.body[-1], (ast.Raise, ast.Return)) and isinstance(s.body[-1], ast.Raise)
                rb = bool(s.orelse) and isinstance(s.orelse[-1], ast.Raise)
                if (a or ra) and (b or rb) and (a or b):
                    return True
            elif isinstance(s, ast.With):
                if blk(s.body):
                    return True
            elif isinstance(s, ast.Try):
                if blk(s.finalbody) or (blk(s.body) and all(blk(h.body) or (h.body and isinstance(h.body[-1], ast.Raise)) for h in s.handlers)):
                    return True
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == selfn and f.cls is not None:
                    g = prog.find_method(f.cls.name, fn.attr)
                    if g is not None and _definitely_assigns(prog, g, attr, seen):
                        return True
                if isinstance(fn, ast.Name) and fn.id == "setattr" and len(s.value.args) == 3 and isinstance(s.value.args[1], ast.Constant) and s.value.args[1].value == attr:
                    return True
        return False
    return blk(f.node.body)


def check(prog, interp, res, classes=None):
    nf = 0
    # (a) effects on globals / class objects
    for q, s in sorted(interp.sum.items()):
        nf += 1
        for (root, path, what), ch in sorted(s.muts.items()):
            if not (root.startswith("g:") or root.startswith("c:")):
                continue
            if interp_scalar(interp, root):
                if path or not what.startswith("rebind"):
                    continue
            origin = ch[-1][0]
            if setup_fn(origin) or any(setup_fn(x[0]) for x in ch):
                continue
            f = prog.funcs[origin] if origin in prog.funcs else prog.funcs[q]
            res.add(f"{origin}|{root}{''.join(path)}|{what}", f"{origin} writes process-wide state {root[2:]}{''.join(path)} ({what}); reached from {q}",
                    f"{f.file}:{ch[-1][1]}", [f"{a}:{b}" for a, b in ch])
    res.count("functions", nf)
    mut = mutated_attrs(prog, interp)
    nd = nc = nk = 0
    # (b) mutable defaults
    for f in prog.funcs.values():
        for p, d in f.defaults.items():
            nd += 1
            if not mutable_expr(prog, f.module, d):
                continue
            s = interp.sum.get(f.qual)
            bad = None
            if s is None:
                continue
            for (root, path, what), ch in s.muts.items():
                if root == "p:" + p:
                    bad = f"is modified in place ({what})"
            if any(l[0] == "p:" + p for l in s.ret.locs):
                bad = bad or "is handed out as the result"
            for (loc, fld), av in s.heap.items():
                if ("p:" + p, ()) in av.locs and fld.startswith("."):
                    w = mut_witness(prog, mut, fld[1:], f.cls.name if f.cls else None)
                    if w:
                        bad = bad or f"is kept as attribute {fld[1:]}, which {w[0]} modifies in place"
            if bad:
                res.add(f"{f.qual}|default:{p}", f"the mutable default of `{p}` in {f.qual} {bad}", f.loc(d))
    res.count("default_arguments", nd)
    # (c) class-level containers
    for c in prog.classes.values():
        for a, v in c.attrs.items():
            if not mutable_expr(prog, c.module, v):
                continue
            nc += 1
            w = mut_witness(prog, mut, a, c.name)
            if w is None:
                continue
            for sub in sorted(prog.subclasses.get(c.name, ())):
                if not assigned_in_ctor(prog, sub, a):
                    q, ln, what = w
                    res.add(f"{c.name}.{a}|shared", f"class-level container {c.name}.{a} is shared by instances of {sub} (no constructor re-binds it on every path) and {q} modifies it in place ({what})",
                            f"{c.module.rel}:{getattr(v, 'lineno', 0)}")
                    break
    res.count("class_level_containers", nc)
    # (d) caches
    for f in prog.funcs.values():
        for d in f.decorators:
            nm = deco_name(d).split(".")[-1]
            if nm in CACHES:
                nk += 1
                s = interp.sum.get(f.qual)
                t = s.ret.tags if s is not None else None
                scalar = t is not None and t <= {"str", "int", "bool", "float", "NoneType", "bytes", "Pattern"}
                recv = f.cls is not None and f.kind in ("method", "property")
                if recv or not scalar:
                    res.add(f"{f.qual}|cache", f"{f.qual} memoises its result across calls ({nm}): "
                            + ("the result depends on an object that can change" if recv else "a mutable result is shared by every caller"), f.loc())
            elif nm == "cached_property":
                nk += 1
                res.add(f"{f.qual}|cache", f"{f.qual} caches a derived value (cached_property) that later edits make stale", f.loc())
    res.count("cache_decorators", nk)
    # (e) shared module-level containers stored into objects and modified there
    for q, s in sorted(interp.sum.items()):
        for (loc, fld), av in s.heap.items():
            if not fld.startswith(".") or fld[1:] not in mut:
                continue
            for l in av.locs:
                if (l[0].startswith("g:") and not interp_scalar(interp, l[0]) and not l[1]) or (l[0].startswith("c:") and l[1]):
                    if l[0].startswith("g:"):
                        mod, _, name = l[0][2:].rpartition(".")
                        m = prog.modules.get(mod)
                        vals = m.globals.get(name, []) if m else []
                        if not any(v is not None and mutable_expr(prog, m, v) for v in vals):
                            continue
                    w = mut_witness(prog, mut, fld[1:], prog.funcs[q].cls.name if prog.funcs[q].cls else None)
                    if w is None:
                        continue
                    res.add(f"{q}|shares:{l[0][2:]}", f"{q} stores the shared object {l[0][2:]}{''.join(l[1])} as attribute {fld[1:]}, which {w[0]} modifies in place ({w[2]})",
                            prog.funcs[q].loc())


OWN_LISTS = ("._list", ".children", ".ConfigObjs")


def between_objects(prog, interp, res):
    """no operation puts another object's container, or the elements of its list, into this one"""
    mut = mutated_attrs(prog, interp)
    for q, s in sorted(interp.sum.items()):
        f = prog.funcs.get(q)
        if f is None or f.cls is None or not f.params:
            continue
        me = "p:" + f.params[0]
        for ((root, path), fld), av in sorted(s.heap.items(), key=str):
            if fld == "[]" and root == me and path and path[-1] in OWN_LISTS[:1]:
                res.count("list_fillings")
                for l in sorted(av.locs):
                    if l[0].startswith("p:") and l[0] != me and len(l[1]) >= 2 and l[1][-2:] == ("._list", "[]"):
                        res.add(f"{q}|elements|{l[0][2:]}", f"{q} puts the very line objects of `{l[0][2:]}` into this list: an edit of one shows in the other", f.loc())
            if fld.startswith(".") and not path and (root == me or root.startswith("s:")):
                res.count("attribute_stores")
                for l in sorted(av.locs):
                    if not (l[0].startswith("p:") and l[1] and l[1][-1].startswith(".")) or l[0] == root:
                        continue
                    if l[0] == me and root != me and not root.startswith("s:"):
                        continue
                    attr = l[1][-1][1:]
                    w = mut_witness(prog, mut, attr, f.cls.name)
                    if w is None or attr in ("parent", "confobj", "ccp_ref", "CiscoConfParse") or len(l[1]) != 1 or fld[1:] != attr:
                        continue
                    if not is_container_attr(interp, attr):
                        continue
                    res.add(f"{q}|{fld[1:]}|{l[0][2:]}", f"{q} keeps the container {l[0][2:]}{''.join(l[1])} of another object as its own {fld[1:]}; {w[0]} modifies it in place", f.loc())
    # copies made through the attribute dictionary
    for c in prog.classes.values():
        f = c.methods.get("__copy__")
        if f is None:
            continue
        me = f.params[0]
        took = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == me]
        if not took:
            continue
        own = [a for a in sorted(mut) if c.name in mut[a] and is_container_attr(interp, a)]
        for a in own:
            res.count("copied_containers")
            vals = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == a or isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == a:
                            vals.append(n.value)
            if not vals or not all(fresh(v) for v in vals):
                q, ln, what = mut[a][c.name]
                res.add(f"{f.qual}|{a}", f"{f.qual} gives the copy the very container {a} of the original; {q} modifies it in place", f.loc())


def is_container_attr(interp, attr):
    seen = False
    for (c, a), t in interp.attr.items():
        if a == attr and t is not None:
            seen = seen or any((x[0] if isinstance(x, tuple) else x) in ("list", "dict", "set", "deque") for x in t)
    return seen or attr in ("children", "_list")


def fresh(v):
    if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.BinOp)):
        return True
    if isinstance(v, ast.Subscript):
        return isinstance(v.slice, ast.Slice)
    if isinstance(v, ast.Call):
        d = (dotted(v.func) or (v.func.attr if isinstance(v.func, ast.Attribute) else "?")).split(".")[-1]
        return d in ("list", "dict", "set", "copy", "deepcopy", "sorted", "bootstrap_obj_init_ng")
    return False


def run(ctx):
    res = Result("Alias/effect analysis: no path may write a module global or class object; no mutable default argument, class-level container, "
                 "module-level container or memoised result may be reachable from two objects and modified in place.")
    check(ctx.prog, ctx.interp, res)
    between_objects(ctx.prog, ctx.interp, res)
    res.floor("functions", 900)
    res.floor("default_arguments", 250)
    res.assumptions += [f"documented set-up exempt: {k} ({v})" for k, v in SETUP.items()]
    return res


EX = '''
SEEN = {}
class Box:
    shared = []
    def __init__(self, items=[]):
        self.items = items
    def put(self, x):
        self.items.append(x)
        self.shared.append(x)
def lookup(k):
    SEEN[k] = 1
    return SEEN[k]
def fine(k, opts=[]):
    return [o for o in opts]
'''
EX2 = '''
class Pool:
    def __init__(self):
        self._list = []
    def put(self, x):
        self._list.append(x)
    def take(self, other):
        self._list.extend(other._list)
    def ok(self, other):
        self._list.extend([str(x) for x in other._list])
    def adopt(self, other):
        self._list = other._list
    def __copy__(self):
        inst = self.__class__.__new__(self.__class__)
        inst.__dict__.update(self.__dict__)
        inst._list = self._list
        return inst
'''


def selftest():
    p = Program.from_source(EX)
    i = Interp(p, {})
    r = Result("x")
    check(p, i, r)
    keys = " ".join(f.key for f in r.findings)
    if not ("m.lookup|g:m.SEEN" in keys and "Box.__init__|default:items" in keys and "Box.shared|shared" in keys) or "fine" in keys:
        raise AnalysisBroken(f"C02 self-example not decided: {keys}")
    p = Program.from_source(EX2)
    r = Result("x")
    between_objects(p, Interp(p, {}), r)
    keys = sorted(f.key for f in r.findings)
    if keys != ["Pool.__copy__|_list", "Pool.adopt|_list|other", "Pool.take|elements|other"]:
        raise AnalysisBroken(f"C02 self-example not decided: {keys}")
