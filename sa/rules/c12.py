"""C12: results depend on the arguments alone.

(a) every order-sensitive use of a hash-ordered collection (set / frozenset of
    anything but numbers), typed by the interpreter, is tracked through list
    copies, local names and helper parameters until it is sorted or reduced to
    something order-free;
(b) every call of a clock, random source, environment read, object address or
    hash() has to belong to one of the documented places.
"""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from ..absint import Interp
from .c13 import full_name
from .c15 import owner_names, users

ORDER_FREE = {"set", "frozenset", "len", "sum", "any", "all", "isinstance", "bool", "type", "print_nothing"}
ORDER_FREE_IF_NO_KEY = {"sorted", "min", "max"}
SEQ_MAKERS = {"list", "tuple", "iter", "enumerate", "map", "filter", "zip", "reversed", "next", "str", "repr", "format", "chain", "deque", "OrderedDict", "dict", "Counter"}
SET_METHODS = {"add", "update", "discard", "remove", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset",
               "isdisjoint", "copy", "clear", "difference_update", "intersection_update", "symmetric_difference_update"}
NUM = {"int", "bool", "float", "NoneType"}
# sorts with a key that is not the whole element, confirmed total by reading
TOTAL_KEYS = {
    "sort_list": "interfaces of one range share their prefix, and equality of interfaces is prefix + sort_list, so distinct members have distinct keys",
    "group": "all groups are built from one parent interface, and the set keeps one group object per (interface, group)",
}
SOURCES = {"time": None, "datetime": {"datetime.now", "datetime.utcnow", "datetime.today", "date.today"}, "random": None, "secrets": None, "uuid": None,
           "os": {"environ", "getenv", "getpid", "getppid", "urandom", "getcwd", "listdir", "scandir", "getlogin", "getuid", "times", "cpu_count", "walk"},
           "glob": None, "platform": None, "getpass": None, "tempfile": None, "socket": {"gethostname", "getfqdn"}, "locale": {"getpreferredencoding", "getlocale", "getdefaultlocale"},
           "sys": {"getrefcount", "getsizeof"}, "gc": None, "threading": {"get_ident", "current_thread"}}
HARMLESS_SOURCES = {"time.sleep", "time.strptime", "time.struct_time"}
# documented places: owner -> (source prefixes, why)
SOURCE_ALLOWED = [
    ({"dns_query"}, {"time."}, "DNSResponse reports the query duration"),
    ({"unified_diff_header"}, {"datetime."}, "the unified diff header carries the current time, as diff -u does"),
    ({"PythonOptimizeCheck", "__init__", "inspect_environment_variable"}, {"os.environ", "os.getenv"}, "PYTHONOPTIMIZE guard: import is refused, no result depends on it"),
    ({"initialize_globals", "__init__", "initialize_ciscoconfparse", "run_this_posix_command"}, {"locale.", "time.strftime"}, "documented default text encoding / copyright year"),
]
HASH_ALLOWED = {"__hash__", "__eq__", "__ne__", "calculate_line_id", "get_unique_identifier", "family_id", "diff_id_list", "hash_children"}
UNORDERED_OK = {
    # construct owners where the order is provably irrelevant, confirmed by reading
    ("_build_banner_re_ios", None): "alternatives of a pattern used only for a truth test",
    ("attribute_sort", "stored"): "self._list = target_list is reached only when no list was given (a copy of the members in order)",
}


class Check:
    def __init__(self, prog, interp, res):
        self.prog = prog
        self.I = interp
        self.res = res
        self.done = set()

    def is_unordered(self, n):
        av = self.I.nt.get(n)
        if av is None or av.types is None:
            return False
        for t in av.types:
            if isinstance(t, tuple) and t[0] in ("set", "frozenset"):
                el = t[1]
                if el is not None and el and all(x in NUM for x in el if isinstance(x, str)) and all(isinstance(x, str) for x in el):
                    continue
                return True
            if t in ("set", "frozenset"):
                return True
        return False

    def parents(self, f):
        if not hasattr(f, "_par"):
            f._par = {}
            for n in ast.walk(f.node):
                for ch in ast.iter_child_nodes(n):
                    f._par[ch] = n
        return f._par

    def fail(self, f, n, what):
        for (o, w), why in UNORDERED_OK.items():
            if w in (None, what) and owner_names(self.prog, f, {o}):
                self.res.sample(f"{f.qual}: {why}")
                return
        self.res.add(f"{f.qual}|order|{what}", f"{f.qual}: the order of a set leaks into the result: {what} `{ast.unparse(n)[:70]}`", f.loc(n), alts=[f"{c.qual}|order|{what}" for c in users(self.prog, f)])

    def in_error_text(self, f, n):
        """inside a raise, a logging call, or a string assigned to a name only logged/raised"""
        par = self.parents(f)
        x = n
        while x in par:
            x = par[x]
            if isinstance(x, ast.Raise) or isinstance(x, ast.Assert):
                return True
            if isinstance(x, ast.Call) and (dotted(x.func) or "").startswith("logger."):
                return True
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                nm = x.targets[0].id
                loads = [y for y in ast.walk(f.node) if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Load)]
                return bool(loads) and all(self._err_use(f, y) for y in loads)
            if isinstance(x, ast.stmt):
                return False
        return False

    def _err_use(self, f, y):
        par = self.parents(f)
        while y in par:
            y = par[y]
            if isinstance(y, ast.Raise) or isinstance(y, ast.Call) and (dotted(y.func) or "").startswith("logger."):
                return True
            if isinstance(y, ast.stmt):
                return False
        return False

    # -- use of an unordered SET value at node n
    def use_set(self, f, n):
        par = self.parents(f)
        p = par.get(n)
        if isinstance(p, ast.Call):
            if n in p.args or any(k.value is n for k in p.keywords):
                name = dotted(p.func) or (p.func.attr if isinstance(p.func, ast.Attribute) else "")
                short = name.split(".")[-1]
                if name in ORDER_FREE:
                    return
                if name in ORDER_FREE_IF_NO_KEY:
                    return self.keyed(f, p)
                if isinstance(p.func, ast.Attribute) and short == "join":
                    return self.use_text(f, p)
                if name in SEQ_MAKERS or short in SEQ_MAKERS:
                    if name in ("next",):
                        return self.fail(f, p, "next()")
                    return self.use_seq(f, p)
                if short in ("extend", "fromkeys") and isinstance(p.func, ast.Attribute):
                    return self.fail(f, p, short + "()")
                if short in ("choice", "sample"):
                    return self.fail(f, p, short + "()")
                return      # handed to a function: its own uses are judged there
            return
        if isinstance(p, ast.Starred):
            return self.use_seq(f, p)
        if isinstance(p, ast.Attribute) and p.value is n:
            if p.attr == "pop":
                # a set known to hold one element
                txt = ast.unparse(n)
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and dotted(x.func) == "len" and x.args and ast.unparse(x.args[0]) == txt:
                        return
                self.fail(f, p, "pop()")
            return
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is n:
            return self.loop(f, p)
        if isinstance(p, ast.comprehension) and p.iter is n:
            c = par.get(p)
            if isinstance(c, ast.SetComp):
                return
            return self.use_seq(f, c)
        if isinstance(p, (ast.FormattedValue,)):
            return self.use_text(f, p)
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and p.right is n:
            return self.use_text(f, p)
        if isinstance(p, (ast.Tuple, ast.List)) and isinstance(par.get(p), ast.Assign) and par[p].targets and par[p].targets[0] is p:
            return
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], (ast.Tuple, ast.List)) and p.value is n:
            return self.fail(f, p, "unpacking")
        if isinstance(p, ast.YieldFrom):
            return self.fail(f, p, "yield from")

    def keyed(self, f, call):
        key = next((k.value for k in call.keywords if k.arg == "key"), None)
        if key is None:
            return
        attrs = {x.attr for x in ast.walk(key) if isinstance(x, ast.Attribute)}
        names = {x.id for x in ast.walk(key) if isinstance(x, ast.Name)}
        if isinstance(key, ast.Lambda) and key.args.args:
            b = key.body
            v = key.args.args[0].arg
            # the identity, or a tuple starting from the whole element
            if isinstance(b, ast.Name) and b.id == v:
                return
            if isinstance(b, ast.Call) and dotted(b.func) in ("int", "str", "repr") and len(b.args) == 1 and isinstance(b.args[0], ast.Name) and b.args[0].id == v:
                return
            if isinstance(b, ast.Call) and dotted(b.func) == "getattr" and len(b.args) >= 2:
                a = b.args[1]
                if isinstance(a, ast.Constant):
                    attrs.add(a.value)
                elif isinstance(a, ast.Name) and a.id in f.all_params:
                    # the default and every caller's argument
                    attrs |= self.param_consts(f, a.id)
        if attrs & set(TOTAL_KEYS):
            for a in attrs & set(TOTAL_KEYS):
                self.res.sample(f"{f.qual}: sorted by {a}: {TOTAL_KEYS[a]}")
            return
        self.fail(f, call, f"{dotted(call.func)}() by a key that is not the whole element")

    def param_consts(self, f, p):
        out = set()
        for k, d in f.defaults.items():
            if k == p and isinstance(d, ast.Constant):
                out.add(d.value)
        for c in users(self.prog, f):
            for x in ast.walk(c.node):
                if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == f.name:
                    for k in x.keywords:
                        if k.arg == p and isinstance(k.value, ast.Constant):
                            out.add(k.value.value)
        return out

    def alternation(self, f, n):
        """`re.compile("|".join(alternatives))`: the same texts match whatever the order"""
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant) and n.func.value.value == "|"):
            return False
        p = self.parents(f).get(n)
        return isinstance(p, ast.Call) and dotted(p.func) in ("re.compile", "re.search") and p.args and p.args[0] is n

    def use_text(self, f, n):
        if not self.in_error_text(f, n) and not self.alternation(f, n):
            self.fail(f, n, "rendered as text")

    # -- use of a sequence whose order is arbitrary
    def use_seq(self, f, n, depth=0):
        par = self.parents(f)
        if depth > 6:
            return self.fail(f, n, "order of a derived sequence")
        p = par.get(n)
        if isinstance(p, ast.keyword):
            p = par.get(p)
        if isinstance(p, ast.Call):
            name = dotted(p.func) or (p.func.attr if isinstance(p.func, ast.Attribute) else "")
            short = name.split(".")[-1]
            if n is p.func:
                return
            if name in ORDER_FREE:
                return
            if name in ORDER_FREE_IF_NO_KEY:
                return self.keyed(f, p)
            if name in SEQ_MAKERS:
                return self.use_seq(f, p, depth + 1) if name not in ("next", "str", "repr") else self.use_text(f, p)
            if short == "join":
                return self.use_text(f, p)
            if short in ("update", "difference", "union", "intersection", "issubset", "issuperset", "isdisjoint") and isinstance(p.func, ast.Attribute) and self.I.nt.get(p.func.value) is not None and self.is_unordered(p.func.value):
                return
            # handed to a package function: follow the parameter
            evs = [(c, b) for nd, c, b in self.I.calls.get(f.qual, ()) if nd is p]
            if evs:
                pos = None
                for i, a in enumerate(p.args):
                    if a is n:
                        pos = i
                kw = next((k.arg for k in p.keywords if k.value is n), None)
                for c, b in evs:
                    g = self.prog.funcs.get(c)
                    if g is None:
                        continue
                    ps = g.params[1:] if g.cls is not None and g.kind != "staticmethod" else list(g.params)
                    if g.name == "__init__" and g.cls is not None:
                        ps = g.params[1:]
                    nm = kw or (ps[pos] if pos is not None and pos < len(ps) else None)
                    if nm:
                        self.name_uses(g, nm, depth + 1)
                return
            return self.fail(f, p, f"passed to {name or '?'}()")
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, ast.Name):
                return self.name_uses(f, t.id, depth + 1, after=p)
            return self.fail(f, p, "stored")
        if isinstance(p, ast.Return):
            return self.fail(f, p, "returned")
        if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in p.ops):
            return
        if isinstance(p, (ast.For,)) and p.iter is n:
            return self.loop(f, p)
        if isinstance(p, ast.comprehension) and p.iter is n:
            c = par.get(p)
            if isinstance(c, ast.SetComp):
                return
            return self.use_seq(f, c, depth + 1)
        if isinstance(p, ast.Starred):
            return self.use_seq(f, p, depth + 1)
        if isinstance(p, ast.Attribute) and p.value is n:
            if p.attr in ("sort", "count", "append", "__contains__", "__len__"):
                return
            return self.fail(f, p, "." + p.attr)
        if isinstance(p, ast.Subscript) and p.value is n:
            return self.fail(f, p, "indexed")
        if isinstance(p, (ast.If, ast.While, ast.Assert, ast.UnaryOp)):
            return
        if isinstance(p, (ast.IfExp, ast.BoolOp, ast.BinOp, ast.List, ast.Tuple, ast.Dict, ast.NamedExpr)):
            return self.use_seq(f, p, depth + 1)
        if isinstance(p, ast.Expr):
            return
        if isinstance(p, ast.FormattedValue):
            return self.use_text(f, p)
        return self.fail(f, p if p is not None else n, "order")

    def name_uses(self, f, name, depth, after=None):
        key = (f.qual, name, after)
        if key in self.done:
            return
        self.done.add(key)
        loads = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
        # x.sort() right on the name settles the rest
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name) and x.func.value.id == name and not x.keywords for x in ast.walk(f.node)):
            return
        stores = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        for x in loads:
            if after is not None:
                if x.lineno < after.lineno:
                    continue
                # rebound in the same block between the two
                if any(after.lineno < s.lineno < x.lineno and self._same_block(f, s, after) for s in stores):
                    continue
                if x.lineno <= after.end_lineno and any(y is x for y in ast.walk(after)):
                    continue
            if self.indexed_for_type(f, x):
                continue
            self.use_seq(f, x, depth)

    def indexed_for_type(self, f, x):
        """seq[0] only asked for its type"""
        par = self.parents(f)
        p = par.get(x)
        if isinstance(p, ast.Subscript) and p.value is x:
            q = par.get(p)
            if isinstance(q, ast.Call) and dotted(q.func) in ("isinstance", "type"):
                return True
            if self.in_error_text(f, p):
                return True
        return False

    def _same_block(self, f, s, after):
        par = self.parents(f)
        st = s
        while st in par and not isinstance(st, ast.stmt):
            st = par[st]
        return par.get(st) is par.get(after)

    def loop(self, f, loop):
        tgt = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        inside = set()
        for s in loop.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    inside.add(x.id)
        outside_loads = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and not (loop.lineno <= x.lineno <= loop.end_lineno)}
        temps = (inside - outside_loads) | tgt
        consts = {}

        def bad(s, what):
            self.fail(f, s, what)

        def block(b):
            if b and isinstance(b[-1], ast.Raise):
                return                      # only the text of an error
            for i, s in enumerate(b):
                stmt(s, b[i + 1:])

        def stmt(s, rest):
            if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert, ast.Break, ast.Import, ast.Delete)):
                return
            if isinstance(s, ast.Return):
                if s.value is None or isinstance(s.value, ast.Constant):
                    return
                if not any(isinstance(x, ast.Name) and x.id in temps for x in ast.walk(s.value)):
                    return
                return bad(s, "first element returned")
            if isinstance(s, ast.If):
                block(s.body)
                block(s.orelse)
                return
            if isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                for fld in ("body", "orelse", "finalbody"):
                    block(getattr(s, fld, []) or [])
                for h in getattr(s, "handlers", []):
                    block(h.body)
                return
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Name) and t.id in temps:
                        continue
                    if isinstance(s.value, ast.Constant):
                        brk = bool(rest) and isinstance(rest[-1], ast.Break)
                        consts.setdefault(ast.unparse(t), []).append((s.value.value, brk, s))
                        continue
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in temps:
                        continue            # sets a field of each element
                    if s.value is not None and not any(isinstance(x, ast.Name) and x.id in temps for x in ast.walk(s.value)):
                        continue            # the same value every time
                    bad(s, "last element kept" if isinstance(t, ast.Name) else "stored per element")
                return
            if isinstance(s, ast.AugAssign):
                if isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
                    return
                if isinstance(s.op, (ast.BitOr, ast.BitAnd)):
                    return
                if isinstance(s.target, ast.Name) and s.target.id in temps - tgt:
                    return
                return bad(s, "accumulated in order")
            if isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, ast.Constant):
                    return
                if isinstance(v, ast.Call):
                    d = dotted(v.func) or ""
                    if d.startswith("logger."):
                        return
                    if isinstance(v.func, ast.Attribute) and v.func.attr in SET_METHODS and self.setlike(v.func.value):
                        return
                    if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in temps and v.func.attr not in ("append",):
                        return
                    if isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name):
                        # a list built in this order: sorted afterwards?
                        return self.name_uses(f, v.func.value.id, 1, after=loop)
                return bad(s, "effect per element")
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return
            bad(s, "effect per element")

        block(loop.body)
        for t, xs in consts.items():
            vals = {v for v, _, _ in xs}
            if len(vals) > 1:
                free = [x for x in xs if not x[1]]
                if len({v for v, _, _ in free}) > 1:
                    bad(free[0][2], "last element decides")

    def setlike(self, n):
        av = self.I.nt.get(n)
        if av is None or av.types is None:
            return isinstance(n, ast.Name)
        return any((t[0] if isinstance(t, tuple) else t) in ("set", "frozenset") for t in av.types)

    # -- (b)
    def sources(self):
        for f in self.prog.funcs.values():
            if f.outer is not None:
                continue
            local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.all_params)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) or isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    d = dotted(n)
                    if d is None:
                        continue
                    full = full_name(self.prog, f.module, f, d)
                    if full is not None and self.in_table(full):
                        self.source(f, n, full)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hash", "id") and n.func.id not in local:
                    self.res.count("hash_or_id_calls")
                    if n.func.id == "hash" and owner_names(self.prog, f, HASH_ALLOWED):
                        continue
                    if self.in_error_text(f, n) or n.func.id == "id" and self.identity_use(f, n):
                        continue
                    self.res.add(f"{f.qual}|{n.func.id}()", f"{f.qual}: the value of {n.func.id}() (different in every process) is used outside hashing and equality", f.loc(n))
                if isinstance(n, ast.Attribute) and n.attr == "__hash__" and not owner_names(self.prog, f, HASH_ALLOWED):
                    self.res.add(f"{f.qual}|__hash__", f"{f.qual}: reads a hash value outside hashing and equality", f.loc(n))

    def identity_use(self, f, n, depth=0):
        """the number only tells objects apart: compared for (in)equality or membership, or kept as a key"""
        par = {}
        for p in ast.walk(f.node):
            for ch in ast.iter_child_nodes(p):
                par[ch] = p
        p = par.get(n)
        if isinstance(p, ast.Tuple):
            n, p = p, par.get(p)
        if isinstance(p, ast.Compare):
            return all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops)
        if isinstance(p, ast.Call) and n in p.args:
            return isinstance(p.func, ast.Attribute) and p.func.attr in ("add", "discard", "get", "setdefault", "__contains__")
        if isinstance(p, ast.Subscript):
            return p.slice is n
        if isinstance(p, ast.SetComp):
            return p.elt is n
        if isinstance(p, ast.DictComp):
            return p.key is n
        if isinstance(p, ast.Assign) and p.value is n and depth < 2 and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            nm = p.targets[0].id
            uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
            return all(self.identity_use(f, u, depth + 1) for u in uses)
        return False

    def in_table(self, full):
        if full in HARMLESS_SOURCES:
            return False
        root, _, rest = full.partition(".")
        if root not in SOURCES or not rest:
            return False
        t = SOURCES[root]
        return t is None or any(rest == x or rest.startswith(x + ".") for x in t)

    def source(self, f, n, full):
        self.res.count("nondeterministic_sources")
        for owners, srcs, why in SOURCE_ALLOWED:
            if any(full.startswith(s) for s in srcs) and (owner_names(self.prog, f, owners) or f.cls is not None and f.cls.name in owners):
                self.res.sample(f"{f.qual}: {full}: {why}")
                return
        if self.in_error_text(f, n):
            return
        self.res.add(f"{f.qual}|{full}", f"{f.qual}: the result depends on {full}", f.loc(n), alts=[f"{c.qual}|{full}" for c in users(self.prog, f)])


def check(prog, interp, res):
    c = Check(prog, interp, res)
    for f in prog.funcs.values():
        if f.outer is not None:
            continue
        res.count("functions")
        for n in ast.walk(f.node):
            if isinstance(n, ast.expr) and n in interp.nt and c.is_unordered(n):
                res.count("set_typed_uses")
                c.use_set(f, n)
    c.sources()


def run(ctx):
    res = Result("Taint analysis: every expression the interpreter types as a hash-ordered set is followed to its uses (through list copies, names, comprehensions, loops and helper parameters); each must end "
                 "in a sort, a membership test or another order-free reduction.  Every clock/random/environment/hash()/id() read must belong to a documented place.")
    check(ctx.prog, ctx.interp, res)
    res.floor("set_typed_uses", 80)
    res.floor("hash_or_id_calls", 10)
    res.assumptions += ["sets of numbers iterate in an order fixed by their contents and history (CPython)", "dict iteration is insertion order",
                        "HDiff compares hash identities only with each other"] + [f"sorted by .{k}: {v}" for k, v in TOTAL_KEYS.items()]
    return res


def selftest():
    src = """
import time
class A:
    def a(self, xs):
        s = set(xs)
        return list(s)
    def b(self, xs):
        s = set(str(x) for x in xs)
        t = list(s)
        return sorted(t)
    def c(self, xs):
        out = []
        for x in set(xs):
            out.append(x)
        return out
    def d(self, xs):
        out = []
        for x in set(xs):
            out.append(x)
        return sorted(out)
    def e(self):
        return time.time()
    def f(self, xs):
        n = 0
        for x in set(xs):
            if x:
                n += 1
        return n
    def g(self, xs):
        return ",".join({str(x) for x in xs})
"""
    p = Program.from_source(src)
    r = Result("x")
    check(p, Interp(p, {}), r)
    got = sorted({f.key.split("|")[0] for f in r.findings})
    if got != ["A.a", "A.c", "A.e", "A.g"]:
        raise AnalysisBroken(f"C12 self-example not decided: {got}")
