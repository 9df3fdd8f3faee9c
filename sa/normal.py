"""Meaning-preserving normal form of a parsed module, so that the rules see one shape for equivalent code.

  * `if c: ..; return else: rest`        ->  `if c: ..; return` followed by rest  (the branch leaves)
  * `v = e` directly followed by the only use of v: the expression itself, when it is the first
    thing evaluated there or evaluating it has no effects
  * `for i, x in enumerate(s)`, i unused ->  `for x in s`
  * a constant expression statement (not a docstring), `pass` beside other statements -> nothing
  * `s.extend([x])`                      ->  `s.append(x)`
  * `None is x`, `0 < n`                 ->  the constant on the right
  * `"..{}..".format(a)`, plain fields   ->  the f-string
  * `i = 0; while i < len(s): x = s[i]; ..; i += 1`  ->  `for x in s` (`enumerate` when i is used)
  * `for i in range(len(s)): x = s[i]`   ->  `for i, x in enumerate(s)`, s not changed in the loop
  * `R = re.compile(p)` once at module level: `R.search(x)` in the functions -> `re.search(p, x)`
"""
import ast
import copy
import string

MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
GROW = {"append", "insert", "extend", "pop", "remove", "clear", "sort", "reverse"}

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNCS + (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)


def never(t):
    """a test that is false whatever runs"""
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and len(t.args) == 1 and not t.keywords:
        t = t.args[0]
    return isinstance(t, ast.Constant) and not t.value or isinstance(t, (ast.List, ast.Tuple)) and not t.elts or isinstance(t, ast.Dict) and not t.keys


def leaves(body):
    """control never runs off the end of the block"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and leaves(s.body) and leaves(s.orelse)


def first(e):
    """the expressions evaluated before anything else in e, outermost first: [(holder, field, index)]"""
    if isinstance(e, ast.UnaryOp):
        return [(e, "operand", None)] + first(e.operand)
    if isinstance(e, ast.Compare):
        return [(e, "left", None)] + first(e.left)
    if isinstance(e, ast.BoolOp):
        return [(e, "values", 0)] + first(e.values[0])
    if isinstance(e, ast.BinOp):
        return [(e, "left", None)] + first(e.left)
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        return [(e, "value", None)] + first(e.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return first(e.func)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.args and not isinstance(e.args[0], ast.Starred):
        return [(e, "args", 0)] + first(e.args[0])
    return []


def use_counts(fn):
    """local name -> [loads, stores], names shared with another scope marked as unusable"""
    out, shared = {}, set()

    def go(n, inner):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                shared.update(ch.names)
            if isinstance(ch, ast.Name):
                if inner:
                    shared.add(ch.id)
                else:
                    c = out.setdefault(ch.id, [0, 0])
                    c[0 if isinstance(ch.ctx, ast.Load) else 1] += 1
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                shared.add(ch.name)
            go(ch, inner or isinstance(ch, SCOPES))
    go(fn, False)
    a = fn.args
    shared.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    return {k: v for k, v in out.items() if k not in shared}


class Exprs(ast.NodeTransformer):
    """expression level rewrites"""

    def __init__(self, tree):
        self.depth = 0
        self.rgx = {}
        stores = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            elif isinstance(n, ast.arg):
                stores[n.arg] = 2
        for s in tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and stores.get(s.targets[0].id) == 1:
                v = s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "compile" and isinstance(v.func.value, ast.Name) and v.func.value.id == "re" \
                        and v.args and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str) and len(v.args) + len(v.keywords) <= 2 and all(k.arg == "flags" for k in v.keywords):
                    self.rgx[s.targets[0].id] = (v.args[0], v.args[1] if len(v.args) > 1 else v.keywords[0].value if v.keywords else None)

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant) and type(n.ops[0]) in MIRROR:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [MIRROR[type(n.ops[0])]()]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not isinstance(f, ast.Attribute):
            return n
        if f.attr == "extend" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.List) and len(n.args[0].elts) == 1 and not isinstance(n.args[0].elts[0], ast.Starred):
            f.attr, n.args = "append", n.args[0].elts
            return n
        if f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            return self.fstring(n, f.value.value) or n
        if self.depth and isinstance(f.value, ast.Name) and f.value.id in self.rgx and f.attr in ("search", "match", "fullmatch", "sub", "subn", "split", "findall", "finditer") \
                and len(n.args) + len(n.keywords) <= (3 if f.attr in ("sub", "subn") else 2 if f.attr == "split" else 1) and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg in (None, "pos", "endpos") for k in n.keywords):
            pat, flags = self.rgx[f.value.id]
            n.args = [ast.copy_location(copy.deepcopy(pat), f.value)] + n.args
            if flags is not None:
                n.keywords = n.keywords + [ast.copy_location(ast.keyword("flags", copy.deepcopy(flags)), n)]
            n.func = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name("re", ast.Load()), f.value), f.attr, ast.Load()), f)
        return n

    @staticmethod
    def fstring(n, text):
        try:
            parts = list(string.Formatter().parse(text))
        except ValueError:
            return None
        vals, used, auto = [], set(), 0
        for lit, field, spec, conv in parts:
            if lit:
                vals.append(ast.copy_location(ast.Constant(lit), n))
            if field is None:
                continue
            if field == "":
                k, auto = auto, auto + 1
            elif field.isdigit():
                k = int(field)
            else:
                return None
            if spec or k >= len(n.args) or k in used:
                return None
            used.add(k)
            vals.append(ast.copy_location(ast.FormattedValue(n.args[k], ord(conv) if conv else -1, None), n.args[k]))
        if used != set(range(len(n.args))):
            return None
        return ast.copy_location(ast.JoinedStr(vals), n)


PURE = {"strip", "lstrip", "rstrip", "lower", "upper", "split", "startswith", "endswith", "replace", "join", "format", "splitlines"}


def pure(e):
    """evaluating the expression changes nothing and reads nothing but local values"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.JoinedStr, ast.FormattedValue, ast.Tuple)):
        return all(pure(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))
    if isinstance(e, ast.Call) and not e.keywords:
        if isinstance(e.func, ast.Attribute) and e.func.attr in PURE:
            return pure(e.func.value) and all(pure(a) for a in e.args)
        return isinstance(e.func, ast.Name) and e.func.id in ("len", "isinstance") and all(pure(a) for a in e.args)
    return False


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def split_tuple(s):
    """`a, b = x, y` -> [`a = x`, `b = y`] when no value reads a name assigned before it; `a = a` goes"""
    t = s.targets[0]
    if len(s.targets) != 1:
        return None
    if isinstance(t, ast.Name) and isinstance(s.value, ast.Name) and t.id == s.value.id:
        return []
    if not (isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts) and all(isinstance(x, ast.Name) for x in t.elts) and all(isinstance(x, (ast.Name, ast.Constant)) for x in s.value.elts)):
        return None
    pairs = [(a, b) for a, b in zip(t.elts, s.value.elts) if not (isinstance(b, ast.Name) and a.id == b.id)]
    done = set()
    for a, b in pairs:
        if isinstance(b, ast.Name) and b.id in done:
            return None
        done.add(a.id)
    return [ast.copy_location(ast.Assign([a], b), s) for a, b in pairs]


def plain(e):
    """a name or a chain of attributes of one"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def walk_own(body, skip=()):
    """the nodes of a block, nested functions left out; inner loops left out too when asked"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES[:3]) or isinstance(n, skip):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Normal:
    def module(self, tree):
        Exprs(tree).visit(tree)
        for n in ast.walk(tree):
            if isinstance(n, FUNCS):
                self.counts = use_counts(n)
                n.body = self.block(n.body, True)
        return tree

    def children(self, s):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = self.block(b)
                setattr(s, f, nb or [ast.copy_location(ast.Pass(), b[0])] if f == "body" else nb)
        for h in getattr(s, "handlers", ()):
            h.body = self.block(h.body) or [ast.copy_location(ast.Pass(), h)]
        for c in getattr(s, "cases", ()):
            c.body = self.block(c.body) or [ast.copy_location(ast.Pass(), c.body[0])]

    def block(self, body, doc=False):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, FUNCS + (ast.ClassDef,)):
                out.append(s)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and not (doc and i == 0):
                continue
            if isinstance(s, ast.Pass) and len(body) > 1:
                continue
            if isinstance(s, ast.If) and len(body) > 1 and never(s.test) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(s)):
                if s.orelse:
                    out.extend(self.block(s.orelse))
                continue
            if isinstance(s, ast.Assign):
                parts = split_tuple(s)
                if parts is not None:
                    out.extend(parts)
                    continue
            self.children(s)
            if isinstance(s, ast.For):
                self.unenumerate(s)
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                rest, s.orelse = s.orelse, []
                out.append(s)
                out.extend(rest)
                continue
            out.append(s)
        out = self.inline(self.loops(out))
        if not out and body:
            out = [ast.copy_location(ast.Pass(), body[0])]
        return out

    def loops(self, out):
        """index loops become element loops"""
        i = 0
        while i < len(out):
            s = out[i]
            if isinstance(s, ast.While) and not s.orelse:
                self.while_loop(out, i)
            elif isinstance(s, ast.For):
                self.range_loop(s)
            i += 1
        return [s for s in out if s is not None]

    @staticmethod
    def element(st, seq, idx):
        """the statement is `x = seq[idx]` -> x"""
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Name, ast.Tuple)) and isinstance(st.value, ast.Subscript) \
                and isinstance(st.value.slice, ast.Name) and st.value.slice.id == idx and same(st.value.value, seq):
            return st.targets[0]
        return None

    @staticmethod
    def rebound(body, seq):
        """the sequence itself may be another object after a turn of the loop"""
        root = seq
        while isinstance(root, ast.Attribute):
            root = root.value
        for n in walk_own(body):
            if isinstance(n, ast.Name) and n.id == root.id and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(seq, ast.Attribute) and n.attr == seq.attr:
                return True
        return isinstance(seq, ast.Attribute) and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == root.id for n in walk_own(body))

    def while_loop(self, out, i):
        s = out[i]
        t = s.test
        j = i - 1
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Call)
                and isinstance(t.comparators[0].func, ast.Name) and t.comparators[0].func.id == "len" and len(t.comparators[0].args) == 1 and plain(t.comparators[0].args[0])):
            return
        idx, seq = t.left.id, t.comparators[0].args[0]
        while j >= 0 and isinstance(out[j], ast.Assign) and not (isinstance(out[j].targets[0], ast.Name) and out[j].targets[0].id == idx):
            j -= 1
        a = out[j] if j >= 0 else None
        c = self.counts.get(idx)
        if c is None or not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == idx and isinstance(a.value, ast.Constant) and a.value.value == 0 and a.value.value is not False):
            return
        if any(isinstance(n, ast.Name) and n.id == idx for st in out[j + 1:i] for n in ast.walk(st)):
            return
        inner = [n for n in walk_own(s.body) if isinstance(n, ast.Name) and n.id == idx]
        incs = [k for k, st in enumerate(s.body) if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and st.target.id == idx and isinstance(st.value, ast.Constant) and st.value.value == 1
                or isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == idx and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add)
                and isinstance(st.value.left, ast.Name) and st.value.left.id == idx and isinstance(st.value.right, ast.Constant) and st.value.right.value == 1]
        if len(incs) != 1 or len(s.body) < 2:
            return
        k = incs[0]
        x = self.element(s.body[0], seq, idx)
        body = [st for n, st in enumerate(s.body) if n not in (0, k)]
        rest = [n for n in walk_own(body) if isinstance(n, ast.Name) and n.id == idx]
        loads_elsewhere = c[0] - sum(isinstance(n.ctx, ast.Load) for n in inner) - 1
        if x is None or any(not isinstance(n.ctx, ast.Load) for n in rest) or loads_elsewhere or self.rebound(s.body, seq):
            return
        if k == len(s.body) - 1:
            if any(isinstance(n, ast.Continue) for n in walk_own(body, (ast.For, ast.While))):
                return
        elif k != 1 or rest:
            return
        it = copy.deepcopy(seq)
        if rest:
            it = ast.copy_location(ast.Call(ast.Name("enumerate", ast.Load()), [it], []), s)
            x = ast.copy_location(ast.Tuple([ast.Name(idx, ast.Store()), x], ast.Store()), x)
        new = ast.copy_location(ast.For(x, it, body or [ast.Pass()], []), s)
        new.end_lineno = s.end_lineno
        ast.fix_missing_locations(new)
        self.counts[idx] = [len(rest), 1 if rest else 0]
        out[i] = new
        out[j] = None

    def range_loop(self, s):
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and not it.keywords and isinstance(s.target, ast.Name)
                and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" and len(it.args[0].args) == 1 and isinstance(it.args[0].args[0], ast.Name)):
            return
        idx, seq = s.target.id, it.args[0].args[0]
        x = self.element(s.body[0], seq, idx)
        if not isinstance(x, ast.Name) or len(s.body) < 2 or self.counts.get(idx) is None or self.rebound(s.body, seq):
            return
        for n in walk_own(s.body):
            if isinstance(n, ast.Attribute) and n.attr in GROW and same(n.value, seq) or isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and same(n.value, seq):
                return
            if isinstance(n, ast.Name) and n.id == idx and not isinstance(n.ctx, ast.Load):
                return
        s.target = ast.copy_location(ast.Tuple([ast.copy_location(ast.Name(idx, ast.Store()), s.target), x], ast.Store()), s.target)
        s.iter = ast.copy_location(ast.Call(ast.copy_location(ast.Name("enumerate", ast.Load()), it), [seq], []), it)
        del s.body[0]
        self.counts[idx][0] -= 1
        self.unenumerate(s)

    def unenumerate(self, s):
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and not isinstance(it.args[0], ast.Starred) \
                and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            c = self.counts.get(s.target.elts[0].id)
            if c == [0, 1] and not any(isinstance(x, ast.Starred) for x in s.target.elts):
                s.target, s.iter = s.target.elts[1], it.args[0]

    def inline(self, out):
        i = len(out) - 2
        while i >= 0:
            s, nx = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and self.counts.get(s.targets[0].id) == [1, 1] \
                    and (self.put(nx, s.targets[0].id, s.value) or isinstance(s.value, ast.Constant) and self.put_constant(nx, s.targets[0].id, s.value)
                         or pure(s.value) and self.put_pure(nx, s.targets[0].id, s.value)):
                del out[i]
            i -= 1
        return out

    @staticmethod
    def put_pure(st, name, value):
        """a value without effects may move to any place of the next statement that no call precedes"""
        if isinstance(st, ast.If):
            e = st.test
        elif isinstance(st, (ast.Return, ast.Assign, ast.Expr)) and st.value is not None:
            e = st.value
        else:
            return False

        def go(h):
            """True: done; False: not here, go on; None: stop"""
            for f in h._fields:
                v = getattr(h, f, None)
                for k, x in enumerate(v) if isinstance(v, list) else [(None, v)]:
                    if not isinstance(x, ast.AST) or isinstance(x, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
                        continue
                    if isinstance(x, ast.Name) and x.id == name:
                        if k is None:
                            setattr(h, f, value)
                        else:
                            v[k] = value
                        return True
                    if isinstance(h, (ast.BoolOp, ast.IfExp)) and not (f == "test" or k == 0):
                        return None
                    if isinstance(x, SCOPES + (ast.Dict, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                        return None
                    r = go(x)
                    if r is not False:
                        return r
            return None if isinstance(h, ast.Call) else False
        return go(e) is True

    @staticmethod
    def put_constant(st, name, value):
        """a constant may move to any place of the next statement"""
        if isinstance(st, ast.If):
            roots = [(st, "test")]
        elif isinstance(st, (ast.Return, ast.Assign, ast.Expr, ast.AugAssign)) and st.value is not None:
            roots = [(st, "value")]
        else:
            return False
        todo = list(roots)
        while todo:
            h, f = todo.pop()
            v = getattr(h, f)
            for k, e in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(e, ast.Name) and e.id == name and isinstance(e.ctx, ast.Load):
                    if k is None:
                        setattr(h, f, value)
                    else:
                        v[k] = value
                    return True
                if isinstance(e, ast.AST) and not isinstance(e, SCOPES):
                    todo.extend((e, g) for g in e._fields)
        return False

    def put(self, st, name, value):
        f = "test" if isinstance(st, ast.If) else "value" if isinstance(st, (ast.Return, ast.Expr, ast.Assign)) else None
        if f is None or getattr(st, f) is None:
            return False
        return self.swap([(st, f, None)] + first(getattr(st, f)), name, value)

    @staticmethod
    def swap(places, name, value):
        for h, f, k in places:
            e = getattr(h, f) if k is None else getattr(h, f)[k]
            if isinstance(e, ast.Name) and e.id == name:
                if k is None:
                    setattr(h, f, value)
                else:
                    getattr(h, f)[k] = value
                return True
        return False


def normalise(tree):
    return Normal().module(tree)
