"""C37: the package refuses to be imported when assertions are disabled.

Finite-domain abstract interpretation of the import-time code: the interpreter
configuration is abstracted to (PYTHONOPTIMIZE unset / blank / set) x (__debug__
true / false); every module-level statement of the package root that can reach
the guard is evaluated in each abstract configuration, with branches on anything
else taken both ways.
"""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from .c13 import full_name

UNK = ("?",)
UNSET, BLANK, SET = ("c", None), ("blank",), ("set",)
ENVNAME = "PYTHONOPTIMIZE"
FALL = "falls through"


class Out:
    """possible outcomes of a piece of code: (kind, decided) pairs, plus the environment after falling through"""


class Eval:
    def __init__(self, prog, env, debug):
        self.prog, self.penv, self.debug = prog, env, debug
        self.depth = 0

    # ---- expressions: ("c", value) | BLANK | SET | ("func", Func) | ("cls", Cls) | ("self", dict) | ("environ",) | UNK
    def truth(self, v):
        if v[0] == "c":
            return bool(v[1])
        if v == SET or v[0] in ("func", "cls", "self"):
            return True
        if v == BLANK:
            return None
        return None

    def expr(self, e, env, m):
        """-> (value, may_raise: None no / True surely)"""
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if isinstance(e, ast.Name):
            if e.id == "__debug__":
                return ("c", self.debug)
            if e.id in env:
                return env[e.id]
            r = self.prog.resolve_name(m, e.id)
            if r and r[0] == "func":
                return ("func", r[1])
            if r and r[0] == "class":
                return ("cls", r[1])
            if r and r[0] == "ext":
                return ("ext", r[1])
            if r and r[0] == "global":
                c = self.prog.const(r[1], ast.Name(id=e.id, ctx=ast.Load())) if False else None
                vals = r[1].globals.get(e.id)
                node = vals[-1] if isinstance(vals, list) and vals else (vals if isinstance(vals, ast.AST) else None)
                node = getattr(node, "value", node) if isinstance(node, (ast.Assign, ast.AnnAssign)) else node
                if isinstance(node, ast.Constant):
                    return ("c", node.value)
            if e.id in ("True", "False", "None"):
                return ("c", {"True": True, "False": False, "None": None}[e.id])
            return UNK
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            full = full_name(self.prog, m, None, d) if d else None
            if full == "os.environ":
                return ("environ",)
            if full == "sys.flags":
                return ("flags",)
            if full in ("sys.flags.optimize",):
                return ("c", 0) if self.debug else ("pos",)
            b = self.expr(e.value, env, m)
            if b[0] == "self":
                return b[1].get(e.attr, UNK)
            if b[0] == "flags" and e.attr == "optimize":
                return ("c", 0) if self.debug else ("pos",)
            return UNK
        if isinstance(e, ast.JoinedStr):
            return ("c", "text")
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(self.expr(e.operand, env, m))
            return UNK if t is None else ("c", not t)
        if isinstance(e, ast.BoolOp):
            seen_unknown = False
            stop = isinstance(e.op, ast.Or)
            last = UNK
            for v in e.values:
                last = self.expr(v, env, m)
                t = self.truth(last)
                if t is None:
                    seen_unknown = True
                elif t == stop:
                    return last if not seen_unknown else (("c", stop) if not seen_unknown else ("c", stop) if self._bool_only(e) else UNK)
            return UNK if seen_unknown else last
        if isinstance(e, ast.IfExp):
            t = self.truth(self.expr(e.test, env, m))
            if t is None:
                a, b = self.expr(e.body, env, m), self.expr(e.orelse, env, m)
                return a if a == b else UNK
            return self.expr(e.body if t else e.orelse, env, m)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.expr(e.left, env, m), self.expr(e.comparators[0], env, m)
            return self.compare(e.ops[0], a, b)
        if isinstance(e, ast.Subscript):
            b = self.expr(e.value, env, m)
            k = self.expr(e.slice, env, m)
            if b == ("environ",) and k == ("c", ENVNAME):
                if self.penv == UNSET:
                    raise Raised()
                return self.penv
            return UNK
        if isinstance(e, ast.Call):
            return self.call(e, env, m)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env, m)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.BinOp):
            self.expr(e.left, env, m)
            self.expr(e.right, env, m)
            return UNK
        return UNK

    def _bool_only(self, e):
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if b == ("environ",) and a == ("c", ENVNAME):
                r = self.penv != UNSET
                return ("c", r if isinstance(op, ast.In) else not r)
            return UNK
        neg = isinstance(op, (ast.NotEq, ast.IsNot))
        if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            if a[0] == "c" and b[0] == "c":
                same = (a[1] == b[1]) if isinstance(op, (ast.Eq, ast.NotEq)) else (a[1] is b[1] or (isinstance(a[1], str) and a[1] == b[1]))
                return ("c", same != neg)
            for x, y in ((a, b), (b, a)):
                if x == SET and y[0] == "c" and (y[1] is None or y[1] == "" or not isinstance(y[1], str)):
                    return ("c", neg)
                if x == BLANK and y[0] == "c" and (y[1] is None or not isinstance(y[1], str)):
                    return ("c", neg)
                if x == ("stripped",) and y == ("c", ""):
                    return ("c", not neg)
                if x == ("pos",) and y[0] == "c" and (not isinstance(y[1], int) or y[1] < 1):
                    return ("c", neg)
            return UNK
        x, y = a, b
        if x == ("pos",) and y[0] == "c" and isinstance(y[1], int):
            if isinstance(op, ast.Gt) and y[1] < 1 or isinstance(op, ast.GtE) and y[1] <= 1:
                return ("c", True)
            if isinstance(op, (ast.Lt, ast.LtE)) and y[1] < 1:
                return ("c", False)
            return UNK
        if x[0] == "c" and y[0] == "c":
            try:
                v = {ast.Gt: x[1].__gt__, ast.GtE: x[1].__ge__, ast.Lt: x[1].__lt__, ast.LtE: x[1].__le__}[type(op)](y[1])
                return ("c", v) if isinstance(v, bool) else UNK
            except Exception:
                return UNK
        if isinstance(y, tuple) and y[0] == "len" or x[0] == "len":
            return UNK
        return UNK

    def call(self, e, env, m):
        d = dotted(e.func)
        full = full_name(self.prog, m, None, d) if d else None
        args = [self.expr(a, env, m) for a in e.args if not isinstance(a, ast.Starred)]
        kws = {k.arg: self.expr(k.value, env, m) for k in e.keywords}
        if full == "os.getenv" or (isinstance(e.func, ast.Attribute) and e.func.attr == "get" and self.expr(e.func.value, env, m) == ("environ",)):
            if args and args[0] == ("c", ENVNAME):
                if self.penv != UNSET:
                    return self.penv
                return args[1] if len(args) > 1 else kws.get("default", ("c", None))
            return UNK
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("strip", "lstrip", "rstrip") and not args:
            b = self.expr(e.func.value, env, m)
            if b == BLANK:
                return ("stripped",) if False else ("c", "")
            if b == SET:
                return SET
            if b[0] == "c" and isinstance(b[1], str):
                return ("c", b[1].strip())
            return UNK
        if d == "isinstance" and len(args) == 2 and len(e.args) == 2:
            names = [dotted(x) for x in (e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]])]
            v = args[0]
            py = "str" if v in (SET, BLANK) else (type(v[1]).__name__ if v[0] == "c" else None)
            if py is None:
                return UNK
            return ("c", py in names or (py == "bool" and "int" in names))
        if d == "bool" and len(args) == 1:
            t = self.truth(args[0])
            return UNK if t is None else ("c", t)
        if d == "str" and len(args) == 1:
            return args[0] if args[0] in (SET, BLANK) else (("c", str(args[0][1])) if args[0][0] == "c" else UNK)
        if d == "len" and len(args) == 1:
            return ("pos",) if args[0] == SET else (("c", len(args[0][1])) if args[0][0] == "c" and isinstance(args[0][1], str) else UNK)
        f = self.expr(e.func, env, m) if isinstance(e.func, ast.Name) else UNK
        bound = None
        if isinstance(e.func, ast.Attribute):
            b = self.expr(e.func.value, env, m)
            if b[0] == "self":
                g = self.prog.find_method(b[2].name, e.func.attr) if len(b) > 2 else None
                if g is not None:
                    f, bound = ("func", g), b
            elif d and self.prog.resolve_name(m, d.split(".")[0]) and self.prog.resolve_name(m, d.split(".")[0])[0] == "module":
                mm = self.prog.resolve_name(m, d.split(".")[0])[1]
                r = self.prog.resolve_name(mm, e.func.attr)
                if r and r[0] in ("func", "class"):
                    f = ("func" if r[0] == "func" else "cls", r[1])
        if full in ("sys.exit", "os._exit"):
            raise Raised()
        if f[0] == "cls":
            init = self.prog.find_method(f[1].name, "__init__")
            obj = ("self", {}, f[1])
            if init is not None:
                self.invoke(init, [obj] + args, kws)
            return obj
        if f[0] == "func":
            return self.invoke(f[1], ([bound] if bound else []) + args, kws)
        return UNK

    def invoke(self, f, args, kws):
        if self.depth > 6:
            return UNK
        env = dict(zip(f.params, args))
        env.update({k: v for k, v in kws.items() if k})
        for p, dv in f.defaults.items():
            if p not in env:
                env[p] = ("c", dv.value) if isinstance(dv, ast.Constant) else UNK
        for p in f.all_params:
            env.setdefault(p, UNK)
        self.depth += 1
        try:
            outs = self.block(f.node.body, env, f.module)
        finally:
            self.depth -= 1
        if outs and all(o[0] == "raise" for o in outs):
            raise Raised()
        # may raise on some path only: the caller continues (what is needed is "surely raises")
        vals = [o[1] for o in outs if o[0] in ("return", FALL)]
        if any(o[0] == "raise" for o in outs):
            raise Maybe([v if v is not None else ("c", None) for v in vals])
        vals = [("c", None) if o[0] == FALL else o[1] for o in outs]
        return vals[0] if vals and all(v == vals[0] for v in vals) else UNK

    # ---- statements: set of outcomes [(kind, value/None, env)]
    def block(self, body, env, m):
        live = [env]
        outs = []
        for s in body:
            nxt = []
            for en in live:
                for o in self.stmt(s, en, m):
                    if o[0] == FALL:
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            live = nxt
            if not live:
                break
        return outs + [(FALL, None, en) for en in live]

    def safely(self, e, env, m):
        """list of (outcome, value)"""
        try:
            return [("ok", self.expr(e, env, m))]
        except Raised:
            return [("raise", None)]
        except Maybe as mb:
            return [("raise", None), ("ok", UNK)]

    def stmt(self, s, env, m):
        env = dict(env)
        if isinstance(s, ast.Raise):
            return [("raise", None, env)]
        if isinstance(s, ast.Assert):
            if not self.debug:
                return [(FALL, None, env)]
            outs = []
            for k, v in self.safely(s.test, env, m):
                t = self.truth(v) if k == "ok" else False
                if t is not True:
                    outs.append(("raise", None, env))
                if t is not False:
                    outs.append((FALL, None, env))
            return outs
        if isinstance(s, ast.Return):
            if s.value is None:
                return [("return", ("c", None), env)]
            return [("raise", None, env) if k == "raise" else ("return", v, env) for k, v in self.safely(s.value, env, m)]
        if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return [(FALL, None, env)]
            outs = []
            for k, v in self.safely(s.value, env, m):
                if k == "raise":
                    outs.append(("raise", None, env))
                    continue
                en = dict(env)
                if isinstance(s, ast.AugAssign):
                    v = UNK
                for t in getattr(s, "targets", None) or ([s.target] if hasattr(s, "target") else []):
                    self.store(t, v, en, m)
                outs.append((FALL, None, en))
            return outs
        if isinstance(s, ast.If):
            outs = []
            for k, v in self.safely(s.test, env, m):
                if k == "raise":
                    outs.append(("raise", None, env))
                    continue
                t = self.truth(v)
                if t is not False:
                    outs += self.block(s.body, dict(env), m)
                if t is not True:
                    outs += self.block(s.orelse, dict(env), m)
            return outs
        if isinstance(s, ast.Try):
            outs = []
            for o in self.block(s.body, dict(env), m):
                if o[0] == "raise" and s.handlers:
                    for h in s.handlers[:1]:
                        en = dict(o[2])
                        if h.name:
                            en[h.name] = UNK
                        outs += self.block(h.body, en, m)
                elif o[0] == FALL and s.orelse:
                    outs += self.block(s.orelse, o[2], m)
                else:
                    outs.append(o)
            if s.finalbody:
                fin = []
                for o in outs:
                    for q in self.block(s.finalbody, dict(o[2]), m):
                        fin.append(o if q[0] == FALL else q)
                outs = fin
            return outs
        if isinstance(s, (ast.For, ast.While)):
            en = dict(env)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    en[n.id] = UNK
            if isinstance(s, ast.While) and self.safely(s.test, dict(env), m) == [("ok", ("c", False))]:
                return [(FALL, None, env)]
            inner = [o if o[0] != FALL else (FALL, None, en) for o in self.block(s.body, dict(en), m)]
            return inner + [(FALL, None, en)]
        if isinstance(s, ast.With):
            return self.block(s.body, env, m)
        return [(FALL, None, env)]

    def store(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, env, m)
            if b[0] == "self":
                b[1][t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, UNK, env, m)


class Raised(Exception):
    pass


class Maybe(Exception):
    def __init__(self, vals):
        self.vals = vals


def guard_calls(prog):
    """module-level statements that call into the package, outside `if __name__ == '__main__'`"""
    out = []
    for m in prog.modules.values():
        if m.name in ("__main__", "models_all"):
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)):
                continue
            if any(isinstance(n, ast.Call) or isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(st)):
                out.append((m, st))
    return out


def check(prog, res, cls="PythonOptimizeCheck"):
    stmts = guard_calls(prog)
    res.count("import_time_statements", len(stmts))
    imported = reached(prog)
    for env, en in ((UNSET, "PYTHONOPTIMIZE unset"), (BLANK, "PYTHONOPTIMIZE blank"), (SET, "PYTHONOPTIMIZE set")):
        for debug in (True, False):
            if env == BLANK and debug or env == UNSET and debug:
                continue        # assertions are enabled
            res.count("abstract_configurations")
            sure = False
            for m, st in stmts:
                if m.name not in imported:
                    continue
                ev = Eval(prog, env, debug)
                outs = ev.stmt(st, {}, m)
                if outs and all(o[0] == "raise" for o in outs):
                    sure = True
                    res.sample(f"{en}, __debug__={debug}: {m.rel}:{st.lineno} raises")
                    break
            if not sure:
                where = next((f"{m.rel}:{st.lineno}" for m, st in stmts if m.name == "__init__" and cls in ast.unparse(st)), f"{prog.modules['__init__'].rel}:1" if "__init__" in prog.modules else "?")
                res.add(f"import|{en}|__debug__={debug}", f"the package can be imported with {en} and __debug__ {'true' if debug else 'false'}: no import-time statement is sure to raise", where)


def reached(prog):
    """modules that importing the package root runs"""
    root = "__init__" if "__init__" in prog.modules else next(iter(prog.modules))
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n in seen or n not in prog.modules:
            continue
        seen.add(n)
        for st in ast.walk(prog.modules[n].tree):
            if isinstance(st, ast.ImportFrom) and st.module and st.module.startswith("ciscoconfparse"):
                todo.append(st.module.partition(".")[2] or "__init__")
                todo += [a.name for a in st.names]
            elif isinstance(st, ast.Import):
                todo += [a.name.partition(".")[2] for a in st.names if a.name.startswith("ciscoconfparse.")]
    return seen


def run(ctx):
    res = Result("Import-time must-raise analysis: in every abstract interpreter configuration with assertions disabled (or PYTHONOPTIMIZE set), some module-level statement run by importing the package raises on every path.")
    check(ctx.prog, res)
    res.floor("abstract_configurations", 4)
    res.assumptions += ["assert statements do nothing when __debug__ is false; a handler of the evaluated code is taken to catch whatever its try body raises"]
    return res


def selftest():
    base = """import os
class G:
    def __init__(self):
        self.v = os.environ.get("PYTHONOPTIMIZE", None)
        e = "ok"
        try:
            if isinstance(self.v, str) and self.v.strip() != "":
                e = "set"
            elif __debug__ is False:
                e = "flag"
        except Exception:
            raise RuntimeError
        if e != "ok":
            raise ValueError(e)
_ = G()
"""
    for src, n in ((base, 0), (base.replace("__debug__ is False", "__debug__ is None"), 2), (base.replace("_ = G()", "try:\n    _ = G()\nexcept ValueError:\n    pass"), 4),
                   (base.replace('        if e != "ok":\n            raise ValueError(e)', '        assert e == "ok"'), 3)):
        r = Result("x")
        check(Program.from_source(src), r)
        if len(r.findings) != n:
            raise AnalysisBroken(f"C37 self-example not decided: {n} {[f.key for f in r.findings]}")
