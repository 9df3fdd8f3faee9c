"""C15: failures are raised, never swallowed."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted, deco_name, strip_doc

# Documented conversions of a failure into a value, confirmed by reading.  A
# handler is allowed by what it catches, what its `try` asks for and the public
# operation it belongs to; a handler moved into a helper belongs to the public
# operations that call the helper.
ADDR_ATTRS = {"ipv4_addr_object", "ipv4_standby_addr_object", "ip_network_object", "network_object"}
ADDR_CALLS = {"IPv4Obj", "IPv6Obj", "IPv4Network", "IPv6Network", "IPv4Address", "IPv6Address"}
DNS = {"dns_query", "dns_lookup", "dns6_lookup"}
ALLOWED = [
    # (owners, caught types or None for any, at least one of these calls or None, reason)
    (ADDR_ATTRS, None, ADDR_CALLS, "address look-up of a line whose address is absent or unusable: documented default"),
    (DNS, None, None, "DNS answers report the failure in the response they return"),
    ({"__eq__"}, {"Exception", "AttributeError", "TypeError", "RequirementFailure", "BaseException"}, None, "comparison with something else is False"),
    ({"__repr__"}, {"DynamicAddressException"}, None, "the text says the address is dynamic"),
    ({"append_to_family"}, {"IndexError"}, None, "a line without children: insert after the line itself"),
    ({"__sub__"}, {"ValueError"}, {"remove"}, "subtracting an absent member is a no-op"),
    ({"append"}, {"DuplicateMember"}, None, "CiscoRange.append(ignore_errors=True) skips duplicates; without it the duplicate raised before the try"),
    ({"remove"}, {"TypeError"}, None, "CiscoRange.remove tries the next member type and raises when none fits"),
    ({"__init__"}, {"AttributeError", "TypeError"}, {"isinstance"}, "CiscoConfParse.__init__ records the failed element check and raises after the try"),
    ({"__getattribute__"}, {"BaseException", "Exception", "AttributeError"}, {"__getattribute__"}, "attribute forwarding: the second look-up raises when it fails too"),
    ({"decrypt"}, {"ValueError"}, {"int"}, "documented: an unencrypted password is silently bypassed"),
]
LOG_ALLOWED = {
    # owner, reason
    "run_this_posix_command": "returns the exit status it logged",
    "network_object": "address look-up (see above)",
    "Diff.__init__": "hostname is documented as an empty parameter: logged as unsupported",
}


def owner_names(prog, f, wanted, depth=3, seen=()):
    """names the construct is attributed to: f itself when wanted, else the functions that use f"""
    if f.name in wanted:
        return True
    if depth == 0 or f.qual in seen:
        return False
    cs = users(prog, f)
    return bool(cs) and all(owner_names(prog, c, wanted, depth - 1, seen + (f.qual,)) for c in cs)


def users(prog, f):
    if not hasattr(prog, "_users"):
        prog._users = {}
        for g in prog.funcs.values():
            if g.outer is not None:
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Name):
                    prog._users.setdefault(n.id, []).append(g)
                elif isinstance(n, ast.Attribute):
                    prog._users.setdefault(n.attr, []).append(g)
    return list({g.qual: g for g in prog._users.get(f.name, []) if g.qual != f.qual}.values())


def allowed(prog, f, t, h):
    types = set(exc_names(h))
    calls = calls_in(t.body)
    for owners, caught, need, why in ALLOWED:
        if caught is not None and not types <= caught:
            continue
        if need is not None and not (calls & need):
            continue
        if owner_names(prog, f, owners):
            return why
    return None


def exc_names(h):
    if h.type is None:
        return ("BaseException",)
    es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return tuple(sorted((dotted(e) or "?").split(".")[-1] for e in es))


def calls_in(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d is None and isinstance(n.func, ast.Attribute):
                    d = n.func.attr
                if d and not d.startswith("logger."):
                    out.add(d.split(".")[-1])
    return out


class NoReturn:
    """functions that never complete normally"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def never(self, f, depth=0):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = False
        if depth > 4 or f.is_abstract:
            return False
        r = not completes(strip_doc(f.node.body), self, f) and not any(isinstance(n, (ast.Return, ast.Yield)) for n in ast.walk(f.node))
        self.memo[f.qual] = r
        return r

    def call_never(self, n, f):
        if not isinstance(n, ast.Call):
            return False
        d = dotted(n.func)
        if d is None:
            return False
        if d in ("sys.exit", "os._exit") or d in ("exit", "quit") and self.prog.resolve_name(f.module, d) is None:
            return True
        g = None
        if "." not in d:
            r = self.prog.resolve_name(f.module, d)
            if r and r[0] == "func":
                g = r[1]
            elif d in f.nested:
                g = f.nested[d]
        elif f.cls is not None and f.params and d.split(".")[0] == f.params[0] and d.count(".") == 1:
            g = self.prog.find_method(f.cls.name, d.split(".")[1])
        return g is not None and self.never(g)


def completes(body, nr, f):
    """may control leave this block other than by an exception?  (fall through, return, break, continue)"""
    for s in body:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.Expr) and nr.call_never(s.value, f):
            return False
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
        if isinstance(s, ast.If):
            a = completes(s.body, nr, f)
            b = completes(s.orelse, nr, f) if s.orelse else True
            if not a and not b:
                return False
            # a branch that leaves by return/break counts as completing
            if a and _leaves(s.body) or s.orelse and b and _leaves(s.orelse):
                return True
        elif isinstance(s, ast.With):
            if not completes(s.body, nr, f):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not completes(s.finalbody, nr, f):
                return False
            body_c = completes(s.body + s.orelse, nr, f)
            if not body_c and not any(completes(h.body, nr, f) for h in s.handlers):
                return False
        elif isinstance(s, (ast.For, ast.While)):
            if any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return True
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return False
    return True


def _leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Break, ast.Continue))


LOOKUP = {"KeyError", "IndexError", "AttributeError", "StopIteration", "LookupError"}


def is_lookup_idiom(t, h):
    """try: x = d[k] except KeyError: x = default   (EAFP look-up, not a failure)"""
    if len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and isinstance(t.body[0].value, ast.Subscript) and calls_in(t.body) <= {"split"}:
        return True      # x = text.split(..)[i]: any failure means the part is absent
    if not set(exc_names(h)) <= LOOKUP:
        return False
    if len(t.body) != 1 or not isinstance(t.body[0], (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign)):
        return False
    v = t.body[0].value
    if v is None:
        return False
    for n in ast.walk(v):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d not in ("next", "getattr", "int", "str", "iter") and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "index", "popitem")):
                return False
    return True


def runs_off_end(f, t, h):
    """while ..: i += 1; try: x = s[i] .. except IndexError: break   (the walk ends with the sequence)"""
    if exc_names(h) != ("IndexError",) or not h.body or not isinstance(h.body[-1], ast.Break):
        return False
    loop = next((n for n in ast.walk(f.node) if isinstance(n, ast.While) and t in n.body), None)
    if loop is None:
        return False
    steps = {n.target.id for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
    st = t.body[0]
    return isinstance(st, ast.Assign) and isinstance(st.value, ast.Subscript) and isinstance(st.value.slice, ast.Name) and st.value.slice.id in steps


OPT_IN = {"ignore_errors": False}     # documented parameters by which the caller asks for failures to be ignored


def opt_in_value(t, f):
    """truth of a test over an opt-in parameter when the caller did not opt in, else None"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = opt_in_value(t.operand, f)
        return None if v is None else not v
    if isinstance(t, ast.Name) and t.id in OPT_IN and t.id in f.all_params:
        return bool(OPT_IN[t.id])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in OPT_IN and t.left.id in f.all_params and isinstance(t.comparators[0], ast.Constant):
        c, v, o = t.comparators[0].value, OPT_IN[t.left.id], t.ops[0]
        if isinstance(o, (ast.Is, ast.Eq)):
            return v == c and type(v) is type(c)
        if isinstance(o, (ast.IsNot, ast.NotEq)):
            return not (v == c and type(v) is type(c))
    if isinstance(t, ast.BoolOp):
        vs = [opt_in_value(x, f) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    return None


def not_opted_in(body, f):
    """the block as it runs when no opt-in parameter is set"""
    out = []
    for s in body:
        if isinstance(s, ast.If):
            v = opt_in_value(s.test, f)
            if v is not None:
                out += not_opted_in(s.body if v else s.orelse, f)
                continue
        out.append(s)
    return out


def handlers(prog):
    """(func, try node, handler, swallows)"""
    nr = NoReturn(prog)
    for f in prog.funcs.values():
        if f.outer is not None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for h in n.handlers:
                    hb = not_opted_in(h.body, f)
                    yield f, n, h, (completes(hb, nr, f) if hb else True)
                if n.finalbody:
                    for x in n.finalbody:
                        for y in ast.walk(x):
                            if isinstance(y, (ast.Return, ast.Break, ast.Continue)):
                                yield f, n, None, True


def blocks(node):
    for n in ast.walk(node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def check(prog, res):
    nh = 0
    for f, t, h, sw in handlers(prog):
        nh += 1
        if not sw:
            continue
        if h is None:
            res.add(f"{f.qual}|finally", f"{f.qual}: return/break/continue in a finally block discards the exception in flight", f.loc(t), alts=[f"{c.qual}|finally" for c in users(prog, f)])
            continue
        if is_lookup_idiom(t, h) or runs_off_end(f, t, h):
            res.count("lookup_idioms")
            continue
        why = allowed(prog, f, t, h)
        if why is None:
            sig = "|".join(exc_names(h))
            res.add(f"{f.qual}|swallows {sig}", f"{f.qual}: a failure ({sig}) of [{', '.join(sorted(calls_in(t.body))) or 'attribute reads'}] is discarded and the operation goes on", f.loc(h),
                    alts=[f"{c.qual}|swallows {sig}" for c in users(prog, f)])
        else:
            res.count("documented_conversions")
            if h.type is None or set(exc_names(h)) & {"Exception", "BaseException"}:
                answers = any(isinstance(x, ast.Return) and isinstance(x.value, ast.Attribute) and x.value.attr.startswith("default_") for x in ast.walk(h))
                before = t.handlers[:t.handlers.index(h)]
                if answers and owner_names(prog, f, {"ip_network_object"}) and calls_in(t.body) & {"IPv4Obj"} and not any("DynamicAddressException" in exc_names(b) for b in before):
                    res.add(f"{f.qual}|dynamic", f"{f.qual}: a dynamic address (DynamicAddressException) is answered with the default for a missing one", f.loc(h), alts=[f"{c.qual}|dynamic" for c in users(prog, f)])
            res.sample(f"{f.qual}: except {'|'.join(exc_names(h))} - {why}")
    res.count("handlers", nh)
    nr = NoReturn(prog)
    for f in prog.funcs.values():
        if f.outer is not None:
            continue
        for d in f.decorators:
            if isinstance(d, ast.Call) and (dotted(d.func) or "").endswith("logger.catch"):
                res.count("logging_wrappers")
                if not _reraise(prog, f.module, d):
                    res.add(f"{f.qual}|logger.catch", f"{f.qual}: the logging wrapper does not re-raise (logger.catch without reraise=True): every failure becomes a None result", f.loc(f.node))
            elif (dotted(d) or "").endswith("logger.catch"):
                res.add(f"{f.qual}|logger.catch", f"{f.qual}: bare logger.catch swallows every exception", f.loc(f.node))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else dotted(n.func)
                ev = next((k.value for k in n.keywords if k.arg == "errors"), None)
                if ev is None and fn in ("encode", "decode") and len(n.args) > 1:
                    ev = n.args[1]
                if fn in ("open", "encode", "decode", "read_text", "TextIOWrapper", "str", "bytes", "run", "Popen", "check_output") and isinstance(ev, ast.Constant) and ev.value not in (None, "strict", "surrogateescape"):
                    res.add(f"{f.qual}|errors={ev.value}", f"{f.qual}: {fn}() drops what it cannot decode (errors={ev.value!r})", f.loc(n), alts=[f"{c.qual}|errors={ev.value}" for c in users(prog, f)])
            if isinstance(n, ast.With):
                for it in n.items:
                    c = it.context_expr
                    d = dotted(c.func) if isinstance(c, ast.Call) else None
                    if d and (d.split(".")[-1] == "suppress" or d.endswith("logger.catch") and not _reraise(prog, f.module, c)):
                        res.add(f"{f.qual}|with {d}", f"{f.qual}: `with {d}(...)` discards exceptions", f.loc(n))
        for b in blocks(f.node):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) in ("logger.error", "logger.critical", "logger.exception"):
                    res.count("logged_errors")
                    if completes(b[i + 1:], nr, f):
                        own = {k for k in LOG_ALLOWED if f.qual.endswith("." + k) or f.qual == k or f.name == k}
                        if own or owner_names(prog, f, set(LOG_ALLOWED)):
                            continue
                        # the handler itself is judged above
                        if any(s in ast.walk(h) for g, t, h, sw in handlers_of(prog, f) if h is not None):
                            continue
                        # an error helper that only logs: its callers raise
                        if f.name.startswith("_") and len(strip_doc(f.node.body)) == 1:
                            continue
                        res.add(f"{f.qual}|logged only", f"{f.qual}: an error is logged ({ast.unparse(s)[:60]}) but the operation goes on without raising", f.loc(s),
                                alts=[f"{c.qual}|logged only" for c in users(prog, f)])
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    if set(exc_names(h)) <= {"ImportError", "ModuleNotFoundError"}:
                        continue
                    res.add(f"{m.name}|module try", f"{m.name}: a failure at import is discarded", f"{m.rel}:{h.lineno}")


_HS = {}


def handlers_of(prog, f):
    if id(prog) not in _HS:
        _HS.clear()
        _HS[id(prog)] = list(handlers(prog))
    return [x for x in _HS[id(prog)] if x[0] is f]


def _reraise(prog, m, call):
    for k in call.keywords:
        if k.arg == "reraise":
            try:
                return prog.const(m, k.value) is True
            except Exception:
                return isinstance(k.value, ast.Constant) and k.value.value is True
    return False


def run(ctx):
    res = Result("Every exception handler, logging wrapper and logged error of the package: a handler whose end is reachable (no raise on some continuation) must be one of the documented "
                 "failure-to-value conversions; every logger.catch re-raises; after an error is logged every continuation raises.")
    check(ctx.prog, res)
    res.floor("handlers", 60)
    res.floor("logging_wrappers", 700)
    res.floor("logged_errors", 150)
    return res


def selftest():
    src = """
from loguru import logger
import contextlib
class K:
    @logger.catch
    def a(self): pass
    @logger.catch(reraise=True)
    def b(self, d):
        try:
            self.c(d)
        except Exception as e:
            logger.error(e)
    def c(self, d):
        try:
            return d["x"]
        except KeyError:
            return None
    def d(self, d):
        try:
            self.b(d)
        except ValueError as e:
            raise TypeError from e
    def e(self, d):
        if not d:
            logger.error("bad")
        return d
    def f(self, d):
        with contextlib.suppress(OSError):
            self.b(d)
    def g(self, d):
        try:
            self.b(d)
        finally:
            return 1
"""
    r = Result("x")
    check(Program.from_source(src), r)
    got = sorted(f.key for f in r.findings)
    want = ["K.a|logger.catch", "K.b|swallows Exception", "K.e|logged only", "K.f|with contextlib.suppress", "K.g|finally"]
    if got != want:
        raise AnalysisBroken(f"C15 self-example not decided: {got}")


def signature(t, h):
    return ("|".join(exc_names(h)), ",".join(sorted(calls_in(t.body))))


if __name__ == "__main__":
    p = Program()
    for f, t, h, sw in handlers(p):
        if sw and not (h is not None and (is_lookup_idiom(t, h) or runs_off_end(f, t, h))):
            print(f.qual, h.lineno if h else "finally", signature(t, h) if h else "")
