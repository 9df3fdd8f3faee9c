"""C43: every test of configuration text can succeed, and what it guards can be read.

Shape analysis of text: how many words a slice can hold, whether a text can contain
blanks, capitals or outer blanks after the operations that produced it. A comparison
with fixed text outside that shape never holds.
"""
import ast
import re

from ..patterns import owner, where
from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from .c13 import full_name
from .c23 import sites_of

ANY = ("str", frozenset(), None)


def text(props=(), width=None):
    return ("str", frozenset(props), width)


def join(a, b):
    """the shape covering both"""
    if a is None or b is None or a[0] != b[0]:
        return None
    if a[0] == "str":
        return ("str", a[1] & b[1], None if a[2] is None or b[2] is None else max(a[2], b[2]))
    if a[3] != b[3]:
        return None
    el = join(a[1], b[1])
    return None if el is None else ("words", el, None if a[2] is None or b[2] is None else max(a[2], b[2]), a[3])


def num(e):
    if isinstance(e, ast.Constant) and type(e.value) is int:
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and type(e.operand.value) is int:
        return -e.operand.value
    return None


def slice_width(sl):
    """the most elements a slice can hold, when known"""
    if not isinstance(sl, ast.Slice) or sl.step is not None and num(sl.step) != 1:
        return None
    a, b = 0 if sl.lower is None else num(sl.lower), None if sl.upper is None else num(sl.upper)
    if a is None or sl.upper is not None and b is None:
        return None
    if b is None:
        return -a if a < 0 else None
    return max(0, b - a) if (a < 0) == (b < 0) else None


class Shapes:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.b = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value, n)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value, n)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                self.bind(n.target, ("each", n.iter), n)
            elif isinstance(n, ast.AugAssign):
                self.bind(n.target, None, n)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, None, n)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.b.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f.node:
                for a in (n.args.args + n.args.kwonlyargs + n.args.posonlyargs) if not isinstance(n, ast.ClassDef) else []:
                    self.b.setdefault(a.arg, []).append(None)
                if not isinstance(n, ast.Lambda):
                    self.b.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    self.b.setdefault(x, []).append(None)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.b.setdefault(n.name, []).append(None)
        self.params = set(f.all_params)

    def bind(self, t, v, n):
        if isinstance(t, ast.Name):
            self.b.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                s = e.value if isinstance(e, ast.Starred) else e
                pair = isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(v.elts) + t.elts)
                self.bind(s, v.elts[i] if pair else ("part", v) if isinstance(e, ast.Name) and isinstance(v, ast.AST) else None, n)

    def of(self, e, seen=()):
        if isinstance(e, tuple):
            w = self.of(e[1], seen)
            return w[1] if w is not None and w[0] == "words" else None
        if isinstance(e, ast.Name):
            if e.id in self.params or e.id not in self.b or e.id in seen:
                return None
            out = None
            for i, v in enumerate(self.b[e.id]):
                s = self.of(v, seen + (e.id,)) if v is not None else None
                if s is None:
                    return None
                out = s if i == 0 else join(out, s)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value, seen)
        if isinstance(e, ast.IfExp):
            return join(self.of(e.body, seen), self.of(e.orelse, seen))
        if isinstance(e, ast.Subscript):
            b = self.of(e.value, seen)
            if b is None:
                return None
            if isinstance(e.slice, ast.Slice):
                w = slice_width(e.slice)
                if w is not None and b[2] is not None:
                    w = min(w, b[2])
                elif w is None:
                    w = b[2]
                if b[0] == "words":
                    return ("words", b[1], w, b[3])
                return ("str", b[1] & {"lower", "upper", "noblank"}, w)
            if b[0] == "words":
                return b[1] if num(e.slice) is not None else None
            return ("str", b[1] & {"lower", "upper", "noblank"}, 1) if num(e.slice) is not None else None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and len(e.args) == 1 and not e.keywords and fn.id in ("list", "tuple") and fn.id not in self.b:
                b = self.of(e.args[0], seen)
                return ("words", b[1], b[2], fn.id) if b is not None and b[0] == "words" else None
            if isinstance(fn, ast.Attribute):
                if full_name(self.prog, self.f.module, self.f, dotted(fn) or "?") == "re.split":
                    pat = e.args[0] if e.args else None
                    blank = isinstance(pat, ast.Constant) and pat.value in (r"\s+", r"\s", r"\s*")
                    return ("words", text({"noblank"} if blank and len(e.args) == 2 and not e.keywords else ()), None, "list")
                if fn.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "split", "rsplit", "splitlines"):
                    b = self.of(fn.value, seen)
                    if b is None:
                        b = ANY
                    if b[0] != "str":
                        return None
                    p = b[1]
                    if fn.attr in ("strip", "lstrip", "rstrip"):
                        if e.args or e.keywords:
                            return ("str", p & {"lower", "upper", "noblank"}, b[2])
                        return ("str", p | {"strip": {"l", "r"}, "lstrip": {"l"}, "rstrip": {"r"}}[fn.attr], b[2])
                    if fn.attr in ("lower", "casefold"):
                        return ("str", p - {"upper"} | {"lower"}, None)
                    if fn.attr == "upper":
                        return ("str", p - {"lower"} | {"upper"}, None)
                    case = p & {"lower", "upper", "noblank"}
                    if fn.attr == "splitlines":
                        return ("words", text(case), None, "list")
                    if not e.args and not e.keywords:
                        return ("words", text(case | {"noblank", "some", "l", "r"}), None, "list")
                    n = num(e.args[1]) if len(e.args) > 1 else next((num(k.value) for k in e.keywords if k.arg == "maxsplit"), None)
                    return ("words", text(case), n + 1 if n is not None and n >= 0 else None, "list")
            return None
        return None


def lit(prog, m, e):
    """the fixed text of an expression"""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    if isinstance(e, (ast.Name, ast.Attribute)):
        return None
    try:
        v = prog.const(m, e)
        return v if isinstance(v, str) else None
    except ValueError:
        return None


def never(shape, s, part=None):
    """why a text of the shape is never `s` (part: never starts with, ends with or contains it)"""
    _, p, w = shape
    if w is not None and len(s) > w:
        return f"{len(s)} characters, but at most {w} are compared"
    if "lower" in p and s != s.lower():
        return "capitals, but the text was made lower case"
    if "upper" in p and s != s.upper():
        return "lower-case letters, but the text was made upper case"
    if "noblank" in p and re.search(r"\s", s):
        return "a blank, but the text has none"
    if "l" in p and part in (None, "start") and s[:1].isspace():
        return "a leading blank, but the text has none"
    if "r" in p and part in (None, "end") and s[-1:].isspace():
        return "a trailing blank, but the text has none"
    if part is None:
        if "some" in p and s == "":
            return "no characters, but a word has some"
        if w is not None and len(s) < w and s[-1:].isspace():
            return f"{len(s)} characters ending in a blank, but {w} are compared"
    return None


class Check:
    def __init__(self, prog, f, res):
        self.prog, self.f, self.res = prog, f, res
        self.S = Shapes(prog, f)

    def bad(self, n, key, msg):
        self.res.add(f"{self.f.qual}|{key}", f"{self.f.qual}: {msg}", self.f.loc(n))

    def eq(self, a, b, n):
        """a == b where b is fixed; -> a reason when it never holds"""
        sh = self.S.of(a)
        if sh is None and isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
            # a piece of something unknown: the fixed side tells what it is a piece of
            w = slice_width(a.slice)
            if lit(self.prog, self.f.module, b) is not None:
                sh = ("str", frozenset(), w)
            elif isinstance(b, (ast.List, ast.Tuple)):
                sh = ("words", ANY, w, type(b).__name__.lower())
        if sh is None:
            return None
        if sh[0] == "str":
            s = lit(self.prog, self.f.module, b)
            if s is not None:
                self.res.count("text_tests")
                why = never(sh, s)
                return f"{s!r} has {why}" if why else None
            if isinstance(b, (ast.List, ast.Tuple)):
                return f"a text is compared with the {type(b).__name__.lower()} {ast.unparse(b)}"
            return None
        if isinstance(b, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in b.elts):
            self.res.count("word_tests")
            if {"list": ast.List, "tuple": ast.Tuple}[sh[3]] is not type(b):
                return f"a {sh[3]} is compared with a {type(b).__name__.lower()}"
            if sh[2] is not None and len(b.elts) > sh[2]:
                return f"{len(b.elts)} words are compared with at most {sh[2]}"
            for x in b.elts:
                s = lit(self.prog, self.f.module, x)
                why = never(sh[1], s) if s is not None and sh[1][0] == "str" else None
                if why:
                    return f"{s!r} has {why}"
        elif isinstance(b, ast.Constant) and isinstance(b.value, str):
            return f"a {sh[3]} of words is compared with the text {b.value!r}"
        return None

    def compare(self, n):
        if len(n.ops) != 1:
            return
        a, op, b = n.left, n.ops[0], n.comparators[0]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            why = self.eq(a, b, n) or self.eq(b, a, n)
            if why:
                self.bad(n, f"never|{ast.unparse(n)}", f"`{ast.unparse(n)}` is decided whatever the line: {why}")
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            sh = self.S.of(b)
            s = lit(self.prog, self.f.module, a)
            if sh is not None and s is not None:
                self.res.count("text_tests")
                why = never(sh, s, "in") if sh[0] == "str" else (never(sh[1], s) if sh[1][0] == "str" else None)
                if why:
                    self.bad(n, f"never|{ast.unparse(n)}", f"`{ast.unparse(n)}` is decided whatever the line: {s!r} has {why}")
            elif isinstance(b, (ast.List, ast.Tuple, ast.Set)) and b.elts:
                whys = [self.eq(a, x, n) for x in b.elts]
                if all(whys):
                    self.bad(n, f"never|{ast.unparse(n)}", f"`{ast.unparse(n)}` is decided whatever the line: {whys[0]}")

    def call(self, n):
        fn = n.func
        if not isinstance(fn, ast.Attribute) or not n.args:
            return
        if fn.attr in ("startswith", "endswith"):
            sh = self.S.of(fn.value)
            c = n.args[0]
            cs = c.elts if isinstance(c, ast.Tuple) else [c]
            ss = [lit(self.prog, self.f.module, x) for x in cs]
            if sh is None or sh[0] != "str" or not ss or None in ss:
                return
            self.res.count("text_tests")
            whys = [never(sh, s, "start" if fn.attr == "startswith" else "end") for s in ss]
            if all(whys):
                self.bad(n, f"never|{ast.unparse(n)}", f"`{ast.unparse(n)}` is decided whatever the line: {ss[0]!r} has {whys[0]}")
        elif fn.attr in ("split", "rsplit", "partition", "rpartition"):
            d = dotted(fn)
            if d and full_name(self.prog, self.f.module, self.f, d) in ("re.split",):
                return
            s = lit(self.prog, self.f.module, n.args[0])
            if s is not None:
                self.res.count("separators")
                if re.search(r"\\[sSdDwWbB]", s):
                    self.bad(n, f"separator|{s}", f"{ast.unparse(n)[:80]} separates the text at the characters {s!r}, which are a pattern and not a text")

    # what a successful test says about the number of words and their text
    def facts(self, t):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            out = []
            for v in t.values:
                out += self.facts(v)
            return out
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq)):
            return []
        out = []
        for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and isinstance(a.args[0], ast.Name) and num(b) is not None:
                sh = self.S.of(a.args[0])
                if sh is not None and sh[0] == "words":
                    out.append((a.args[0].id, num(b), {}, t))
            if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and isinstance(a.slice, ast.Slice) and isinstance(b, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in b.elts):
                lo = 0 if a.slice.lower is None else num(a.slice.lower)
                w = slice_width(a.slice)
                sh = self.S.of(a.value)
                if sh is not None and sh[0] == "words" and lo is not None and lo >= 0 and w is not None:
                    n = lo + len(b.elts) if len(b.elts) < w else None
                    out.append((a.value.id, n, {lo + i: x.value for i, x in enumerate(b.elts) if isinstance(x, ast.Constant)}, t))
        return out

    def guarded(self, t, body):
        for name, n, known, test in self.facts(t):
            if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for s in body for x in ast.walk(s)):
                continue
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name and isinstance(x.ctx, ast.Load) and num(x.slice) is not None:
                        k = num(x.slice)
                        self.res.count("guarded_reads")
                        if n is not None and not -n <= k < n:
                            self.bad(x, f"beyond|{name}[{k}]", f"`{ast.unparse(test)}` holds only for {n} word(s), so {name}[{k}] does not exist")
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("int", "float") and x.args and isinstance(x.args[0], ast.Subscript) \
                            and isinstance(x.args[0].value, ast.Name) and x.args[0].value.id == name and num(x.args[0].slice) in known:
                        v = known[num(x.args[0].slice)]
                        try:
                            int(v)
                        except (ValueError, TypeError):
                            self.bad(x, f"keyword|{v}", f"{ast.unparse(x)} converts the keyword {v!r} that `{ast.unparse(test)}` found there")

    def run(self):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Compare):
                self.compare(n)
            elif isinstance(n, ast.Call):
                self.call(n)
            elif isinstance(n, ast.If):
                self.guarded(n.test, n.body)
            elif isinstance(n, ast.IfExp):
                self.guarded(n.test, [n.body])


FIELD = re.compile(r"(?<!\\)\{[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_]\w*|\[[^\]]*\])*\}")


def unfilled(t):
    """a replacement field nothing filled in"""
    m = FIELD.search(re.sub(r"\\.", "..", t.s))
    return m.group(0) if m else None


def check(prog, sites, res):
    for f in prog.funcs.values():
        if f.outer is None:
            Check(prog, f, res).run()
    seen = set()
    for f, m, n, kind, e, texts in sites.sites:
        for t in texts:
            if t is None or (owner(f, m), t) in seen:
                continue
            seen.add((owner(f, m), t))
            res.count("patterns")
            field = unfilled(t)
            if field:
                res.add(f"{owner(f, m)}|unfilled|{field}", f"{owner(f, m)}: the pattern {t.s!r} looks for the characters {field!r}: nothing fills the field in", where(f, m, n))


def run(ctx):
    res = Result("Shape analysis of text (most words or characters a slice holds, case, blanks, sequence kind) through every function; each comparison with fixed text or word lists must be satisfiable for the shape, "
                 "reads guarded by such a test must exist and not be the keyword itself, separators must be texts, and patterns must have no unfilled replacement field.")
    check(ctx.prog, sites_of(ctx), res)
    res.floor("text_tests", 20)
    res.floor("word_tests", 10)
    res.floor("separators", 10)
    res.floor("patterns", 100)
    res.assumptions += ["lower() and upper() change a text with letters of the other case", "text operations are called on texts"]
    return res


def selftest():
    from ..patterns import Sites
    src = """import re
class L:
    def m(self, line, name):
        parts = line.lower().split()
        if parts[0:2] == ["ip", "address"]:
            return parts[2]
        if len(parts) == 3 and parts[1] == "x":
            return int(parts[2])
        if line[0:3] == "ip " or line.strip().startswith("ip"):
            return re.search(rf"^{name}\\\\s(\\\\d+)$", line).group(1)
        return line.split(",")
"""
    ok = [src]
    bad = [src.replace("[0:2]", "[0:1]"), src.replace('"address"]', '"Address"]'), src.replace('["ip", "address"]', '("ip", "address")'), src.replace("int(parts[2])", "int(parts[1])").replace("parts[1] ==", 'parts[0:2] == ["a", "x"] and parts[1] =='),
           src.replace("parts[2])", "parts[3])"), src.replace('[0:3] == "ip "', '[0:2] == "ip "'), src.replace('startswith("ip")', 'startswith(" ip")'), src.replace('rf"', 'r"'), src.replace('split(",")', 'split(r"\\\\s")'), src.replace('"x"', '"x y"')]
    for i, (s, n) in enumerate([(s, 0) for s in ok] + [(s, 1) for s in bad]):
        p = Program.from_source(s)
        r = Result("x")
        check(p, Sites(p), r)
        if (len(r.findings) > 0) != (n > 0):
            raise AnalysisBroken(f"C43 self-example {i} not decided: {[f.key for f in r.findings]}")
