"""C26: yes/no accessors return booleans, no accessor falls off its end, text and numbers are not mixed.

Flow-sensitive return-type inference (sa/rtypes.py) of every property, and of
every is_*/has_* method, of the line models; attributes that only ever hold a few
constants (the address family of a route line) make if/elif chains exhaustive.
"""
import ast

from ..report import Result
from ..srcmodel import AnalysisBroken, Program
from ..rtypes import RT, N

NUM, TEXT = {"int", "float"}, {"str"}


def subjects(prog):
    for q, f in sorted(prog.funcs.items()):
        if f.cls is None or f.is_abstract or f.outer is not None:
            continue
        if not (f.module.name.startswith("models_") or f.module.name in ("ccp_abc", "ciscoconfparse")):
            continue
        if f.kind == "property" or f.kind in ("method", "classmethod", "staticmethod") and f.name.startswith(("is_", "has_")):
            yield f


def judge(prog, res, funcs):
    rt = RT(prog)
    for f in funcs:
        rt.ret(f)
        rets = rt.detail.get(f.qual, [])
        known = [(t, n) for t, n in rets if t is not None]
        res.count("accessors")
        res.count("returns", len(rets))
        if f.name.startswith(("is_", "has_")):
            res.count("yes/no accessors")
            for t, n in known:
                bad = t - {"bool"}
                if bad:
                    res.add(f"{f.qual}|not a boolean", f"{f.qual} is named as a yes/no question but returns {', '.join(sorted(bad))}", f.loc(n), [ast.unparse(n)[:120]])
            if len(known) < len(rets):
                res.undec(f"{f.qual}: the type of {len(rets) - len(known)} of {len(rets)} returned values is not resolved")
            else:
                res.count("yes/no accessors with every returned type resolved")
        if rt.falls.get(f.qual):
            vals = [n for t, n in rets if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) and t != {N}]
            none = any(t is not None and N in t for t, n in rets)      # None is this accessor's stated absent value
            if vals and not none or f.name.startswith(("is_", "has_")):
                res.add(f"{f.qual}|falls off its end", f"{f.qual} returns a value on some paths and nothing on the path that reaches the end of its body", f.loc(), [f"{f.file}:{n.lineno}: {ast.unparse(n)[:80]}" for n in vals[:3]])
        num = [(t, n) for t, n in known if t & NUM and not t & TEXT]
        txt = [(t, n) for t, n in known if t & TEXT and not t & NUM]
        mixed = [(t, n) for t, n in known if t & NUM and t & TEXT]
        if num and txt or mixed:
            w = (txt or mixed)[0][1]
            res.add(f"{f.qual}|number and text", f"{f.qual} returns a number on one path and text on another", f.loc(w), [f"{f.file}:{n.lineno}: {ast.unparse(n)[:80]} : {sorted(t)}" for t, n in (num + txt + mixed)[:4]])
    return rt


GOOD = """
class M:
    def __init__(self, t):
        if t:
            self._af = "ip"
        else:
            self._af = "ipv6"
    @property
    def has_a(self):
        for c in self.children:
            if c.text == "x":
                return True
        return False
    @property
    def n(self):
        if self._af == "ip":
            return 1
        elif self._af == "ipv6":
            return 2
"""
BAD = """
class M:
    @property
    def has_a(self):
        for c in self.children:
            if c.text == "x":
                return True
    @property
    def is_b(self):
        return self.text and self.text.strip()
    @property
    def n(self):
        if self.text:
            return 1
        return ""
"""


def selftest():
    for src, n in ((GOOD, 0), (BAD, 3)):
        p = Program.from_source(src, "models_x")
        r = Result("x")
        judge(p, r, list(subjects(p)))
        if len(r.findings) != n:
            raise AnalysisBroken(f"C26 self-test: {n} findings expected, {[f.key for f in r.findings]}")


def run(ctx):
    res = Result("flow-sensitive return-type inference of the line-model accessors")
    judge(ctx.prog, res, list(subjects(ctx.prog)))
    res.floor("accessors", 300)
    res.floor("yes/no accessors", 60)
    res.floor("yes/no accessors with every returned type resolved", 40)
    return res
