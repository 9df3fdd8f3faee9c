"""C23: every built-in pattern compiles and every group read from a match exists."""
import ast
import re

from ..report import Result
from ..srcmodel import Program, AnalysisBroken
from ..patterns import Sites, MatchFlow, HOLE, owner, where
from .. import rx
from .c15 import users

GROUP_METHODS = {"re_match": "", "re_match_typed": "", "re_match_iter_typed": "", "re_list_iter_typed": ""}


def sites_of(ctx):
    if not hasattr(ctx, "_sites"):
        ctx._sites = Sites(ctx.prog)
    return ctx._sites


def info(t):
    """(number of groups, names, whether an unknown part may add groups) of a pattern text, or None"""
    try:
        n, names = rx.groups(t.filled(), t.flags)
        return n, names, HOLE in t.s
    except Exception:
        return None


def missing(g, inf, dictlike=False):
    n, names, more = inf
    if more:
        return isinstance(g, int) and not isinstance(g, bool) and (dictlike or g < 0)
    if isinstance(g, str):
        return g not in names
    if isinstance(g, int) and not isinstance(g, bool):
        return dictlike or g > n or g < 0
    return False


def param_node(prog, call, kind, pname):
    """('given', node) | ('default', node) | None for a parameter of the called package function"""
    g = prog.funcs.get(kind)
    if g is None:
        return None
    for k in call.keywords:
        if k.arg == pname:
            return ("given", k.value)
        if k.arg is None:
            return None
    ps = list(g.params)
    if g.kind in ("method", "classmethod"):
        ps = ps[1:]
    if pname in ps and ps.index(pname) < len(call.args):
        if any(isinstance(a, ast.Starred) for a in call.args[:ps.index(pname) + 1]):
            return None
        return ("given", call.args[ps.index(pname)])
    if pname in g.defaults:
        return ("default", g.defaults[pname])
    return None


def dict_node(sites, f, node):
    """the dict display a groupdict argument denotes"""
    if isinstance(node, ast.Dict):
        return node
    if isinstance(node, ast.Name) and f is not None:
        vals = sites.res.local_values(f).get(node.id, [])
        if len(vals) == 1 and isinstance(vals[0], ast.Dict):
            return vals[0]
    return None


def refs_of(template):
    out = []
    for m in re.finditer(r"\\(\d{1,2})|\\g<([^>]+)>", template):
        g = m.group(1) or m.group(2)
        out.append(int(g) if g.isdigit() else g)
    return out


def check(prog, sites, res):
    seen = set()
    for f, m, n, kind, e, texts in sites.sites:
        res.count("pattern_positions")
        ow = owner(f, m)
        alts = [u.qual for u in users(prog, f)] if f is not None else []
        for t in sorted(texts, key=repr):
            if t is None:
                continue
            if (ow, t) not in seen:
                seen.add((ow, t))
                res.count("patterns")
            err = rx.compile_error(t.filled(), t.flags)
            if err and not t.exact:
                # the run-time part may be any text: only the constant part can be judged
                err = err if all(rx.compile_error(t.filled(r), t.flags) for r in ("x", "(x)", "[x]", "1", "x|y", "")) else None
            if err:
                res.add(f"{ow}|compile|{t.s}", f"{ow}: the pattern {t.s!r} does not compile: {err}", where(f, m, n), alts=[f"{a}|compile|{t.s}" for a in alts])
                continue
            inf = info(t)
            g = prog.funcs.get(kind)
            if inf is None or g is None:
                continue
            if "group" in g.params:
                gd = param_node(prog, n, kind, "groupdict") if "groupdict" in g.all_params else None
                if gd is not None and gd[0] == "given" and not (isinstance(gd[1], ast.Constant) and gd[1].value is None):
                    d = dict_node(sites, f, gd[1])
                    for k in (d.keys if d is not None else []):
                        if isinstance(k, ast.Constant):
                            res.count("group_uses")
                            if missing(k.value, inf, True):
                                res.add(f"{ow}|groupdict|{k.value}", f"{ow}: the key {k.value!r} of groupdict is not a group of {t.s!r}", where(f, m, n), alts=[f"{a}|groupdict|{k.value}" for a in alts])
                else:
                    gr = param_node(prog, n, kind, "group")
                    if gr is not None and isinstance(gr[1], ast.Constant):
                        res.count("group_uses")
                        if missing(gr[1].value, inf):
                            res.add(f"{ow}|group|{gr[1].value}|{t.s}", f"{ow}: group {gr[1].value!r} is read, but {t.s!r} has {inf[0]} group(s)", where(f, m, n), alts=[f"{a}|group|{gr[1].value}|{t.s}" for a in alts])
    for f in prog.funcs.values():
        M = MatchFlow(prog, sites, f)
        alts = [u.qual for u in users(prog, f)]
        for kind, n, ts, g, strict in M.uses:
            if kind == "typedkey":
                res.count("group_uses")
                res.add(f"{f.qual}|typedkey|{g}", f"{f.qual}: {g!r} is read from a typed group dictionary that was not asked for it", f.loc(n))
                continue
            for t in ts:
                inf = info(t) if t is not None else None
                if inf is None:
                    continue
                res.count("group_uses")
                if kind == "group" and missing(g, inf) or kind == "dictkey" and missing(g, inf, True):
                    res.add(f"{f.qual}|{kind}|{g}|{t.s[:60]}", f"{f.qual}: group {g!r} does not exist in {t.s!r}", f.loc(n), alts=[f"{a}|{kind}|{g}|{t.s[:60]}" for a in alts])
                elif kind == "unpack" and (g < inf[0] if inf[2] else g != inf[0]):
                    res.add(f"{f.qual}|unpack|{g}", f"{f.qual}: {g} names are unpacked from the {inf[0]} groups of {t.s!r}", f.loc(n))
                elif kind == "sub":
                    for r in refs_of(g):
                        if missing(r, inf):
                            res.add(f"{f.qual}|sub|{r}", f"{f.qual}: the replacement refers to group {r!r}, which {t.s!r} does not have", f.loc(n))
                    bad = [c for c in g if ord(c) < 9]
                    if bad:
                        res.add(f"{f.qual}|sub|control", f"{f.qual}: the replacement text is the control character {bad[0]!r} (a group reference in a non-raw string)", f.loc(n))


def run(ctx):
    res = Result("Every pattern text that reaches the re module (constants, templates with unknown parts, class and module constants, parameters through call chains) is parsed with the library's own regex parser; "
                 "every group number or name read from a match, a group dictionary, a typed matcher or a replacement template is looked up in the group table of every pattern that can reach it.")
    check(ctx.prog, sites_of(ctx), res)
    res.floor("patterns", 100)
    res.floor("group_uses", 80)
    return res


def selftest():
    src = """import re
R = re.compile(r"^(a)(?P<n>b)$")
class L:
    def m(self, regex, group=1, groupdict=None):
        mm = re.search(regex, self.text)
        return mm.group(group)
    def a(self):
        return self.m(r"^x(y)$")
    def b(self):
        mm = R.search("q")
        return mm.group(2), mm.groupdict()["n"]
"""
    bad = [(src.replace('^x(y)$', '^xy$'), 1), (src.replace("group(2)", "group(3)"), 1), (src.replace('["n"]', '["z"]'), 1), (src.replace("^x(y)$", "^x(y$"), 1), (src, 0)]
    for s, n in bad:
        p = Program.from_source(s)
        r = Result("x")
        check(p, Sites(p), r)
        if len(r.findings) != n:
            raise AnalysisBroken(f"C23 self-example not decided: {[f.key for f in r.findings]}")
