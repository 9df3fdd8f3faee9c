"""C24: every text a converted capture can match is convertible."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from ..patterns import Sites, MatchFlow, HOLE, owner, where
from .. import rx
from .c15 import users
from .c23 import sites_of, param_node, dict_node, info, missing

INT = r"\s*[+-]?\d+(?:_\d+)*\s*"
FLOAT = r"\s*[+-]?(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+(?:_\d+)*)(?:[eE][+-]?\d+(?:_\d+)*)?\s*"
LANG = {"int": INT, "float": FLOAT}


def lang_ok(t, gid, ty):
    """None, or a shortest text of the group the type rejects"""
    if isinstance(gid, str):
        gid = info(t)[1][gid]
    tree = rx.parse(t.s, t.flags)
    al = rx.alphabet_for(tree)
    n = rx.group_nfa(t.s, t.flags, gid, al)
    if gid == 0:
        # text before the first and after the last anchor is not bounded: only anchored whole matches are exact
        pass
    return rx.included(n, rx.whole_nfa(LANG[ty], 0, al))


def optional(t, gid):
    if isinstance(gid, str):
        gid = info(t)[1][gid]
    return not rx.always_participates(rx.parse(t.s, t.flags), gid)


def none_safe(prog, qual):
    """does this typed matcher test that a group participated before it converts it?"""
    g = prog.funcs.get(qual)
    if g is None or "result_type" not in g.all_params:
        return None
    ok = True
    seen = 0

    def walk(node, guards):
        nonlocal ok, seen
        for ch in ast.iter_child_nodes(node):
            g2 = guards
            if isinstance(node, (ast.If, ast.IfExp)):
                branch = node.body if isinstance(node.body, list) else [node.body]
                if ch in branch:
                    g2 = guards + [ast.unparse(node.test)]
            if isinstance(ch, ast.Call) and isinstance(ch.func, ast.Name) and ch.func.id == "result_type" and ch.args:
                a = ch.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "group" or isinstance(a, ast.Name) and a.id not in g.all_params:
                    seen += 1
                    txt = ast.unparse(a)
                    if not any(txt in x for x in g2):
                        ok = False
            walk(ch, g2)
    walk(g.node, [])
    return ok if seen else None


def type_name(node):
    d = dotted(node) if node is not None else None
    return d if d in ("int", "float", "str", "bool") else None


def in_try(f, node):
    """inside a try that handles ValueError"""
    hit = [False]

    def walk(x, inside):
        if x is node:
            hit[0] = inside
            return
        if isinstance(x, ast.Try):
            catches = any(h.type is None or "ValueError" in ast.unparse(h.type) or ast.unparse(h.type) in ("Exception", "BaseException") for h in x.handlers)
            for s in x.body:
                walk(s, inside or catches)
            for fld in (x.orelse, x.finalbody):
                for s in fld:
                    walk(s, inside)
            for h in x.handlers:
                walk(h, inside)
            return
        for ch in ast.iter_child_nodes(x):
            walk(ch, inside)
    walk(f.node, False)
    return hit[0]


def check(prog, sites, res):
    safe = {}
    for f, m, n, kind, e, texts in sites.sites:
        g = prog.funcs.get(kind)
        if g is None or "result_type" not in g.all_params:
            continue
        ow = owner(f, m)
        alts = [u.qual for u in users(prog, f)] if f is not None else []
        rt = param_node(prog, n, kind, "result_type")
        ty = type_name(rt[1]) if rt else None
        gd = param_node(prog, n, kind, "groupdict") if "groupdict" in g.all_params else None
        pairs = []          # (group, type)
        use_dict = gd is not None and gd[0] == "given" and not (isinstance(gd[1], ast.Constant) and gd[1].value is None)
        dflt = param_node(prog, n, kind, "default")
        if use_dict:
            d = dict_node(sites, f, gd[1])
            for k, v in (zip(d.keys, d.values) if d is not None else []):
                if isinstance(k, ast.Constant):
                    pairs.append((k.value, type_name(v)))
        else:
            gr = param_node(prog, n, kind, "group")
            if gr is not None and isinstance(gr[1], ast.Constant):
                pairs.append((gr[1].value, ty))
            # the default is converted too, unless the caller asked for it as it is
            unt = param_node(prog, n, kind, "untyped_default")
            if ty in LANG and dflt is not None and isinstance(dflt[1], ast.Constant) and unt is not None and isinstance(unt[1], ast.Constant) and not unt[1].value:
                res.count("defaults")
                v = dflt[1].value
                try:
                    {"int": int, "float": float}[ty](v)
                except (ValueError, TypeError):
                    res.add(f"{ow}|default|{v!r}", f"{ow}: a line that does not match makes {ty}({v!r}) fail", where(f, m, n), alts=[f"{a}|default|{v!r}" for a in alts])
        if kind not in safe:
            safe[kind] = none_safe(prog, kind)
        for t in sorted((t for t in texts if t is not None), key=repr):
            inf = info(t)
            if inf is None:
                continue
            for gid, gty in pairs:
                if missing(gid, inf, use_dict):
                    continue
                if gty in LANG:
                    res.count("converted_captures")
                    try:
                        w = lang_ok(t, gid, gty) if t.exact else None
                        if not t.exact:
                            res.undec(f"{ow}: {t.s!r} has run-time parts")
                    except rx.Unsupported as x:
                        res.undec(f"{ow}: {t.s!r}: {x}")
                        w = None
                    if w is not None:
                        res.add(f"{ow}|{gid}|{gty}", f"{ow}: group {gid!r} of {t.s!r} can be {w!r}, which {gty}() rejects", where(f, m, n), alts=[f"{a}|{gid}|{gty}" for a in alts])
                if gty in ("int", "float", "str") and optional(t, gid):
                    if use_dict:
                        # an absent group is None: converted unless the default is None
                        if gty != "str" and not (dflt is not None and isinstance(dflt[1], ast.Constant) and dflt[1].value is None):
                            res.add(f"{ow}|{gid}|optional", f"{ow}: group {gid!r} of {t.s!r} can be missing from a match, and {gty}(None) is then computed", where(f, m, n), alts=[f"{a}|{gid}|optional" for a in alts])
                    elif safe[kind] is False:
                        res.add(f"{ow}|{gid}|optional", f"{ow}: group {gid!r} of {t.s!r} can be missing from a match, and {kind} converts it untested ({gty}(None))", where(f, m, n), alts=[f"{a}|{gid}|optional" for a in alts])
    for f in prog.funcs.values():
        M = MatchFlow(prog, sites, f)
        alts = [u.qual for u in users(prog, f)]
        for n, ty, ts, gid, guarded in M.convs:
            if in_try(f, n):
                continue
            for t in ts:
                inf = info(t) if t is not None else None
                if inf is None or missing(gid, inf) or not t.exact:
                    continue
                res.count("converted_captures")
                try:
                    w = lang_ok(t, gid, ty)
                except rx.Unsupported as x:
                    res.undec(f"{f.qual}: {t.s!r}: {x}")
                    continue
                if w is not None:
                    if guarded:
                        res.undec(f"{f.qual}: {ty}() of group {gid!r} under a test that may exclude {w!r}")
                    else:
                        res.add(f"{f.qual}|{gid}|{ty}", f"{f.qual}: group {gid!r} of {t.s[:80]!r} can be {w!r}, which {ty}() rejects", f.loc(n), alts=[f"{a}|{gid}|{ty}" for a in alts])
                elif optional(t, gid) and not guarded:
                    res.add(f"{f.qual}|{gid}|optional", f"{f.qual}: group {gid!r} of {t.s[:80]!r} can be missing from a match, and {ty}(None) is then computed", f.loc(n), alts=[f"{a}|{gid}|optional" for a in alts])


def run(ctx):
    res = Result("For every captured group converted to int or float (result_type=, groupdict=, int(match.group())), the automaton of the group is checked for inclusion in the automaton of convertible texts; "
                 "groups that may not participate in a match are converted only after a test; defaults that are converted must be convertible.")
    check(ctx.prog, sites_of(ctx), res)
    res.floor("converted_captures", 20)
    res.assumptions += ["captures shorter than the interpreter's integer-digit limit", "the capture's context and look-arounds are ignored (its language is over-approximated)"]
    return res


def selftest():
    src = """import re
class L:
    def m(self, regex, group=1, result_type=str, default="", untyped_default=False):
        mm = re.search(regex, self.text)
        if mm is not None:
            return result_type(mm.group(group))
        if untyped_default:
            return default
        return result_type(default)
    def a(self):
        return self.m(r"^x (\\d+)$", result_type=int, default=0)
    def b(self):
        mm = re.search(r"q(?P<n>[0-9]{1,3})", self.text)
        return int(mm.group("n"))
"""
    cases = [(src, 0), (src.replace("(\\d+)", "(\\S+)"), 1), (src.replace("(\\d+)", "(\\d*)"), 1), (src.replace("(\\d+)", "(\\d+)?"), 1), (src.replace("default=0", "default=''"), 1),
             (src.replace("[0-9]{1,3}", "[0-9a]{1,3}"), 1), (src.replace("(?P<n>[0-9]{1,3})", "(?P<n>[0-9]{1,3})?"), 1)]
    for s, n in cases:
        p = Program.from_source(s)
        r = Result("x")
        check(p, Sites(p), r)
        if len(r.findings) != n:
            raise AnalysisBroken(f"C24 self-example not decided: {n} {[f.key for f in r.findings]}")
