"""C04: lists returned by searches / navigation are fresh."""
from ..report import Result
from ..srcmodel import Program, AnalysisBroken
from ..absint import Interp
from ..seeds import SEEDS

CLASSES = ["CiscoConfParse", "ConfigList", "BaseCfgLine", "CiscoRange", "HDiff"]
LIVE = {"CiscoConfParse.objs": "documented alias of the live line list"}
MUTABLE = {"list", "dict", "set", "deque", "ConfigList"}
KNOWN_LIST_FIELDS = {"children", "_list", "ConfigObjs", "all_text", "all_children", "all_parents"}


def field_is_container(prog, interp, attr):
    if attr in KNOWN_LIST_FIELDS:
        return True
    seen = False
    for (c, a), t in interp.attr.items():
        if a == attr:
            if t is None:
                return False
            seen = seen or any((x[0] if isinstance(x, tuple) else x) in MUTABLE for x in t)
    return seen


def check(prog, interp, res, classes):
    n = 0
    for rc in classes:
        if rc not in prog.classes:
            raise AnalysisBroken(f"public class {rc} no longer exists")
        for cn in sorted(prog.subclasses.get(rc, ())):
            c = prog.classes[cn]
            for table in (c.methods, c.props):
                for name, f in sorted(table.items()):
                    if name.startswith("_") and not (name.startswith("__") and name.endswith("__")):
                        continue
                    if name in ("__iadd__", "__imul__", "__enter__", "__iter__", "__getattribute__", "__getattr__"):
                        continue
                    if f.qual in LIVE:
                        continue
                    n += 1
                    s = interp.sum[f.qual]
                    selfroot = "p:" + f.params[0] if f.params else None
                    tags = s.ret.tags
                    if tags is not None and not (tags & MUTABLE):
                        continue
                    for l in sorted(s.ret.locs):
                        if l[0][:2] in ("p:", "c:", "g:") and l[1] and l[1][-1].startswith(".") and field_is_container(prog, interp, l[1][-1][1:]):
                            res.add(f"{f.qual}|{l[0][2:]}{''.join(l[1])}", f"{f.qual} may return the live container {l[0][2:]}{''.join(l[1])} itself instead of a new list", f.loc())
                        elif l[0].startswith("g:") and not l[1] and tags is not None:
                            mod, _, nm = l[0][2:].rpartition(".")
                            t = interp.gtypes.get((mod, nm))
                            if t and any((x[0] if isinstance(x, tuple) else x) in MUTABLE for x in t):
                                res.add(f"{f.qual}|{l[0][2:]}", f"{f.qual} may return the module-level container {l[0][2:]}", f.loc())
                    # a result that is also kept
                    fresh = {l for l in s.ret.locs if l[0].startswith("s:")}
                    for (loc, fld), av in s.heap.items():
                        if loc[0] == selfroot and fld.startswith(".") and fresh & av.locs and tags is not None and tags & MUTABLE \
                                and av.types is not None and any((x[0] if isinstance(x, tuple) else x) in MUTABLE for x in av.types):
                            res.add(f"{f.qual}|kept{fld}", f"{f.qual} returns a list that it also keeps as {loc[0][2:]}{''.join(loc[1])}{fld}, so later calls see the caller's changes", f.loc())
                    res.sample(f"{f.qual}: result types {sorted(tags) if tags is not None else 'any'}, allocated fresh")
    res.count("result_returning_members", n)


def run(ctx):
    res = Result("Points-to analysis of results: no public member of the configuration, line-list, line or range classes may return a container that is reachable "
                 "from its receiver, an argument's fields or a global, or that it also stores.")
    check(ctx.prog, ctx.interp, res, CLASSES)
    res.floor("result_returning_members", 600)
    res.assumptions += [f"exempt: {k} - {v}" for k, v in LIVE.items()]
    return res


EX = '''
class Box:
    def __init__(self):
        self.children = []
    def bad(self):
        if self.children:
            out = self.children
        else:
            out = []
        return out
    def memo(self):
        r = [x for x in self.children]
        self._r = r
        return r
    def ok(self):
        return list(self.children)
'''


def selftest():
    p = Program.from_source(EX)
    i = Interp(p, {})
    r = Result("x")
    check(p, i, r, ["Box"])
    k = " ".join(f.key for f in r.findings)
    if not ("Box.bad|" in k and "Box.memo|" in k) or "Box.ok" in k:
        raise AnalysisBroken(f"C04 self-example not decided: {k}")
