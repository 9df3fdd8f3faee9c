"""C03: containers supplied by the caller are never modified."""
from ..report import Result
from ..srcmodel import Program, AnalysisBroken
from ..absint import Interp, is_container_mut

EXEMPT = {
    "ccp_util.ccp_logger_control": "registers logging handlers in the handler list it is given and returns (logging set-up)",
    "ccp_util.configure_loguru": "registers logging handlers in the handler list it is given (logging set-up)",
    "HDiff.compress_dict_diffs": "pipeline stage: strips the internal id from the dictionaries HDiff itself produced",
}


def public(f):
    if f.name.startswith("__") and f.name.endswith("__"):
        return True
    return not f.name.startswith("_")


def check(prog, interp, res):
    muts_attr = {}
    for q, s in interp.sum.items():
        f = prog.funcs[q]
        selfp = f.params[0] if f.cls is not None and f.params and f.kind != "staticmethod" else None
        for (root, path, what), ch in s.muts.items():
            if selfp and root == "p:" + selfp and path and path[0].startswith(".") and all(x.startswith("[") for x in path[1:]) and is_container_mut(what):
                muts_attr.setdefault((path[0][1:], path[1:]), (q, ch[0][1], what))
    nparam = 0
    for q, s in sorted(interp.sum.items()):
        f = prog.funcs[q]
        if f.outer is not None or not public(f):
            continue
        selfp = f.params[0] if f.cls is not None and f.params and f.kind in ("method", "property", "setter", "classmethod") else None
        nparam += len([p for p in f.all_params if p != selfp])
        if q in EXEMPT or f.name in ("__exit__",):
            continue
        for (root, path, what), ch in sorted(s.muts.items()):
            if not root.startswith("p:") or root[2:] == selfp or root[2:] in (f.vararg, f.kwarg) and not path:
                continue
            if any(x.startswith(".") for x in path) or not is_container_mut(what):
                continue
            t = interp.ptypes.get((q, root[2:]))
            res.add(f"{q}|{root[2:]}{''.join(path)}|{what}", f"{q} modifies the caller's argument `{root[2:]}`{''.join(path)} in place ({what})",
                    f"{f.file}:{ch[0][1]}", [f"{a}:{b}" for a, b in ch])
        # retained without a copy, then modified in place
        if selfp is None:
            continue
        for (loc, fld), av in s.heap.items():
            if loc != ("p:" + selfp, ()) or not fld.startswith("."):
                continue
            for l in av.locs:
                if not l[0].startswith("p:") or l[0] == "p:" + selfp or l[0][2:] in (f.vararg, f.kwarg):
                    continue
                if any(x.startswith(".") for x in l[1]):
                    continue
                if av.types is not None and not any((x[0] if isinstance(x, tuple) else x) in ("list", "dict", "set", "deque") for x in av.types):
                    continue
                for (a, rest), w in muts_attr.items():
                    if a == fld[1:]:
                        wc = prog.funcs[w[0]].cls
                        if wc is None or not (prog.is_subclass(f.cls.name, wc.name) or prog.is_subclass(wc.name, f.cls.name)):
                            continue
                        if (f.qual, l[0][2:], a) in NOT_KEPT:
                            continue
                        res.add(f"{q}|kept:{l[0][2:]}->{a}", f"{q} keeps the caller's `{l[0][2:]}` as attribute {a} without copying; {w[0]} then modifies it in place ({w[2]})",
                                f.loc(), [f"{w[0]}:{w[1]}"])
    res.count("public_parameters", nparam)
    res.count("functions", len(interp.sum))


# confirmed by reading: the flow-insensitive join loses a correlation
NOT_KEPT = {("CiscoRange.attribute_sort", "target_list", "_list"): "stored only on the path on which the argument was None and replaced by a deep copy"}


def run(ctx):
    res = Result("Effect/alias analysis: for every public entry point the may-mutate set over containers rooted at a caller's argument is empty, and no argument "
                 "container is retained uncopied in an attribute that some method modifies in place.")
    check(ctx.prog, ctx.interp, res)
    res.floor("public_parameters", 600)
    res.assumptions += [f"exempt: {k} - {v}" for k, v in EXEMPT.items()]
    return res


EX = '''
def bad(spec):
    spec.append(1)
    return spec
def through(spec):
    return _help(spec)
def _help(s):
    s.pop()
    return s
def ok(spec):
    spec = list(spec)
    spec.append(1)
    return spec
class K:
    def __init__(self, rows):
        self.rows = rows
    def add(self, x):
        self.rows.append(x)
'''


def selftest():
    p = Program.from_source(EX)
    i = Interp(p, {})
    r = Result("x")
    check(p, i, r)
    k = " ".join(f.key for f in r.findings)
    if not ("m.bad|spec" in k and "m.through|spec" in k and "kept:rows" in k) or "m.ok" in k:
        raise AnalysisBroken(f"C03 self-example not decided: {k}")
