"""C09: paired parent/child searches are exact complements.

Decision tables of the searches over small configuration skeletons.  The only atoms are
"pattern P matches line L"; texts, patterns and line numbers stay opaque.  On every row
(one truth value per atom) the result list must be the one the search stands for, and
the two searches of a pair must split the matching lines between them.
"""
from .. import fin
from ..fin import c, t, NONE
from ..report import Result

# skeleton: (line, parent) in configuration order; 'top' lines may match the parent pattern
SKELETONS = {
    "two parents, the first with two children": ([("p1", None), ("a", "p1"), ("b", "p1"), ("p2", None), ("d", "p2")], ("p1", "p2")),
    "child and grandchild": ([("p1", None), ("a", "p1"), ("g", "a"), ("p2", None)], ("p1", "a", "p2")),
    "four generations": ([("p1", None), ("a", "p1"), ("g", "a"), ("x", "g"), ("p2", None)], ("p1", "g")),
    "two families of grandchildren": ([("p1", None), ("a", "p1"), ("g", "a"), ("b", "p1"), ("h", "b")], ("p1", "a")),
}
P, Q = ("var", "parentspec"), ("var", "childspec")
Q2 = ("var", "childspec2")


class Model:
    def __init__(self, skel):
        self.lines, self.top = SKELETONS[skel]
        self.order = {n: i for i, (n, _) in enumerate(self.lines)}
        self.up = dict(self.lines)

    def kids(self, n):
        return [k for k, p in self.lines if p == n]

    def below(self, n):
        return [k for k, _ in self.lines if n in self.above(k)]

    def above(self, n):
        out = []
        while self.up[n] is not None:
            n = self.up[n]
            out.append(n)
        return out

    def build(self, ev, types=None):
        refs = {}
        for n, _ in self.lines:
            refs[n] = ev.symbol("BaseCfgLine", n, {"linenum": c(self.order[n]), "_linenum": c(self.order[n]), "indent": c(len(self.above(n)))})
        for n, p in self.lines:
            f = ev.heap[refs[n][1]]["fields"]
            f["children"] = ev.new("list", [refs[k] for k in self.kids(n)])
            f["parent"] = refs[p] if p else refs[n]
        self.refs = refs
        return ev.symbol("CiscoConfParse", "cfg", {"ConfigObjs": ev.new("list", [refs[n] for n, _ in self.lines]), "debug": c(0)})

    # ---- atoms
    def name(self, v):
        """the line whose text this is"""
        if v[:2] == ("t", "attr") and v[3] == "text" and v[2][0] == "sym":
            return v[2][1]
        return None

    def match(self, ev, pat, line):
        pat = ev.freeze(pat)
        if pat[:2] == ("t", "re"):
            pat = pat[2]
        if self.base(pat) == P and line not in self.top:
            return False
        return ev.fact(("match", pat, line), f"{show(pat)} matches {line}")

    def base(self, pat):
        while pat[0] == "t" and pat[1] in ("st", "esc", "fstr"):
            pat = next((x for x in pat[2:] if x[0] != "c"), c(""))
        return pat

    def ispat(self, v):
        return v in (P, Q, Q2) or v[0] == "t" and (v[1] in ("st", "esc") or v[1] == "fstr" and self.base(v) in (P, Q, Q2))

    # ---- hooks
    def cfg(self):
        return {"attr": self.attr, "method": self.method, "ext": self.ext, "func": self.func, "contains": self.contains, "isinstance": self.isinst,
                "isstr": lambda v: self.ispat(v) or self.name(v) is not None, "notnone": lambda v: self.ispat(v) or v[:2] in (("t", "hit"), ("t", "re")) or self.name(v) is not None,
                "truth": lambda ev, v: True if self.ispat(v) or v[:2] in (("t", "hit"), ("t", "re")) or self.name(v) is not None else None}

    def attr(self, ev, v, name):
        if v[0] == "ref":
            o = ev.heap[v[1]]
            if name in ("text", "_text") and o["name"] in self.order:
                return t("attr", ("sym", o["name"]), "text")
        return None

    def isinst(self, ev, v, ty):
        if self.ispat(v) or self.name(v) is not None:
            return ty[0] == "ext" and ty[1] in ("str", "object", "collections.abc.Sequence", "collections.abc.Iterable", "collections.abc.Hashable")
        if v[:2] == ("t", "re"):
            return ty[0] == "ext" and ty[1] in ("re.Pattern", "object")
        if v[:2] == ("t", "hit"):
            return ty[0] == "ext" and ty[1] in ("re.Match", "object")
        return None

    def contains(self, ev, x, cont):
        if self.ispat(x) and self.name(cont):
            return self.match(ev, x, self.name(cont))
        return None

    def search(self, ev, pat, text):
        n = self.name(text)
        if n is None:
            raise fin.Opaque("a pattern is applied to something else than a line's text")
        return t("hit", ev.freeze(pat), c(n)) if self.match(ev, pat, n) else NONE

    def method(self, ev, b, name, args, kw):
        if b[:2] == ("t", "re") and name == "search" and len(args) == 1:
            return self.search(ev, b, args[0])
        if b[:2] == ("t", "re"):
            raise fin.Opaque(f"{name}() of a pattern")
        if b[0] == "ref" and ev.heap[b[1]]["kind"] == "list" and name == "sort" and not args:
            ev.heap[b[1]]["items"] = self.sort(ev, ev.heap[b[1]]["items"], kw)
            return NONE
        return None

    def sort(self, ev, items, kw):
        if any(x[0] != "ref" or ev.heap[x[1]]["name"] not in self.order for x in items):
            raise fin.Opaque("sorting of something else than lines")
        rev = kw.get("reverse", c(False))
        key = kw.get("key")
        if not fin.is_c(rev):
            raise fin.Opaque("sort order")
        if key is not None:
            ks = [ev.call(key, [x], {}, None, {}, None, None) for x in items]
            if not all(fin.is_num(k) for k in ks):
                raise fin.Opaque("sort key")
            items = [x for _, _, x in sorted(zip([k[1] for k in ks], range(len(ks)), items))]
            return items[::-1] if rev[1] else items
        return sorted(items, key=lambda x: self.order[ev.heap[x[1]]["name"]], reverse=bool(rev[1]))

    def func(self, ev, f, args, kw):
        if f.name == "build_space_tolerant_regex" and (args or kw):
            args = list(args) or list(kw.values())
            if args[0][0] == "ref" and ev.items(args[0]) is not None:
                return ev.new("list", [t("st", ev.freeze(x)) for x in ev.items(args[0])])
            return t("st", ev.freeze(args[0]))
        if f.name == "enforce_valid_types":
            return NONE
        return None

    def ext(self, ev, name, args, kw):
        call = lambda fn, *a: ev.call(fn, list(a), {}, None, {}, None, None)
        if name == "filter" and len(args) == 2 and ev.items(args[1]) is not None:
            return ev.new("list", [x for x in ev.items(args[1]) if ev.truth(x if args[0] == NONE else call(args[0], x))])
        if name == "map" and len(args) == 2 and ev.items(args[1]) is not None:
            return ev.new("list", [call(args[0], x) for x in ev.items(args[1])])
        if name == "sorted" and len(args) == 1 and ev.items(args[0]) is not None:
            return ev.new("list", self.sort(ev, ev.items(args[0]), kw))
        if name == "list" and len(args) == 1 and args[0][0] == "ref" and ev.heap[args[0][1]]["kind"] == "set" and len(ev.items(args[0])) > 1:
            # no order: show it as the reversed one, which no correct result relies on
            return ev.new("list", ev.items(args[0])[::-1])
        if name == "re.escape" and len(args) == 1 and self.ispat(args[0]):
            return t("esc", args[0])
        if name == "re.compile" and len(args) == 1 and self.ispat(args[0]):
            return t("re", ev.freeze(args[0]))
        if name == "re.search" and len(args) == 2 and not kw:
            return self.search(ev, args[0], args[1])
        if name.startswith("re."):
            raise fin.Opaque(f"{name} of a pattern")
        if name == "next" and args and ev.items(args[0]) is not None:
            it = ev.items(args[0])
            if it:
                return it[0]
            if len(args) == 2:
                return args[1]
            raise fin.Raised("StopIteration")
        return None


def show(v):
    if v[0] == "var":
        return v[1]
    if v[0] == "t" and v[1] in ("st", "esc"):
        return {"st": "space-tolerant ", "esc": "escaped "}[v[1]] + show(v[2])
    return fin.show(v)


def pattern(v, opts):
    if opts.get("escape_chars"):
        v = t("esc", v)
    if opts.get("ignore_ws"):
        v = t("st", v)
    return v


class Judge:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res

    def has(self, ev, M, n, pats, recurse, opts):
        ks = sorted(M.below(n) if recurse else M.kids(n), key=M.order.get)
        return [any([M.match(ev, pattern(q, opts), k) for k in ks]) for q in pats]

    def run(self, what, f, skel, args, kw, spec, texts=False):
        """every row: the call returns exactly the lines that spec(ev, M, line) accepts, in order"""
        M = Model(skel)

        def body(ev):
            cfg = M.build(ev)
            recv, ar = (cfg, args) if not callable(args) else args(ev, M, cfg)
            ar = [ev.new("list", list(a)) if isinstance(a, list) else a for a in ar]
            try:
                v = ev.call_func(f, [recv] + ar, {k: c(x) for k, x in kw.items()})
            except fin.Raised as r:
                ev.stash = ("raise", r.name)
                return NONE
            want = [n for n, _ in M.lines if spec(ev, M, n)]
            if spec.__dict__.get("as_bool"):
                ev.stash = ("bool", ev.truth(v), bool(want), [])
                return NONE
            it = ev.items(v)
            if it is None:
                raise fin.Opaque("the result is no list")
            if v[0] == "ref" and ev.heap[v[1]]["kind"] == "set":
                it = it[::-1]
            got = []
            for x in it:
                n = M.name(x) if x[0] != "ref" else ev.heap[x[1]]["name"]
                if n not in M.order:
                    raise fin.Opaque("the result holds something else than lines")
                if (x[0] == "ref") == texts:
                    raise fin.Opaque("the result holds texts and lines")
                got.append(n)
            ev.stash = ("list", got, want, [m for m in M.top])
            return NONE
        try:
            for ev, out in fin.rows(self.prog, body, M.cfg(), cap=3000):
                if out[0] == "raise":
                    raise fin.Opaque(f"raises {out[1]}")
                self.res.count("rows")
                st = ev.stash
                if any("table(" in x for x in ev.facts.show()):
                    raise fin.Opaque("a collection of lines is computed in a way that is not followed")
                path = [f"configuration: {skel}"] + ev.facts.show()
                if st[0] == "raise":
                    self.res.add(f"{f.qual}|{what}|raises", f"{f.qual} ({what}) raises {st[1]}", f.loc(), path)
                elif st[0] == "bool":
                    if st[1] != st[2]:
                        self.res.add(f"{f.qual}|{what}", f"{f.qual} ({what}) is {st[1]} although {'some' if st[2] else 'no'} line examined matches", f.loc(), path)
                else:
                    got, want = st[1], st[2]
                    if got != want:
                        self.res.add(f"{f.qual}|{what}|{kind(got, want)}", f"{f.qual} ({what}) {explain(got, want)}", f.loc(), path)
        except fin.Opaque as e:
            self.res.undec(f"{f.qual} ({what}): {e}")
            return
        self.res.count("searches decided")


def kind(got, want):
    if set(got) - set(want):
        return "extra"
    if set(want) - set(got):
        return "missing"
    return "twice" if len(got) != len(set(got)) else "order"


def explain(got, want):
    k = kind(got, want)
    if k == "extra":
        return f"returns {sorted(set(got) - set(want))[0]}, which does not belong to it"
    if k == "missing":
        return f"leaves out {sorted(set(want) - set(got))[0]}"
    return "returns a line twice" if k == "twice" else "does not keep the configuration order"


PAIRS = [
    ("find_parent_objects", "find_parent_objects_wo_child", ("ignore_ws", "recurse", "escape_chars"), False),
    ("find_objects_w_child", "find_objects_wo_child", ("ignore_ws", "recurse"), False),
    ("find_parents_w_child", "find_parents_wo_child", ("ignore_ws",), True),
]


def combos(names):
    out = [{}]
    for n in names:
        out = [dict(o, **{n: b}) for o in out for b in (False, True)]
    return out


def label(o):
    return ", ".join(f"{k}={v}" for k, v in sorted(o.items()) if v) or "default options"


def run(ctx):
    prog = ctx.prog
    res = Result("decision tables of the searches over configuration skeletons with 'pattern matches line' as the only atoms; each result list compared with the set the search stands for")
    J = Judge(prog, res)
    cls = "CiscoConfParse"

    def method(c_, n):
        f = prog.find_method(c_, n)
        if f is None:
            res.undec(f"{c_}.{n} not found")
        return f

    def accepted(f, names):
        return tuple(n for n in names if n in f.params or n in f.kwonly)

    for w, wo, opts, texts in PAIRS:
        fw, fo = method(cls, w), method(cls, wo)
        for f, neg in ((fw, False), (fo, True)):
            if f is None:
                continue
            for o in combos(accepted(f, opts)):
                def spec(ev, M, n, o=o, neg=neg):
                    return M.match(ev, pattern(P, o), n) and J.has(ev, M, n, [Q], o.get("recurse", False), o)[0] != neg
                for skel in SKELETONS:
                    J.run(label(o), f, skel, [P, Q], o, spec, texts)
    # a list of child patterns: all of them / not all of them
    for nm, neg in (("find_objects_w_all_children", False), ("find_objects_w_missing_children", True)):
        f = method(cls, nm)
        if f is None:
            continue
        for o in combos(accepted(f, ("ignore_ws", "recurse"))):
            for qs in ([], [Q], [Q, Q2]):
                def spec(ev, M, n, o=o, neg=neg, qs=qs):
                    return M.match(ev, pattern(P, o), n) and all(J.has(ev, M, n, qs, o.get("recurse", False), o)) != neg
                for skel in list(SKELETONS)[:3 if len(qs) < 2 else 1]:
                    J.run(f"{len(qs)} child pattern{'s' * (len(qs) != 1)}, {label(o)}", f, skel, [P, qs], o, spec)
    # lines with a matching parent or ancestor
    for nm, opts, deep, texts in (("find_child_objects", ("ignore_ws", "recurse", "escape_chars"), None, False), ("find_objects_w_parents", ("ignore_ws",), False, False), ("find_children_w_parents", ("ignore_ws",), True, True)):
        f = method(cls, nm)
        if f is None:
            continue
        for o in combos(accepted(f, opts)):
            def spec(ev, M, n, o=o, deep=deep):
                d = o.get("recurse", False) if deep is None else deep
                hit = M.match(ev, pattern(Q, o), n)
                ups = [M.match(ev, pattern(P, o), u) for u in (M.above(n) if d else M.above(n)[:1])]
                return hit and any(ups)
            for skel in SKELETONS:
                J.run(label(o), f, skel, [P, Q], o, spec, texts)
    # the searches they are made of
    f = method(cls, "find_objects")
    if f is not None:
        for o in combos(accepted(f, ("ignore_ws",))):
            for skel in SKELETONS:
                J.run(label(o), f, skel, [Q], o, lambda ev, M, n, o=o: M.match(ev, pattern(Q, o), n))
    f = method(cls, "re_search_children")
    if f is not None:
        for o in combos(accepted(f, ("recurse",))):
            for skel in SKELETONS:
                J.run(label(o), f, skel, [Q], o, lambda ev, M, n, o=o: M.match(ev, Q, n) and (o.get("recurse", False) or M.up[n] is None))
    f = method("BaseCfgLine", "re_search_children")
    if f is not None:
        for o in combos(accepted(f, ("recurse",))):
            for skel in SKELETONS:
                J.run(label(o), f, skel, lambda ev, M, cfg: (M.refs["p1"], [Q]), o, lambda ev, M, n, o=o: n in (M.below("p1") if o.get("recurse") else M.kids("p1")) and M.match(ev, Q, n))
    f = method("BaseCfgLine", "has_child_with")
    if f is not None:
        for o in combos(accepted(f, ("all_children",))):
            def spec(ev, M, n, o=o):
                return n in (M.below("p1") if o.get("all_children") else M.kids("p1")) and M.match(ev, Q, n)
            spec.as_bool = True
            for skel in SKELETONS:
                J.run(label(o), f, skel, lambda ev, M, cfg: (M.refs["p1"], [Q]), o, spec)
    res.floor("rows", 2500)
    res.floor("searches decided", 60)
    return res
