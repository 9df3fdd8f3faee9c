"""C35: diff labels are complete and consistent.

Finite-label typestate analysis: the decision tables (sa/fin.py) of the label setters
and of the diff pipeline are built over the label vocabulary, with the identity of
lines, their texts and line numbers left opaque.
"""
from .. import fin
from ..fin import c
from ..report import Result
from ..srcmodel import AnalysisBroken, Program   # noqa: F401

SIDES = ("before", "after", "")
WORDS = {"before": ("keep", "remove", ""), "after": ("unchanged", "add", "unknown", "")}
LINE = "BaseCfgLine"
PREFIX = {"add": "+", "remove": "-"}


def idlist(name, chain, vals={}):
    return tuple(vals.get(n) or ("t", "lineid", ("sym", n)) for n in (name,) + chain)


def assignments(before, after):
    """the ways lines may be the same line: an identity per line, numbered in order of appearance; lines of one side are all different, but for the last line of the first side, which may repeat the one before"""
    bn = [n for n, _ in before]
    firsts = [{n: i for i, n in enumerate(bn)}]
    if len(bn) > 2:
        firsts.append({n: min(i, len(bn) - 2) for i, n in enumerate(bn)})
    for first in firsts:
        used = sorted(set(first.values()))

        def extend(names, got):
            if not names:
                yield dict(got)
                return
            for v in used + [100 + len(got)]:
                if v in got.values():
                    continue
                got[names[0]] = v
                yield from extend(names[1:], got)
                del got[names[0]]
        for second in extend([n for n, _ in after], {}):
            yield {k: c(v) for k, v in {**first, **second}.items()}


class Model:
    def __init__(self, prog):
        self.prog = prog
        self.vals = {}      # symbol name -> known identity
        self.ids = {}       # symbol name -> chain of ancestors' names, nearest first

    def cfg(self):
        def attr(ev, v, name):
            if v[0] != "ref":
                return None
            o = ev.heap[v[1]]
            if o["kind"] != "obj" or o["name"] not in self.ids:
                return None
            if name in ("diff_id_list",):
                return ev.new("list", list(idlist(o["name"], self.ids[o["name"]], self.vals)))
            if name == "_line_id":
                return self.vals.get(o["name"]) or ("t", "lineid", ("sym", o["name"]))
            if name in ("text", "_text", "indent", "linenum", "diff_linenum"):
                return o["fields"].get(name) or fin.t("attr", ("sym", o["name"]), name)
            if name in ("geneology", "all_parents"):
                names = list(self.ids[o["name"]])[::-1] + ([o["name"]] if name == "geneology" else [])
                return ev.new("list", [self.ref(ev, n) for n in names])
            return None

        def func(ev, f, args, kw):
            if f.qual.endswith(("text@setter", "linenum@setter")) and args[0][0] == "ref":
                return fin.NONE
            if f.name == "calculate_line_id" and args[0][0] == "ref":
                return self.vals.get(ev.heap[args[0][1]]["name"]) or ("t", "lineid", ("sym", ev.heap[args[0][1]]["name"]))
            if f.name == "enforce_valid_types":
                return fin.NONE
            return None

        def delitem(ev, b, i):
            if b[0] == "ref" and ev.heap[b[1]]["kind"] == "dict":
                o = ev.heap[b[1]]
                if ev.dict_get(o, i) is None:
                    raise fin.Raised("KeyError")
                o["items"] = [(k, v) for k, v in o["items"] if k != i]
                return True
            return False

        def isstr(v):
            return v[0] == "t" and (v[1] in ("str",) or v[1] == "attr" and v[3] in ("text", "_text"))
        return {"attr": attr, "func": func, "delitem": delitem, "isstr": isstr, "dicteq": True}

    def ref(self, ev, name):
        for i, o in enumerate(ev.heap):
            if o.get("name") == name:
                return ("ref", i)
        raise fin.Opaque(f"no object {name}")

    def line(self, ev, name, chain=(), **fields):
        self.ids[name] = chain
        f = {"_diff_word": c(""), "_diff_side": c(""), "diff_rendered": c(False)}
        f.update({k: c(v) for k, v in fields.items()})
        r = ev.symbol(LINE, name, f)
        return r


def label(ev, r, what):
    v = ev.heap[r[1]]["fields"].get(what)
    return v[1] if v is not None and fin.is_c(v) else v


def setters(prog, res):
    """which values each label setter stores, and which it refuses"""
    M = Model(prog)
    for attr, field, cases in (
            ("diff_side", "_diff_side", [("", v, v in SIDES) for v in SIDES + ("both", None)] + [("before", v, v in SIDES) for v in ("after", "left")]),
            ("diff_word", "_diff_word", [(s, w, s in WORDS and w in WORDS[s]) for s in ("before", "after", "") for w in sorted({x for ws in WORDS.values() for x in ws} | {"changed"})])):
        g = prog.find_setter(LINE, attr)
        if g is None:
            res.add(f"{LINE}.{attr}|setter", f"{LINE}.{attr} accepts any value: it has no setter that checks it", prog.need_method(LINE, attr).loc())
            continue
        for side, val, good in cases:
            def body(ev):
                r = M.line(ev, "x", _diff_side=side)
                before = ev.heap[r[1]]["fields"][field]
                out = fin.outcome(ev, lambda: ev.call_func(g, [r, c(val)], {}))
                ev.stash = (out, ev.heap[r[1]]["fields"].get(field), before)
                return fin.NONE
            try:
                rs = list(fin.rows(prog, body, M.cfg()))
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {e}")
                break
            where = f"{LINE}.{attr} = {val!r}" + (f" on side {side!r}" if attr == "diff_word" else "")
            for ev, _ in rs:
                out, after, before = ev.stash
                res.count("setter rows")
                if not good and (out[0] == "ret" or after != before):
                    res.add(f"{g.qual}|accepts {side}/{val}" if attr == "diff_word" else f"{g.qual}|accepts {val}",
                            f"{where} is accepted, although it is no {'label of that side' if attr == 'diff_word' else 'side of a diff'}", g.loc(), ev.facts.show())
                elif good and out[0] == "raise":
                    res.add(f"{g.qual}|refuses {side}/{val}" if attr == "diff_word" else f"{g.qual}|refuses {val}", f"{where} is refused ({out[1]})", g.loc(), ev.facts.show())
                elif good and after != c(val):
                    res.add(f"{g.qual}|stores {side}/{val}" if attr == "diff_word" else f"{g.qual}|stores {val}", f"{where} does not store that value", g.loc(), ev.facts.show())
        gp = prog.find_prop(LINE, attr)
        if gp is not None:
            def read(ev):
                r = M.line(ev, "x", **{field: "sentinel"})
                return ev.call_func(gp, [r], {})
            try:
                for ev, out in fin.rows(prog, read, M.cfg()):
                    if out != ("ret", c("sentinel")):
                        res.add(f"{gp.qual}|read", f"{gp.qual} does not read the label that was stored", gp.loc(), ev.facts.show())
            except fin.Opaque as e:
                res.undec(f"{gp.qual}: {e}")


# pairs of lines that are different lines (same indent, different words)
LONG = "access-list 101 permit tcp host 10.1.1.1 range 1024 65535 host 10.2.2.2 eq "
TEXTS = [("interface Ethernet1", "interface Ethernet2"), ("hostname LAX", "hostname lax"), (" description to  A1", " description to A 1"), ("shutdown", "no shutdown"),
         (" ip address 10.0.0.1 255.255.255.0", " ip address 10.0.0.1 255.255.255.0 secondary"), (LONG + "80", LONG + "443"), ("! one", "! two"), ("", "!"),
         ("router bgp 1", "router bgp 01"), (" neighbor 10.0.0.1 remote-as 5", " neighbor 10.0.0.1 remote_as 5"), ("banner x", "banner-x"), ("ntp server 10.0.0.1 key 1 prefer", "ntp server 10.0.0.1 key 2 prefer")]


def identity(prog, res):
    """the identity of a line separates lines that differ, at any depth"""
    g = prog.find_method(LINE, "calculate_line_id")
    if g is not None:
        def value(text, linenum):
            def body(ev):
                r = ev.symbol(LINE, "x", {"_text": c(text), "indent": c(len(text) - len(text.lstrip())), "linenum": c(linenum), "_linenum": c(linenum), "is_comment": c(text.strip()[:1] == "!"), "_line_id": fin.NONE})
                return ev.freeze(ev.call_func(g, [r], {}))
            out = {o for _, o in fin.rows(prog, body, {})}
            return out
        for a, b in TEXTS:
            try:
                x, y, x2 = value(a, 7), value(b, 7), value(a, 9)
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {e}")
                break
            if any(o[0] != "ret" for o in x | y | x2):
                res.add(f"{g.qual}|raises", f"{g.qual} fails on an ordinary configuration line", g.loc(), [a, b])
                continue
            if len(x) > 1 or len(y) > 1 or len(x2) > 1:
                res.undec(f"{g.qual}: the identity of a line depends on more than its text")
                break
            res.count("identity rows")
            if x == y:
                res.add(f"{g.qual}|same identity", f"{g.qual} gives the lines {a!r} and {b!r} one identity: HDiff takes one for the other", g.loc())
            if x != x2:
                res.add(f"{g.qual}|other identity", f"{g.qual} gives one line at another line number another identity: HDiff does not find it in the second configuration", g.loc(), [a])
    else:
        res.undec(f"{LINE}.calculate_line_id not found")
    g = prog.find_prop(LINE, "diff_id_list")
    if g is None:
        res.undec(f"{LINE}.diff_id_list not found")
        return
    for depth in (1, 2, 3, 4, 6):
        M = Model(prog)
        names = [str(i) for i in range(depth)]      # the line itself first

        def body(ev):
            for i in reversed(range(depth)):
                M.line(ev, names[i], tuple(names[i + 1:]))
            me = M.ref(ev, names[0])
            refs = [M.ref(ev, n) for n in names]
            for i in range(depth):
                ev.heap[refs[i][1]]["fields"]["parent"] = refs[min(i + 1, depth - 1)]
            ev.stash = refs
            r = ev.call_func(g, [me], {})
            ev.stash = ev.items(r)
            return fin.NONE
        cfg = M.cfg()
        plain = cfg["attr"]
        cfg["attr"] = lambda ev, v, name: None if name == "diff_id_list" else plain(ev, v, name)
        try:
            rs = list(fin.rows(prog, body, cfg))
        except fin.Opaque as e:
            res.undec(f"{g.qual}: {e}")
            return
        want = sorted(map(str, idlist(names[0], tuple(names[1:]))))
        for ev, out in rs:
            if not fin.feasible(ev):
                continue
            if out[0] == "raise":
                res.add(f"{g.qual}|raises", f"{g.qual} fails for a line with {depth - 1} ancestors ({out[1]})", g.loc(), ev.facts.show())
                continue
            if ev.stash is None:
                res.undec(f"{g.qual}: the result is not a list")
                return
            res.count("identity rows")
            got = sorted(str(ev.freeze(x)) for x in ev.stash)
            miss = [w for w in want if w not in got]
            if miss:
                res.add(f"{g.qual}|ancestor", f"{g.qual} of a line with {depth - 1} ancestors leaves out the identity of {len(miss)} of the line and its ancestors: lines at different places become one", g.loc(), ev.facts.show())


def written(prog, res):
    """a line that the diff rewrites keeps its indentation and its words"""
    g = prog.find_method("HDiff", "build_diff_obj_lists")
    if g is None:
        return
    for text in ("hostname  LAX", "  ip address  10.0.0.1   255.255.255.0", " description a  b"):
        def body(ev):
            rs = []
            for side in "ba":
                rs.append(ev.symbol(LINE, side, {"_text": c(text), "indent": c(len(text) - len(text.lstrip())), "linenum": c(0), "is_comment": c(False), "_diff_word": c(""), "_diff_side": c(""), "diff_rendered": c(False)}))
            ps = [ev.symbol("CiscoConfParse", "p" + n, {"ConfigObjs": ev.new("list", [r])}) for n, r in zip("ba", rs)]
            d = ev.symbol("HDiff", "d", {"parse_before": ps[0], "parse_after": ps[1], "debug": c(0), "syntax": c("ios"), "before_obj_list": fin.NONE, "after_obj_list": fin.NONE})
            ev.call_func(g, [d], {})
            ev.stash = [ev.heap[r[1]]["fields"].get("_text") for r in rs]
            return fin.NONE

        def func(ev, f, args, kw):
            if f.qual.endswith("text@setter") and len(args) > 1 and args[0][0] == "ref":
                ev.heap[args[0][1]]["fields"]["_text"] = args[1]
                return fin.NONE
            if f.name == "enforce_valid_types":
                return fin.NONE
            return None
        try:
            for ev, out in fin.rows(prog, body, {"func": func}):
                if out[0] == "raise" or not fin.feasible(ev):
                    continue
                for v in ev.stash:
                    if not (fin.is_c(v) and isinstance(v[1], str)):
                        res.undec(f"{g.qual}: the text of a line is not decided")
                        return
                    res.count("identity rows")
                    if v[1].split() != text.split() or len(v[1]) - len(v[1].lstrip()) != len(text) - len(text.lstrip()):
                        res.add(f"{g.qual}|text", f"{g.qual} rewrites the line {text!r} as {v[1]!r}: the diff shows another line", g.loc())
        except fin.Opaque as e:
            res.undec(f"{g.qual}: {e}")
            return


# the lines of either side: (name, names of the ancestors, nearest first)
SHAPES = {
    "no line": [],
    "one line": [("1", ())],
    "two lines": [("1", ()), ("2", ())],
    "a parent and its child": [("1", ()), ("2", ("1",))],
    "a family of three": [("1", ()), ("2", ("1",)), ("3", ("2", "1"))],
    "two children": [("1", ()), ("2", ("1",)), ("3", ("1",))],
    "two parents": [("1", ()), ("2", ("1",)), ("3", ())],
    "two families": [("1", ()), ("2", ("1",)), ("3", ()), ("4", ("3",))],
}
PAIRS = [("no line", "no line"), ("no line", "one line"), ("one line", "no line"), ("one line", "one line"),
         ("two lines", "one line"), ("one line", "two lines"), ("a parent and its child", "one line"),
         ("one line", "a parent and its child"), ("a parent and its child", "a parent and its child"), ("two lines", "two lines")]
# decided with every way the lines of the two sides may be the same line
LARGER = [("a family of three", "a family of three"), ("two children", "a parent and its child"), ("a parent and its child", "two children"), ("two children", "two children"),
          ("two parents", "two parents"), ("two children", "two parents"), ("two parents", "a family of three"), ("two families", "two families")]


def pipeline(prog, res):
    cls = prog.cls("HDiff")
    names = ("build_diff_obj_lists", "build_ios_diffs", "unified_diffs_contents")
    fs = [prog.find_method(cls.name, n) for n in names]
    if any(f is None for f in fs):
        res.undec("HDiff: " + ", ".join(n for n, f in zip(names, fs) if f is None) + " not found")
        return
    todo = [(bs, as_, {}) for bs, as_ in PAIRS]
    for bs, as_ in LARGER:
        todo += [(bs, as_, v) for v in assignments([("b" + n, ch) for n, ch in SHAPES[bs]], [("a" + n, ch) for n, ch in SHAPES[as_]])]
    for bs, as_, vals in todo:
        M = Model(prog)
        M.vals = vals
        before = [("b" + n, tuple("b" + p for p in ch)) for n, ch in SHAPES[bs]]
        after = [("a" + n, tuple("a" + p for p in ch)) for n, ch in SHAPES[as_]]
        where = f"before: {bs}, after: {as_}" + (" with the identities " + ", ".join(f"{k}={v[1]}" for k, v in vals.items()) if vals else "")

        def body(ev):
            B = [M.line(ev, n, ch) for n, ch in before]
            A = [M.line(ev, n, ch) for n, ch in after]
            for ns, ls in ((before, B), (after, A)):
                for (n, ch), r in zip(ns, ls):
                    kids = [r2 for (n2, ch2), r2 in zip(ns, ls) if ch2[:1] == (n,)]
                    ev.heap[r[1]]["fields"]["children"] = ev.new("list", kids)
            pb = ev.symbol("CiscoConfParse", "pb", {"ConfigObjs": ev.new("list", B)})
            pa = ev.symbol("CiscoConfParse", "pa", {"ConfigObjs": ev.new("list", A)})
            d = ev.symbol("HDiff", "d", {"parse_before": pb, "parse_after": pa, "debug": c(0), "syntax": c("ios"), "before_obj_list": fin.NONE, "after_obj_list": fin.NONE,
                                         "all_output_dicts": ev.new("list", [])})
            ev.call_func(fs[0], [d], {})
            ev.call_func(fs[1], [d], {})
            lines = ev.call_func(fs[2], [d], {})
            ev.stash = (B, A, d, lines)
            return fin.NONE
        try:
            rs = list(fin.rows(prog, body, M.cfg(), cap=4000))
        except fin.Opaque as e:
            res.undec(f"HDiff ({where}): {e}")
            continue
        for ev, out in rs:
            if not fin.feasible(ev):
                continue
            res.count("diff rows")
            if out[0] == "raise":
                res.add("HDiff|raises", f"HDiff: a line's label is not handled ({out[1]})", fs[1].loc(), [where] + ev.facts.show())
                continue
            verdict(prog, res, ev, before, after, where, fs, vals)


def verdict(prog, res, ev, before, after, where, fs, vals):
    B, A, d, lines = ev.stash
    f1, f2 = fs[1], fs[2]
    path = [where] + ev.facts.show()
    ids = {n: idlist(n, ch, vals) for n, ch in before + after}

    def eqv(x, y):
        if len(ids[x]) != len(ids[y]):
            return False
        return all(decided(ev, p, q) for p, q in zip(ids[x], ids[y]))
    bn, an = [n for n, _ in before], [n for n, _ in after]
    dl = ev.heap[d[1]]["fields"].get("all_output_dicts")
    items = ev.items(dl) if dl is not None else None
    if items is None or any(x[0] != "ref" or ev.heap[x[1]]["kind"] != "dict" for x in items):
        res.undec(f"HDiff ({where}): the diff is not a list of dictionaries")
        return
    recs = []
    for x in items:
        o = dict((k[1], v) for k, v in ev.heap[x[1]]["items"] if fin.is_c(k))
        recs.append((o.get("text"), o.get("diff_side"), o.get("diff_word")))
    text = {("t", "attr", ("sym", n), "text"): n for n in bn + an}
    seen = {}
    for tx, sd, wd in recs:
        n = text.get(tx)
        if n is None:
            res.undec(f"HDiff ({where}): text of a diff line not recognised")
            return
        if not fin.is_c(sd or ("?",)) or not fin.is_c(wd or ("?",)):
            res.add("HDiff|label", "HDiff: a line of the diff has no definite label", f1.loc(), path)
            return
        sd, wd = sd[1], wd[1]
        mine = "before" if n in bn else "after"
        if sd != mine:
            res.add("HDiff|side", f"HDiff: a line of the {mine} configuration is labelled with side {sd!r}", f1.loc(), path)
        if wd not in WORDS[mine] or wd in ("", "unknown"):
            res.add("HDiff|label", f"HDiff: a line of the {mine} configuration ends with the label {wd!r}", f1.loc(), path)
        seen.setdefault(n, []).append(wd)
    for n in bn:
        if any(eqv(n, m) for m in bn[:bn.index(n)]):
            continue        # a repetition of an earlier line is listed once
        want = "keep" if any(eqv(n, m) for m in an) else "remove"
        got = seen.get(n, [])
        if len(got) > 1:
            res.add("HDiff|twice", "HDiff lists a line more than once", f1.loc(), path)
        elif not got:
            res.add("HDiff|missing", f"HDiff does not list a line that should be labelled {want!r}", f1.loc(), path)
        elif got[0] != want and not (want == "remove" and any(has_kept_child(ids, eqv, n, k, bn, an) for k in bn)):
            res.add("HDiff|word", f"HDiff labels a line {got[0]!r} that is {'in both configurations' if want == 'keep' else 'only in the before configuration'}", f1.loc(), path)
    for n in an:
        inb = any(eqv(n, m) for m in bn)
        own = label(ev, A[an.index(n)], "_diff_word")
        if own not in ("unchanged", "add") or (own == "unchanged") != inb and not (not inb and any(len(ids[k]) > len(ids[n]) and ids[k][-len(ids[n]):] == ids[n] and any(eqv(k, m) for m in bn) for k in an)):
            res.add("HDiff|after word", f"HDiff leaves the label {own!r} on a line that is {'in both configurations' if inb else 'only in the after configuration'}", f1.loc(), path)
        got = seen.get(n, [])
        if inb:
            if "add" in got:
                res.add("HDiff|word", "HDiff labels a line 'add' that is in both configurations", f1.loc(), path)
            continue
        if any(eqv(n, m) for m in an[:an.index(n)]):
            continue
        if len(got) > 1:
            res.add("HDiff|twice", "HDiff lists a line more than once", f1.loc(), path)
        elif not got:
            res.add("HDiff|missing", "HDiff does not list a line that is only in the after configuration", f1.loc(), path)
        elif got[0] != "add":
            res.add("HDiff|word", f"HDiff labels a line {got[0]!r} that is only in the after configuration", f1.loc(), path)
    # rendering: one line per record, in the same order, with the sign of its label
    ls = ev.items(lines)
    if ls is None:
        res.undec(f"{f2.qual}: the rendered diff is not a list")
        return
    if len(ls) != len(recs):
        res.add(f"{f2.qual}|rendered", f"{f2.qual} renders {len(ls)} lines of a diff of {len(recs)}", f2.loc(), path)
        return
    for l, (tx, sd, wd) in zip(ls, recs):
        want = ev.concat([c(PREFIX.get(wd[1], " ")), tx])
        if ev.freeze(l) != ev.freeze(want):
            res.add(f"{f2.qual}|rendered {wd[1]}", f"{f2.qual} does not render a line labelled {wd[1]!r} as {PREFIX.get(wd[1], ' ')!r} and its text", f2.loc(), path + [fin.show(l)])
    res.count("diff rows decided")


def has_kept_child(ids, eqv, n, k, bn, an):
    """a parent stays when a line below it stays"""
    return len(ids[k]) > len(ids[n]) and ids[k][-len(ids[n]):] == ids[n] and any(eqv(k, m) for m in an)


def decided(ev, p, q):
    if p == q:
        return True
    find = fin.classes(ev)
    return fin.canon(ev, p, find) == fin.canon(ev, q, find)


def run(ctx):
    prog = ctx.prog
    res = Result("finite-label typestate analysis: decision tables of the label setters and of the diff pipeline over the label vocabulary, with line identities opaque")
    setters(prog, res)
    identity(prog, res)
    written(prog, res)
    pipeline(prog, res)
    res.floor("setter rows", 15)
    return res
