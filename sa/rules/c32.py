"""C32: interface values keep all their fields.

The parallel tables of the two interface classes (parse, store, dictionary form, read
back, render, sort) are evaluated over *shapes*: which components the name has, with
every component an opaque token.  Regular expressions are applied to the shape word;
a captured span is read back as the tokens it covers, so a value that is only a part of
a component, or a neighbouring component, is seen as such.
"""
import itertools
import re

from .. import fin
from ..fin import c, t, NONE
from ..report import Result

PLAIN = ("prefix", "digit_separator", "slot", "card", "port", "subinterface", "channel", "interface_class")
CLASSES = {"CiscoIOSInterface": PLAIN, "CiscoIOSXRInterface": PLAIN[:4] + ("processor",) + PLAIN[4:]}
# two representatives of every component: the patterns only look at character classes and run lengths
REPS = {
    "CiscoIOSInterface": [
        ("long runs", {"prefix": "GigabitEthernet", "slot": "11", "card": "22", "port": "33", "subinterface": "445", "channel": "56", "interface_class": "multipoint"}),
        ("single digits, hyphens", {"prefix": "Port-channel", "slot": "1", "card": "2", "port": "3", "subinterface": "4", "channel": "5", "interface_class": "point-to-point"}),
    ],
    "CiscoIOSXRInterface": [
        ("long runs", {"prefix": "GigabitEthernet", "slot": "11", "card": "22", "processor": "77", "port": "33", "subinterface": "445", "channel": "56", "interface_class": "multipoint"}),
        ("alphanumeric card and processor", {"prefix": "MgmtEth", "slot": "1", "card": "RP8", "processor": "CPU9", "port": "3", "subinterface": "4", "channel": "5", "interface_class": "l2transport"}),
    ],
}
SEP = "/"


def word(*toks):
    """an abstract text: ('p', component) tokens, ('l', text) literals, ('x', text) parts of a component"""
    out = []
    for k in toks:
        if k[0] == "l" and out and out[-1][0] == "l":
            out[-1] = ("l", out[-1][1] + k[1])
        elif k[1] != "":
            out.append(k)
    if not out:
        return c("")
    if len(out) == 1 and out[0][0] == "l":
        return c(out[0][1])
    return t("word", tuple(out))


def comp(name):
    return word(("p", name))


class Words:
    """the operations of the fragment on abstract texts"""

    def __init__(self, rep):
        self.rep = dict(rep)
        self.matches = []

    def isword(self, v):
        return v[0] == "t" and v[1] == "word"

    def toks(self, v):
        if self.isword(v):
            return v[2]
        if fin.is_c(v) and isinstance(v[1], str):
            return (("l", v[1]),) if v[1] else ()
        if v[:2] == ("t", "fstr"):
            return tuple(k for x in v[2:] for k in self.toks(x))
        if v[:2] in (("t", "str"), ("t", "int")):
            return self.toks(v[2])
        raise fin.Opaque("text outside the fragment")

    def istext(self, v):
        try:
            self.toks(v)
        except fin.Opaque:
            return False
        return v[:2] != ("t", "int")

    def text(self, toks):
        return "".join(self.rep[k[1].rstrip("'")] if k[0] == "p" else k[1] for k in toks)

    def span(self, toks, a, b):
        out, pos = [], 0
        for k in toks:
            s = self.text((k,))
            lo, hi = max(a, pos), min(b, pos + len(s))
            if lo < hi:
                if k[0] == "p" and (lo, hi) != (pos, pos + len(s)):
                    out.append(("x", s[lo - pos:hi - pos]))
                else:
                    out.append((k[0], s[lo - pos:hi - pos] if k[0] != "p" else k[1]))
            pos += len(s)
        return word(*out)

    def group(self, ev, mt, g):
        m, toks = self.matches[mt[2]]
        try:
            a, b = m.span(g)
        except IndexError:
            raise fin.Raised("IndexError")
        return NONE if a < 0 else self.span(toks, a, b)

    def cfg(self):
        return {"ext": self.ext, "method": self.method, "isinstance": self.isinst, "isstr": self.istext, "notnone": lambda v: self.isword(v) or v[:2] == ("t", "match"),
                "truth": lambda ev, v: True if self.isword(v) or v[:2] == ("t", "match") else None, "contains": self.contains,
                "values": lambda v: () if self.isword(v) else None, "subscript": self.sub, "slice": self.cut}

    def isinst(self, ev, v, ty):
        if self.isword(v) or v[:2] in (("t", "fstr"), ("t", "str")):
            return ty in (("ext", "str"), ("ext", "object"), ("ext", "collections.abc.Sequence"))
        if v[:2] == ("t", "match"):
            return ty[0] == "ext" and ty[1] in ("re.Match", "object", "typing.Match")
        return None

    def contains(self, ev, x, cont):
        if self.istext(cont) and self.istext(x) and not (fin.is_c(cont) and fin.is_c(x)):
            return self.text(self.toks(x)) in self.text(self.toks(cont))
        return None

    def sub(self, ev, b, i):
        if b[:2] == ("t", "match"):
            return self.group(ev, b, i[1]) if fin.is_c(i) else None
        if self.isword(b) and fin.is_num(i):
            n = len(self.text(b[2]))
            j = i[1] if i[1] >= 0 else i[1] + n
            if not 0 <= j < n:
                raise fin.Raised("IndexError")
            return self.span(b[2], j, j + 1)
        return None

    def cut(self, ev, b, lo, hi, st):
        if self.isword(b):
            if st is not None or any(x is not None and not fin.is_num(x) for x in (lo, hi)):
                raise fin.Opaque("slice of an interface name")
            a, z, _ = slice(*[None if x is None else x[1] for x in (lo, hi)]).indices(len(self.text(b[2])))
            return self.span(b[2], a, z)
        return None

    def ext(self, ev, name, args, kw):
        if name in ("re.search", "re.match", "re.fullmatch") and len(args) == 2 and not kw and fin.is_c(args[0]) and self.istext(args[1]):
            toks = self.toks(args[1])
            m = getattr(re, name[3:])(args[0][1], self.text(toks))
            if m is None:
                return NONE
            self.matches.append((m, toks))
            return t("match", len(self.matches) - 1)
        if name == "re.split" and len(args) == 2 and not kw and fin.is_c(args[0]) and self.istext(args[1]):
            toks = self.toks(args[1])
            s, out, pos = self.text(toks), [], 0
            for m in re.finditer(args[0][1], s):
                out.append(self.span(toks, pos, m.start()))
                pos = m.end()
            return ev.new("list", out + [self.span(toks, pos, len(s))])
        if name.startswith("re."):
            raise fin.Opaque(f"{name} on an interface name")
        if name == "str" and len(args) == 1 and args[0][:2] in (("t", "int"), ("t", "str"), ("t", "word"), ("t", "fstr")):
            return word(*self.toks(args[0]))
        if name == "int" and len(args) == 1 and self.istext(args[0]) and not fin.is_c(args[0]):
            s = self.text(self.toks(args[0])).strip()
            if not s.isdecimal():
                raise fin.Raised("ValueError")
            return t("int", word(*self.toks(args[0])))
        if name == "len" and len(args) == 1 and self.isword(args[0]):
            raise fin.Opaque("length of a component")
        if name == "type" and len(args) == 1 and self.istext(args[0]):
            return ("ext", "str")
        if name in ("time.sleep", "sleep"):
            return NONE
        return None

    def method(self, ev, b, name, args, kw):
        if b[:2] == ("t", "match"):
            m, toks = self.matches[b[2]]
            if name == "groupdict":
                return ev.new("dict", [(c(k), self.group(ev, b, k)) for k in m.re.groupindex])
            if name == "group":
                gs = [self.group(ev, b, a[1]) for a in args] or [self.group(ev, b, 0)]
                return gs[0] if len(gs) == 1 else ev.new("tuple", gs)
            if name == "groups":
                return ev.new("tuple", [self.group(ev, b, i + 1) for i in range(m.re.groups)])
            raise fin.Opaque(f"match method {name}")
        if fin.is_c(b) or not self.istext(b):
            return None
        toks = self.toks(b)
        s = self.text(toks)
        if name in ("strip", "lstrip", "rstrip") and len(args) <= 1 and all(fin.is_c(a) for a in args):
            cs = args[0][1] if args else None
            lo = len(s) - len(s.lstrip(cs)) if name != "rstrip" else 0
            hi = len(s.rstrip(cs)) if name != "lstrip" else len(s)
            return self.span(toks, lo, hi)
        if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum") and not args:
            return c(getattr(s, name)())
        if name in ("startswith", "endswith") and len(args) == 1 and fin.is_c(args[0]):
            return c(getattr(s, name)(args[0][1]))
        if name in ("split", "partition", "rpartition", "rsplit") and len(args) <= 1 and all(fin.is_c(a) for a in args) and not kw:
            out, pos = [], 0
            for x in getattr(s, name)(*[a[1] for a in args]):
                i = s.index(x, pos)
                out.append(self.span(toks, i, i + len(x)))
                pos = i + len(x)
            return ev.new("list" if "split" in name else "tuple", out)
        if name == "join" and len(args) == 1 and ev.items(args[0]) is not None:
            out = []
            for i, x in enumerate(ev.items(args[0])):
                out += (list(toks) if i else []) + list(self.toks(x))
            return word(*out)
        if name in ("lower", "upper"):
            r = getattr(s, name)()
            return b if r == s else word(("x", r))
        if name in ("count", "find", "index") and len(args) == 1 and self.istext(args[0]):
            raise fin.Opaque("position in an interface name")
        raise fin.Opaque(f"text method {name}")


def shapes(cls):
    nums = [("port",), ("slot", "port"), ("slot", "card", "port")] + ([("slot", "card", "processor", "port")] if "processor" in CLASSES[cls] else [])
    for ns in nums:
        for opt in itertools.product((False, True), repeat=3):
            yield ns, tuple(n for n, b in zip(("subinterface", "channel", "interface_class"), opt) if b)


def name_toks(ns, opts, gap="", sep=("l", SEP)):
    out = [("p", "prefix"), ("l", gap)]
    for i, n in enumerate(ns):
        out += ([sep] if i else []) + [("p", n)]
    lead = {"subinterface": ".", "channel": ":", "interface_class": " "}
    for o in opts:
        out += [("l", lead[o]), ("p", o)]
    return out


def describe(ns, opts):
    return "prefix + " + "/".join(ns) + "".join({"subinterface": ".", "channel": ":", "interface_class": " "}[o] + o for o in opts)


class Judge:
    def __init__(self, prog, res, cls):
        self.prog, self.res, self.cls = prog, res, cls
        self.fields = CLASSES[cls]

    def norm(self, W, ev, v):
        """the tokens a value denotes, or the constant itself"""
        if v is None or v == NONE:
            return None
        try:
            return word(*W.toks(v))
        except fin.Opaque:
            return ev.freeze(v)

    def want(self, ns, opts, f, sep):
        if f == "digit_separator":
            return sep if len(ns) > 1 else None
        if f == "prefix" or f in ns or f in opts:
            return comp(f)
        return None

    def loc(self, name):
        g = self.prog.find_method(self.cls, name) or self.prog.find_prop(self.cls, name)
        return g.loc() if g is not None else self.prog.cls(self.cls).name

    def rows(self, what, W, body):
        """the single-valued outcome of body on every row"""
        try:
            for ev, out in fin.rows(self.prog, body, W.cfg(), cap=400):
                if not fin.feasible(ev):
                    continue
                self.res.count("rows")
                yield ev, out
        except fin.Opaque as e:
            self.res.undec(f"{self.cls} {what}: {e}")

    def obj(self, ev, ns, opts, sep, name="x", over=None):
        ty = {}
        for f in self.fields:
            w = self.want(ns, opts, f, sep)
            if over and f in over:
                w = over[f]
            if w is None:
                v = NONE
            elif f in ("port", "subinterface", "channel") or self.cls == "CiscoIOSInterface" and f in ("slot", "card"):
                v = t("int", w)
            else:
                v = w
            ty["_" + f] = v
        ty.update({"initialized": c(True), "debug": c(False), "interface_name": NONE, "interface_dict": NONE})
        return ev.symbol(self.cls, name, ty)

    def check_fields(self, W, ev, o, ns, opts, sep, stage, path, only=None):
        for f in self.fields:
            if f == "digit_separator" and len(ns) == 1:
                continue
            try:
                got = self.norm(W, ev, ev.getattr(o, f))
            except fin.Raised as r:
                self.res.add(f"{self.cls}|{stage}|{f}", f"{self.cls}: reading {f} raises {r.name} after {stage}", self.loc(f), path)
                continue
            want = self.want(ns, opts, f, sep)
            self.res.count("component reads")
            if got != want:
                self.res.add(f"{self.cls}|{stage}|{f}", f"{self.cls}: {stage}: the {f} is {show(got)}, not {show(want)}", self.loc(stage_anchor(stage)), path)

    # -- stages
    def dict_form(self, W, ns, opts, path):
        sep = word(("p", "digit_separator"))

        def body(ev):
            x = self.obj(ev, ns, opts, sep)
            d = ev.call_func(self.prog.need_method(self.cls, "as_dict"), [x], {})
            items = ev.heap[d[1]]["items"] if d[0] == "ref" and ev.heap[d[1]]["kind"] == "dict" else None
            if items is None:
                raise fin.Opaque("as_dict does not return a dictionary display")
            keys = {k[1] for k, _ in items if fin.is_c(k)}
            for f in self.fields:
                if f not in keys:
                    self.res.add(f"{self.cls}|as_dict|{f}", f"{self.cls}.as_dict() does not list the {f}", self.loc("as_dict"), path)
            for k in keys - set(self.fields):
                self.res.add(f"{self.cls}|as_dict|extra {k}", f"{self.cls}.as_dict() lists {k!r}, which is no component", self.loc("as_dict"), path)
            for k, v in items:
                if fin.is_c(k) and k[1] in self.fields and not (k[1] == "digit_separator" and len(ns) == 1):
                    got, want = self.norm(W, ev, v), self.want(ns, opts, k[1], sep)
                    self.res.count("component reads")
                    if got != want:
                        self.res.add(f"{self.cls}|as_dict|{k[1]}", f"{self.cls}.as_dict(): {k[1]!r} is {show(got)}, not {show(want)}", self.loc("as_dict"), path)
            stage = "construction from the dictionary form"
            for stage, mk in ((stage, lambda: ev.instantiate(self.prog.classes[self.cls], [], {"interface_dict": ev.new("dict", items)})),
                              ("from_dict", lambda: ev.call_func(self.prog.need_method(self.cls, "from_dict"), [x, ev.new("dict", items)], {})),
                              ("construction from an interface", lambda: ev.instantiate(self.prog.classes[self.cls], [x], {}))):
                try:
                    y = mk()
                except fin.Raised as r:
                    self.res.add(f"{self.cls}|{stage}|raises", f"{self.cls}: {stage} raises {r.name}", self.loc(stage_anchor(stage)), path)
                    continue
                if y[0] != "ref":
                    raise fin.Opaque(f"{stage} yields no object")
                if ev.heap[y[1]]["cls"].name != self.cls:
                    self.res.add(f"{self.cls}|{stage}|class", f"{self.cls}: {stage} yields a {ev.heap[y[1]]['cls'].name}", self.loc(stage_anchor(stage)), path)
                    continue
                self.check_fields(W, ev, y, ns, opts, sep, stage, path)
            return NONE
        for ev, out in self.rows("dictionary form", W, body):
            if out[0] == "raise":
                self.res.add(f"{self.cls}|as_dict|raises", f"{self.cls}: the dictionary form raises {out[1]}", self.loc("as_dict"), path)

    def render(self, W, ns, opts, path):
        sep = word(("p", "digit_separator"))
        septok = ("p", "digit_separator")
        number = [k for k in name_toks(ns, (), sep=septok) if k != ("p", "prefix")]
        tail = [k for k in name_toks(ns, opts, sep=septok)][2 + 2 * len(ns) - 1:]
        full = word(*([("p", "prefix")] + number + tail))
        wants = {"render_as_string": full, "__str__": full, "name": full, "number": word(*number), "slot_card_port_subinterface_channel": word(*(number + tail))}
        for nm, want in wants.items():
            def body(ev):
                x = self.obj(ev, ns, opts, sep)
                m = self.prog.find_prop(self.cls, nm) or self.prog.find_method(self.cls, nm)
                if m is None:
                    raise fin.Opaque(f"no {nm}")
                return self.norm(W, ev, ev.call_func(m, [x], {}))
            for ev, out in self.rows(nm, W, body):
                if out != ("ret", want):
                    self.res.add(f"{self.cls}|{nm}", f"{self.cls}.{nm} renders {show(out[1]) if out[0] == 'ret' else out[1]} instead of {show(want)}", self.loc(nm), path)
        order = [f for f in self.fields if f not in ("prefix", "digit_separator")]
        for nm, fs in (("sort_list", order), ("number_list", [f for f in order if f in ("slot", "card", "processor", "port")])):
            def body(ev):
                x = self.obj(ev, ns, opts, sep)
                v = ev.getattr(x, nm)
                it = ev.items(v)
                if it is None:
                    raise fin.Opaque(f"{nm} is no list")
                return [self.norm(W, ev, y) for y in it]
            want = [self.want(ns, opts, f, sep) for f in fs]
            for ev, out in self.rows(nm, W, body):
                if out != ("ret", want):
                    got = out[1] if out[0] == "raise" else "[" + ", ".join(show(y) for y in out[1]) + "]"
                    missing = [f for f, w in zip(fs, want) if w is not None and (out[0] == "raise" or w not in out[1])]
                    self.res.add(f"{self.cls}|{nm}|{missing[0] if missing else 'order'}", f"{self.cls}.{nm} is {got}" + (f": the {missing[0]} is missing" if missing else ""), self.loc(nm), path)

    def parse(self, W, ns, opts, path):
        for gap in ("", " "):
            def body(ev):
                x = ev.instantiate(self.prog.classes[self.cls], [word(*name_toks(ns, opts, gap))], {})
                self.check_fields(W, ev, x, ns, opts, c(SEP), "parsing a name", path)
                return self.norm(W, ev, ev.call_func(self.prog.need_method(self.cls, "render_as_string"), [x], {}))
            for ev, out in self.rows("parsing a name", W, body):
                want = word(*name_toks(ns, opts))
                if out[0] == "raise":
                    self.res.add(f"{self.cls}|parsing a name|raises", f"{self.cls}: a name of the shape {describe(ns, opts)} is refused ({out[1]})", self.loc("parse_single_interface"), path)
                elif out[1] != want:
                    self.res.add(f"{self.cls}|parse and render", f"{self.cls}: a name of the shape {describe(ns, opts)} is rendered as {show(out[1])}", self.loc("render_as_string"), path)

    def setters(self, W, path):
        ns, opts = [s for s in shapes(self.cls)][-1]
        sep = word(("p", "digit_separator"))
        for f in self.fields:
            new = word(("p", f + "'"))

            def body(ev):
                x = self.obj(ev, ns, opts, sep)
                ev.setattr(x, f, t("int", new) if f in ("port", "subinterface", "channel") or f in ("slot", "card") and self.cls == "CiscoIOSInterface" else new)
                return [(g, self.norm(W, ev, ev.getattr(x, g))) for g in self.fields]
            for ev, out in self.rows(f"{f} setter", W, body):
                if out[0] == "raise":
                    self.res.add(f"{self.cls}|set {f}|raises", f"{self.cls}: storing a {f} raises {out[1]}", self.loc(f), path)
                    continue
                for g, v in out[1]:
                    want = new if g == f else self.want(ns, opts, g, sep)
                    self.res.count("component reads")
                    if v != want:
                        self.res.add(f"{self.cls}|set {f}|{g}", f"{self.cls}: after storing a {f} the {g} reads {show(v)}, not {show(want)}", self.loc(f), path)

    def sorting(self, W, path):
        """two names that differ in one component only are neither equal nor unordered"""
        sep = word(("p", "digit_separator"))
        for f in self.fields:
            if f in ("prefix", "digit_separator"):
                continue
            full = [s for s in shapes(self.cls)][-1]
            cases = [(full, word(("p", f)), word(("p", f + "'")))]
            if f in full[1] or f in ("card", "processor"):
                cases.append(((tuple(n for n in full[0] if f not in ("card", "processor") or n != "processor" or f == "processor"), full[1]), None, comp(f)))
            for (ns, opts), a, b in cases:
                def body(ev):
                    x, y = self.obj(ev, ns, opts, sep, "x", {f: a}), self.obj(ev, ns, opts, sep, "y", {f: b})
                    lt, gt = self.prog.need_method(self.cls, "__lt__"), self.prog.need_method(self.cls, "__gt__")
                    r = [ev.truth(ev.call_func(lt, [x, y], {})), ev.truth(ev.call_func(lt, [y, x], {})), ev.truth(ev.call_func(gt, [x, y], {})), ev.truth(ev.call_func(gt, [y, x], {}))]
                    eq = ev.truth(ev.call_func(self.prog.need_method(self.cls, "__eq__"), [x, y], {}))
                    if a is None:
                        same = False
                    else:
                        va, vb = ev.heap[x[1]]["fields"]["_" + f], ev.heap[y[1]]["fields"]["_" + f]
                        same = ev.eq(va, vb)
                        wa, wb = word(*W.toks(va)), word(*W.toks(vb))
                        if W.text(W.toks(va)).isdecimal() and not ev.eq(wa, wb) == ev.eq(t("int", wa), t("int", wb)) == same:
                            raise fin.Infeasible()      # leading zeros are no part of a name
                    return r, eq, same
                for ev, out in self.rows(f"sorting by {f}", W, body):
                    if out[0] == "raise":
                        self.res.add(f"{self.cls}|sorting|{f} raises", f"{self.cls}: comparing names that differ in the {f} raises {out[1]}", self.loc("__lt__"), path)
                        continue
                    r, eq, same = out[1]
                    self.res.count("comparisons")
                    if same != eq or (r[0] or r[1]) == same or (r[2] or r[3]) == same or r[0] and r[1] or r[2] and r[3]:
                        self.res.add(f"{self.cls}|sorting|{f}", f"{self.cls}: two names that differ only in the {f} are {'equal or not ordered' if not same else 'ordered although the same'}", self.loc("_sort_key" if self.prog.find_method(self.cls, "_sort_key") else "sort_list"), path + ev.facts.show())


def stage_anchor(stage):
    return {"parsing a name": "parse_single_interface", "from_dict": "from_dict"}.get(stage, "update_internal_state")


def show(v):
    if v is None:
        return "None"
    if isinstance(v, tuple) and v[:2] == ("t", "word"):
        return "".join({"p": "<" + k[1] + ">", "x": "part of a component"}.get(k[0], k[1]) if k[0] != "l" else k[1] for k in v[2])
    return fin.show(v) if isinstance(v, tuple) else str(v)


def run(ctx):
    prog = ctx.prog
    res = Result("shape analysis of the component tables: every stage of parse, store, dictionary form, read back, render and sort is evaluated with opaque components, and each component must arrive where it belongs")
    for cls in CLASSES:
        prog.cls(cls)
        J = Judge(prog, res, cls)
        for label, rep in REPS[cls]:
            rep = dict(rep, digit_separator=SEP)
            for ns, opts in shapes(cls):
                path = [f"shape {describe(ns, opts)} ({label})"]
                res.count("shapes")
                W = Words(rep)
                J.dict_form(W, ns, opts, path)
                J.render(W, ns, opts, path)
                J.parse(W, ns, opts, path)
            J.setters(Words(rep), [label])
            J.sorting(Words(rep), [label])
    res.floor("component reads", 2500)
    return res
