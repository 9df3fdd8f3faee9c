"""C22: every syntax is handled everywhere a syntax is chosen.

1. Decision tables (sa/fin.py): the functions that turn text into line objects, for every
   supported syntax, both factory settings and an arbitrary outcome of each class's own
   "does this apply" question: the object is built by a class of that syntax which said yes,
   the catch-all class is asked last and always says yes; an unsupported name raises.
   The constructors of the parser, the line list and the differ: an unsupported name
   raises, a supported one reaches the construction (and, for the differ, the diff).
2. Binding: one calling convention for is_object_for and for the line constructors.
3. Dataflow: every call of a function that takes a syntax is given the caller's own.
4. Names: a line model names only classes of its own syntax; code outside the models
   builds a syntax-specific line only under a test of that syntax.
"""
import ast

from .. import fin
from ..fin import c, t, NONE, TRUE, FALSE
from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted
from .c17 import bind_error, call_shape, init_of

MODEL = {"ios": "models_cisco", "nxos": "models_nxos", "iosxr": "models_iosxr", "asa": "models_asa", "junos": "models_junos"}
# names that are no syntax: unrelated, part of a name, other spellings, nothing
BAD = ("no-such-syntax", "os", "IOS", "iosx", "ios ", "")
BASE = "BaseCfgLine"
PARSER, LINES, DIFFER = "CiscoConfParse", "ConfigList", "HDiff"


def syntax_of(cls):
    for s, m in MODEL.items():
        if cls.module.name == m:
            return s
    return None


def is_line(cls):
    return any(k.name == BASE for k in cls.mro)


class Cfg:
    """an arbitrary line; what a class answers and builds is recorded"""

    def __init__(self, real=()):
        self.asked = []      # classes asked, in order
        self.built = []      # (class, args, kw)
        self.real = set(real)
        self.lists = []      # (class, args, kw) of parser / line-list objects
        self.hits = set()    # names of opaque methods reached

    def cfg(self):
        return {"func": self.func, "new": self.new, "isinstance": self.isinst, "isstr": lambda v: v == ("var", "line"), "notnone": lambda v: v[0] == "var" or v[:2] == ("t", "obj")}

    def func(self, ev, f, args, kw):
        if f.name == "is_object_for" and args and args[0][0] == "cls" and args[0][1].name not in self.real:
            k = args[0][1]
            self.asked.append(k.name)
            return c(ev.fact(("applies", k.name), f"{k.name} applies"))
        return None

    def new(self, ev, cls, args, kw):
        if is_line(cls):
            self.built.append((cls, args, kw))
            return ev.new("obj", cls=cls, fields={}, name="line object")
        if cls.name in (PARSER, LINES):
            self.lists.append((cls, args, kw))
            return t("obj", cls.name)
        return None

    def isinst(self, ev, v, ty):
        if v == ("var", "line"):
            return ty == ("ext", "str")
        if v == ("var", "idx"):
            return ty == ("ext", "int")
        return None


def tag(fn, key):
    return f"{fn}|{key}"


def bound(g, args, kw, slf=True):
    """parameter -> value of a recorded call"""
    d = dict(zip(g.params[1 if slf else 0:], args))
    d.update(kw)
    return d


def line_args(prog, res, where, f, cls, args, kw, syntax):
    g = init_of(prog, cls)
    if g is None:
        return
    base = prog.find_method(BASE, "__init__")
    d = bound(base if g.vararg and g.kwarg else g, args, kw)
    ok = {"all_lines": (("var", "all_lines"),), "line": (("var", "line"),), "comment_delimiter": (("var", "cd"),)}
    for p, vals in ok.items():
        res.count("constructor arguments followed")
        alt = {"line": "text", "all_lines": "all_text"}.get(p)
        v = d.get(p, d.get(alt))
        if p == "all_lines" and v is not None and v[0] == "ref":
            continue
        if v is None or v not in vals:
            res.add(tag(where, f"{syntax}|{p}"), f"{where} with syntax '{syntax}' builds a {cls.name} whose {p} is {'left out' if v is None else fin.show(v)}, not the {p} it was given", f.loc())


def table(res, label, prog, body, cf, cap=4000):
    try:
        out = []
        for ev, o in fin.rows(prog, body, cf, cap=cap):
            out.append((ev, o))
        return out
    except fin.Opaque as e:
        res.undec(f"{label}: {e}")
        return None


def call_vals(f, vals, syntax):
    """keyword arguments for a call of f: known names get the arbitrary values, the rest their defaults"""
    kw = {}
    for p in f.params:
        if p in vals:
            kw[p] = vals[p]
        elif p == "syntax":
            kw[p] = c(syntax)
    return kw


def builders(prog, res):
    for fname, facs in (("config_line_factory", (None,)), ("cfgobj_from_text", (TRUE, FALSE))):
        f = next((x for q, x in sorted(prog.funcs.items()) if x.name == fname and x.cls is None), None)
        if f is None:
            res.undec(f"{fname} is not there")
            continue
        for fac in facs:
            for syn in list(MODEL) + list(BAD):
                what = f"{fname}(syntax='{syn}'{'' if fac is None else f', factory={fac[1]}'})"
                rec = {}

                def body(ev, rec=rec, syn=syn, fac=fac):
                    h = Cfg()
                    ev.cfg.update(h.cfg())
                    rec["h"] = h
                    ev.h = h
                    al = ev.new("list", [])
                    kw = call_vals(f, {"all_lines": al, "text_list": al, "line": ("var", "line"), "txt": ("var", "line"), "idx": ("var", "idx"), "comment_delimiter": ("var", "cd")}, syn)
                    ev.cfg["isinstance"] = lambda e, v, ty, o=h.isinst: (ty == ("ext", "str")) if v == ("var", "cd") else o(e, v, ty)
                    if fac is not None:
                        kw["factory"] = fac
                    r = ev.call_func(f, [], kw)
                    return r
                rs = table(res, what, prog, body, {})
                if rs is None:
                    continue
                none_said_yes = False
                for ev, o in rs:
                    res.count("rows of the line builders")
                    h = ev.h
                    if syn in BAD:
                        if o[0] != "raise":
                            res.add(tag(fname, "unsupported syntax accepted"), f"{fname} accepts {syn!r}, which is no supported syntax, instead of raising", f.loc())
                        continue
                    if o[0] == "raise":
                        res.add(tag(fname, f"{syn}|raises {o[1]}"), f"{what} raises {o[1]} for a line it should build", f.loc(), ev.facts.show()[-4:])
                        continue
                    v = o[1]
                    cls = ev.heap[v[1]]["cls"] if v[0] == "ref" and ev.heap[v[1]]["kind"] == "obj" else None
                    if cls is None:
                        res.add(tag(fname, f"{syn}|no line object"), f"{what} returns {fin.show(ev.freeze(v))} instead of a line object", f.loc(), ev.facts.show()[-4:])
                        continue
                    if syntax_of(cls) != syn:
                        if all(not b for k, b in ev.facts.tr.items() if k[0] == "applies") and h.asked:
                            none_said_yes = True       # unreachable when the catch-all always applies
                            continue
                        res.add(tag(fname, f"{syn}|{cls.name}"), f"{what} builds a {cls.name}, a class of {syntax_of(cls)}", f.loc(), ev.facts.show()[-4:])
                        continue
                    said = ev.facts.tr.get(("applies", cls.name))
                    if h.asked and said is not True and any(b for k, b in ev.facts.tr.items() if k[0] == "applies"):
                        res.add(tag(fname, f"{syn}|{cls.name} did not apply"), f"{what} builds a {cls.name} although that class did not claim the line", f.loc(), ev.facts.show()[-4:])
                    b = [x for x in h.built if x[0] is cls]
                    if b:
                        line_args(prog, res, fname, f, *b[-1], syn)
                if syn not in BAD:
                    check_order(prog, res, f, fname, syn, fac, rs, none_said_yes)


def always(prog, res, k, memo={}):
    """'yes' when the class claims every line, 'no' when it can decline, None when undecided"""
    g = prog.find_method(k.name, "is_object_for")
    if g is None:
        return None
    try:
        outs = set()
        for ev, o in fin.rows(prog, lambda ev: ev.call_func(g, [("cls", k)], {"all_lines": ("var", "all_lines"), "line": ("var", "line")}),
                              {"isstr": lambda v: v == ("var", "line"), "isinstance": lambda ev, v, ty: (ty == ("ext", "str")) if v == ("var", "line") else None}):
            if o[0] == "raise":
                return None
            outs.add(o[1])
        return "yes" if outs == {TRUE} else "no" if all(x in (TRUE, FALSE) for x in outs) else None
    except fin.Opaque:
        return None


PLAIN = ("zz plain line of no kind", " zz plain indented line of no kind")


def claims(prog, k, line):
    """what the class answers about one line: True, False, an error, or None when undecided"""
    g = prog.find_method(k.name, "is_object_for")
    if g is None:
        return None
    try:
        outs = set()
        for ev, o in fin.rows(prog, lambda ev: ev.call_func(g, [("cls", k)], {"all_lines": ("var", "all_lines"), "line": line}),
                              {"isstr": lambda v: v == ("var", "line"), "isinstance": lambda ev, v, ty: (ty == ("ext", "str")) if v == ("var", "line") else None}):
            if o[0] == "raise":
                return o[1]
            outs.add(o[1] if fin.is_c(o[1]) else None)
        return outs.pop()[1] if len(outs) == 1 and None not in outs else None
    except fin.Opaque:
        return None


def check_order(prog, res, f, fname, syn, fac, rs, none_said_yes):
    longest = max((ev.h.asked for ev, o in rs), key=len, default=[])
    if not longest:
        return
    res.count("class orders examined")
    last = prog.classes[longest[-1]]
    res.sample(f"{syn}: {' > '.join(longest)}")
    want = MODEL[syn]
    for n in longest:
        if prog.classes[n].module.name != want:
            res.add(tag(fname, f"{syn}|asks {n}"), f"{fname} with syntax '{syn}' asks {n}, a class of {syntax_of(prog.classes[n])}", f.loc())
    for n in longest[:-1]:
        if always(prog, res, prog.classes[n]) == "yes":
            res.add(tag(fname, f"{syn}|{n} hides the rest"), f"{n} claims every line but is asked before {', '.join(longest[longest.index(n) + 1:])}", prog.classes[n].loc() if hasattr(prog.classes[n], "loc") else f.loc())
        for txt in PLAIN:
            if claims(prog, prog.classes[n], c(txt)) is True:
                res.add(tag(fname, f"{syn}|{n} is a catch-all"), f"{n} claims lines of no kind but is asked before {', '.join(longest[longest.index(n) + 1:])}: the catch-all must be asked last", f.loc())
                break
    a = always(prog, res, last)
    if a == "no" and none_said_yes:
        # another way to have a catch-all: the answers of the last class complement the others
        if can_decline_alone(prog, last, [prog.classes[n] for n in longest[:-1]]):
            res.add(tag(fname, f"{syn}|no catch-all"), f"a line that no {syn} class claims is given a class of another syntax: {last.name}, asked last, can decline it", f.loc())
        else:
            res.undec(f"{fname} {syn}: {last.name} declines some lines; whether another class claims each of them is not decided")
    elif a is None:
        res.undec(f"{fname} {syn}: whether {last.name} claims every line is not decided")
    else:
        res.count("catch-all classes confirmed")


def can_decline_alone(prog, last, others):
    """the last class declines on a row on which no other class is asked through the same test"""
    g = prog.find_method(last.name, "is_object_for")
    rx = []
    try:
        for ev, o in fin.rows(prog, lambda ev: ev.call_func(g, [("cls", last)], {"all_lines": ("var", "all_lines"), "line": ("var", "line")}), {"isstr": lambda v: v == ("var", "line")}):
            if o == ("ret", FALSE):
                rx.append(ev)
    except fin.Opaque:
        return False
    helpers = [n.func.attr for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith("is_object_for")]
    # a catch-all written as "none of the special kinds" is taken to be the complement of the special classes
    return bool(rx) and not helpers


def constructors(prog, res):
    """an unsupported syntax raises in every public constructor; a supported one builds"""
    for cname in (PARSER, LINES, DIFFER):
        k = prog.classes.get(cname)
        g = init_of(prog, k) if k else None
        if g is None or "syntax" not in g.params:
            res.undec(f"{cname}.__init__ takes no syntax")
            continue
        for syn in list(MODEL) + list(BAD):
            def body(ev, syn=syn):
                h = Cfg()
                ev.h = h
                ev.calls = []

                def func(e, f, args, kw):
                    # the steps of the construction are recorded, not followed
                    if f.cls is not None and f.cls.name == cname and f.name != "__init__" and not f.name.startswith("__") and f.kind == "method":
                        e.calls.append((f.name, args[1:], kw))
                        if f.name.startswith(("check_", "is_", "has_")):
                            return TRUE
                        return t("step", f.qual)
                    if f.name == "configure_loguru":
                        return NONE
                    return h.func(e, f, args, kw)
                ev.cfg.update(h.cfg())
                ev.cfg["func"] = func
                ev.cfg["isinstance"] = lambda e, v, ty: True if v[:2] == ("t", "step") else None
                o = ev.new("obj", cls=k)
                lst = ev.new("list", [])
                kw = {}
                for p in g.params[1:]:
                    if p in ("config", "initlist", "before_config", "after_config"):
                        kw[p] = lst
                    elif p == "syntax":
                        kw[p] = c(syn)
                # a line list of a class with a foreign base: its own __init__ is all that matters
                ev.call_func(g, [o], kw)
                ev.obj = o
                return NONE
            label = f"{cname}(syntax='{syn}')"
            rs = table(res, label, prog, body, {"strict_attrs": False})
            if rs is None:
                continue
            for ev, o in rs:
                res.count("rows of the constructors")
                if syn in BAD:
                    if o[0] != "raise":
                        res.add(tag(cname, "unsupported syntax accepted"), f"{cname} accepts {syn!r}, which is no supported syntax, instead of raising", g.loc())
                    continue
                if o[0] == "raise":
                    res.add(tag(cname, f"{syn}|raises {o[1]}"), f"{label} raises {o[1]}", g.loc(), ev.facts.show()[-4:])
                    continue
                if cname == PARSER:
                    mk = [x for x in ev.h.lists if x[0].name == LINES]
                    g2 = init_of(prog, prog.classes[LINES])
                    for _, a, kw in mk:
                        d = bound(g2, a, kw)
                        if d.get("syntax", g2.defaults.get("syntax") and c(ast.literal_eval(g2.defaults["syntax"]))) != c(syn):
                            res.add(tag(cname, f"{syn}|line list syntax"), f"{label} builds its line list with syntax {fin.show(d.get('syntax', c('ios')))}", g.loc())
                    if not mk:
                        res.undec(f"{label}: no line list is built on a row")
                fld = ev.heap[ev.obj[1]]["fields"].get("syntax")
                if fld is not None and fld != c(syn):
                    res.add(tag(cname, f"{syn}|records another syntax"), f"{label} records the syntax as {fin.show(ev.freeze(fld))}", g.loc())
                if cname == DIFFER:
                    res.count("differ rows")
                    res_writers = writers(prog, k, "all_output_dicts")
                    if not any(n in res_writers for n, _, _ in ev.calls):
                        res.add(tag(cname, f"{syn}|no diff computed"), f"{label} computes no diff: none of {', '.join(sorted(res_writers))} is called, so every pair of configurations compares as equal", g.loc(), [f"calls: {', '.join(n for n, _, _ in ev.calls)}"])


def writers(prog, k, attr):
    """methods of k that store self.<attr>, directly or through a method they call"""
    out = {n for n, f in k.methods.items() if n != "__init__" and any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))}
    while True:
        new = {n for n, f in k.methods.items() if n not in out and n != "__init__" and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in out for x in ast.walk(f.node))}
        if not new:
            return out
        out |= new


def conventions(prog, res):
    """is_object_for(all_lines=, line=) on every class; line constructors take all_lines, line, comment_delimiter"""
    for n, k in sorted(prog.classes.items()):
        if not is_line(k) or n == BASE:
            continue
        own = k.methods.get("is_object_for")
        if own is not None:
            res.count("is_object_for methods")
            if own.kind != "classmethod":
                res.add(tag(n, "is_object_for|kind"), f"{n}.is_object_for is not a class method", own.loc())
            for a, kws in ((0, ["all_lines", "line"]), (2, [])):
                e = bind_error(own, a, kws, False, False, own.kind == "classmethod")
                if e:
                    res.add(tag(n, "is_object_for|signature"), f"{n}.is_object_for cannot be called like the others ({'all_lines=, line=' if kws else 'two positional arguments'}): {e}", own.loc())
                    break
            a = claims(prog, k, ("var", "line"))
            if a in ("TypeError", "NameError", "AttributeError"):
                res.add(tag(n, "is_object_for|fails"), f"{n}.is_object_for(all_lines=, line=) raises {a}", own.loc())
            if own.params[1:3] != ["all_lines", "line"] and not any(f.key == tag(n, "is_object_for|signature") for f in res.findings):
                res.add(tag(n, "is_object_for|signature"), f"{n}.is_object_for takes ({', '.join(own.params[1:3])}) where the others take (all_lines, line)", own.loc())
        if not any("is_object_for" in b.methods for b in k.mro if b.name != BASE):
            continue
        g = init_of(prog, k)
        if g is not None:
            res.count("line constructors")
            e = bind_error(g, 0, ["all_lines", "line", "comment_delimiter"], False, False, True)
            if e:
                res.add(tag(n, "constructor"), f"{n}() cannot be built with all_lines, line and comment_delimiter: {e}", g.loc())


def reachable(prog):
    """functions some other code of the package names, and every public one"""
    used = set()
    for q, f in prog.funcs.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                used.add((x.attr, q))
            elif isinstance(x, ast.Name):
                used.add((x.id, q))
    by = {}
    for n, q in used:
        by.setdefault(n, set()).add(q)
    return lambda f: not f.name.startswith("_") or f.name.startswith("__") or bool(by.get(f.name, set()) - {f.qual})


def own_syntax(e, f, depth=0):
    """the expression is the syntax of the caller: its parameter or attribute, or a local copy of one"""
    if isinstance(e, ast.Attribute):
        return e.attr in ("syntax", "_syntax")
    if isinstance(e, ast.BoolOp):
        return all(own_syntax(x, f, depth) for x in e.values)
    if isinstance(e, ast.IfExp):
        return own_syntax(e.body, f, depth) and own_syntax(e.orelse, f, depth)
    if isinstance(e, ast.Name) and depth < 4:
        if e.id in f.params + f.kwonly and not any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            return "syntax" in e.id
        vals = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id]
        return bool(vals) and all(own_syntax(v, f, depth + 1) for v in vals)
    return False


def has_syntax(prog, f):
    if "syntax" in f.params + f.kwonly:
        return True
    if f.cls is None:
        return False
    return any("syntax" in k.attrs or any(isinstance(x, ast.Attribute) and x.attr == "syntax" and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) for m in k.methods.values() for x in ast.walk(m.node)) for k in f.cls.mro)


def forwarding(prog, res):
    live = reachable(prog)
    for q, f in sorted(prog.funcs.items()):
        if f.outer is not None or not has_syntax(prog, f) or f.module.name.startswith("models_") or not live(f):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id not in f.params:
                if table_of_lines(prog, f, n.value.id):
                    res.count("uses of the class table")
                    if isinstance(n.slice, ast.Constant):
                        if not under_test(f.node, n, n.slice.value):
                            res.add(tag(q, f"fixed syntax {n.slice.value}"), f"{q} builds a line of syntax '{n.slice.value}' whatever syntax it was given", f.loc(n))
                    elif not own_syntax(n.slice, f):
                        res.undec(f"{f.file}:{n.lineno}: index of the class table not resolved")
            if not isinstance(n, ast.Call) or not isinstance(n.func, (ast.Name, ast.Attribute)):
                continue
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            g = None
            if isinstance(n.func, ast.Name):
                r = prog.resolve_name(f.module, nm)
                if r and r[0] == "func":
                    g, sh = r[1], 0
                elif r and r[0] == "class":
                    k = r[1]
                    if is_line(k) and syntax_of(k):
                        res.count("line objects built outside the models")
                        s = syntax_of(k)
                        if not under_test(f.node, n, s) and not fallback(prog, f, n):
                            res.add(tag(q, f"builds {k.name}"), f"{q} builds a {k.name} (syntax '{s}') whatever syntax it was given", f.loc(n), [ast.unparse(n)[:100]])
                        continue
                    g, sh = init_of(prog, k), 1
            elif isinstance(n.func.value, ast.Name) and f.params and n.func.value.id == f.params[0] and f.cls is not None:
                g, sh = prog.find_method(f.cls.name, nm), 1
            if g is None or "syntax" not in g.params + g.kwonly:
                continue
            a, kws, star, dstar = call_shape(n)
            res.count("calls that hand a syntax on")
            e = next((x.value for x in n.keywords if x.arg == "syntax"), None)
            if e is None and "syntax" in g.params:
                i = g.params.index("syntax") - sh
                e = n.args[i] if not star and i < len(n.args) else None
            if e is None:
                if not star and not dstar:
                    res.add(tag(q, f"{nm}|syntax left out"), f"{q} calls {nm}() without its syntax, which then is {ast.unparse(g.defaults['syntax']) if 'syntax' in g.defaults else 'missing'} whatever syntax the caller has", f.loc(n), [ast.unparse(n)[:100]])
            elif isinstance(e, ast.Constant):
                if e.value is not None and not under_test(f.node, n, e.value):
                    res.add(tag(q, f"{nm}|fixed syntax"), f"{q} calls {nm}() with the syntax fixed as {e.value!r}", f.loc(n), [ast.unparse(n)[:100]])
            elif not own_syntax(e, f):
                res.undec(f"{f.file}:{n.lineno}: the syntax handed to {nm}() is not resolved")


def table_of_lines(prog, f, name):
    r = prog.resolve_name(f.module, name)
    if not r or r[0] != "global":
        return False
    vals = r[1].globals.get(r[2] if len(r) > 2 else name, [])
    return len(vals) == 1 and isinstance(vals[0], ast.Dict) and vals[0].values and all(isinstance(v, ast.Name) and (prog.resolve_name(r[1], v.id) or ("", None))[0] == "class" and is_line(prog.resolve_name(r[1], v.id)[1]) for v in vals[0].values)


def under_test(root, node, syn):
    """node is inside a branch taken only for that syntax"""
    par = {ch: p for p in ast.walk(root) for ch in ast.iter_child_nodes(p)}
    x = node
    while x in par:
        p = par[x]
        if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test:
            for cmp_ in [y for y in ast.walk(p.test) if isinstance(y, ast.Compare) and len(y.ops) == 1]:
                txt = ast.unparse(cmp_)
                if "syntax" in txt and any(isinstance(z, ast.Constant) and z.value == syn for z in ast.walk(cmp_)):
                    inbody = x in p.body if isinstance(p, ast.If) else x is p.body
                    if isinstance(cmp_.ops[0], (ast.Eq, ast.In, ast.Is)) == inbody:
                        return True
        if isinstance(p, ast.match_case):
            if any(isinstance(z, ast.Constant) and z.value == syn for z in ast.walk(p.pattern)):
                return True
        x = p
    return False


def fallback(prog, f, n):
    """the factory's last statement, decided by the decision tables; what a handler does is not"""
    return f.name == "config_line_factory" and not any(x is n for h in ast.walk(f.node) if isinstance(h, ast.ExceptHandler) for x in ast.walk(h))


def names(prog, res):
    """a model names classes of its own syntax only"""
    for q, f in sorted(prog.funcs.items()):
        s = syntax_of(f) if hasattr(f, "module") else None
        if s is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = prog.resolve_name(f.module, n.id)
                if r and r[0] == "class" and is_line(r[1]):
                    res.count("line classes named in models")
                    o = syntax_of(r[1])
                    if o not in (None, s):
                        res.add(tag(q, f"names {r[1].name}"), f"{q} (syntax '{s}') uses {r[1].name}, a class of '{o}'", f.loc(n))
    for n, k in sorted(prog.classes.items()):
        s = syntax_of(k)
        if s and is_line(k):
            res.count("line classes")
            for b in k.mro[1:]:
                if is_line(b) and syntax_of(b) not in (None, s):
                    res.add(tag(n, f"derives from {b.name}"), f"{n} (syntax '{s}') derives from {b.name}, a class of '{syntax_of(b)}'", f"{k.module.file}:{k.node.lineno}")


def typos(prog, res):
    """names a syntax is compared with must be syntaxes (or prefixes of nothing else)"""
    for q, f in sorted(prog.funcs.items()):
        if f.module.name.startswith("models_") or f.outer is not None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                l, r = n.left, n.comparators[0]
                for a, b in ((l, r), (r, l)):
                    d = dotted(a)
                    if d and d.split(".")[-1] in ("syntax", "_syntax") and isinstance(b, ast.Constant) and isinstance(b.value, str) and b.value:
                        res.count("comparisons of a syntax")
                        if b.value not in MODEL:
                            res.add(tag(q, f"compares with {b.value}"), f"{q} compares the syntax with '{b.value}', which is not a syntax, so the branch is never taken", f.loc(n))


def judge(prog, res, parts=(builders, constructors, conventions, forwarding, names, typos)):
    for p in parts:
        p(prog, res)


def selftest():
    src = """
class BaseCfgLine:
    def __init__(self, all_lines=None, line="", comment_delimiter="!", **kwargs):
        self.line = line
class X(BaseCfgLine):
    @classmethod
    def is_object_for(cls, line, all_lines):
        return True
class P:
    def __init__(self, syntax="ios"):
        self.syntax = syntax
    def again(self):
        return P()
    def same(self):
        return P(syntax=self.syntax)
"""
    p = Program.from_source(src, "m")
    r = Result("x")
    judge(p, r, (conventions, forwarding, names, typos))
    if sorted(f.key for f in r.findings) != ["P.again|P|syntax left out", "X|is_object_for|signature"]:
        raise AnalysisBroken(f"C22 self-test: {[f.key for f in r.findings]}")


def run(ctx):
    res = Result("decision tables of syntax dispatch; binding of the line-class protocol; dataflow of the syntax argument")
    judge(ctx.prog, res)
    for k, n in (("rows of the line builders", 40), ("class orders examined", 5), ("catch-all classes confirmed", 4), ("rows of the constructors", 12), ("is_object_for methods", 30), ("line constructors", 30),
                 ("calls that hand a syntax on", 6), ("line classes named in models", 5), ("comparisons of a syntax", 5), ("constructor arguments followed", 15)):
        res.floor(k, n)
    return res
