"""C27: presence flags agree with the values they announce; same command, same pattern.

Flag and value accessor of a line model are put in one decision table whose atomic
facts are "some line in this scope matches this language" (patterns with equal
languages share the fact); a row in which the two disagree is reported when some
configuration satisfies it, which language inclusion decides.  Accessors of one name
on several platforms are compared as languages, of the whole line and of the part
they capture.
"""
import ast
import re

from .. import fin, rx
from ..fin import c, t, TRUE, FALSE, NONE
from ..report import Result
from ..srcmodel import AnalysisBroken, Program
from .c23 import sites_of, param_node, dict_node

MATCHERS = {"re_match_iter_typed": "iter", "re_match_typed": "self", "re_match": "self"}
# flags whose value accessor has another name; "not": the flag announces the absence
EXTRA = {"has_xconnect": "xconnect_vc", "has_ip_hsrp": "hsrp_ip_addr", "has_hsrp_authentication_md5": "hsrp_authentication_md5_keychain",
         "has_authentication_md5": "authentication_md5_keychain"}
EXTRA_IN = {("HSRPInterfaceGroup", "has_hsrp_track"): "interface_tracking"}
# layer-2 access lists are announced for switch ports only
GIVEN = {"has_mac_accessgroup_in": "is_switchport", "has_mac_accessgroup_out": "is_switchport"}
LINE_MODELS = ("models_cisco", "models_nxos", "models_iosxr", "models_asa", "models_junos", "ccp_abc", "m")


class Langs:
    """pattern texts up to equality of the lines they match"""

    def __init__(self):
        self.reps = []
        self.memo = {}
        self.src = {}        # (language, group) -> patterns it is captured by
        self.nn = {}

    def nonneg(self, lk, g):
        """the captured text is a number without a sign"""
        if (lk, g) not in self.nn:
            self.nn[(lk, g)] = False
            try:
                ok = True
                for s, fl in self.src.get((lk, g), ()):
                    gi = g[1]
                    gi = rx.groups(s, fl)[1][gi] if isinstance(gi, str) else gi
                    al = rx.alphabet_for(rx.parse(s, fl), rx.parse(r"\d+", 0))
                    ok = ok and rx.included(rx.group_nfa(s, fl, gi, al), rx.whole_nfa(r"[\d.]+", 0, al)) is None
                self.nn[(lk, g)] = ok and bool(self.src.get((lk, g)))
            except Exception:
                pass
        return self.nn[(lk, g)]

    def key(self, s, flags):
        if (s, flags) in self.memo:
            return self.memo[(s, flags)]
        for i, (a, b) in enumerate(self.reps):
            try:
                if rx.differ(a, b, s, flags) is None:
                    self.memo[(s, flags)] = i
                    return i
            except Exception:
                continue
        self.reps.append((s, flags))
        self.memo[(s, flags)] = len(self.reps) - 1
        return len(self.reps) - 1

    def beyond(self, i, others):
        """a line matching i and none of the others; False when there is none, None when not decided"""
        s, fl = self.reps[i]
        try:
            if not others:
                return rx.differ(s, fl, r"[^\s\S]", 0) or False
        except Exception:
            return "" if not others else None
        try:
            if any(self.reps[j][1] != fl for j in others) or fl & re.X:
                return None
            u = "|".join(f"(?:{self.reps[j][0]})" for j in others)
            w = rx.differ(u, fl, f"{u}|(?:{s})", fl)
            return False if w is None else w
        except Exception:
            return None


def pattern_of(v):
    if v[0] == "c" and isinstance(v[1], str):
        return v[1], 0
    if v[0] == "t" and v[1] == "call" and v[2] == "re.compile" and v[3] and v[3][0][0] == "c" and isinstance(v[3][0][1], str):
        if len(v[3]) == 1 and not v[4]:
            return v[3][0][1], 0
        fl = v[3][1] if len(v[3]) == 2 else dict(v[4]).get("flags")
        if fl and fl[0] == "ext" and fl[1].split(".")[-1] in ("I", "IGNORECASE"):
            return v[3][0][1], re.I
    return None


def bind(f, args, kw):
    """parameter -> value for a bound method call, or None"""
    ps = list(f.params)
    if len(args) > len(ps) or any(k not in ps and k not in f.kwonly for k in kw):
        return None
    d = dict(zip(ps, args))
    d.update(kw)
    for p in ps + list(f.kwonly):
        if p not in d:
            e = f.defaults.get(p)
            if not isinstance(e, (ast.Constant, ast.Name)):
                return None
            d[p] = c(e.value) if isinstance(e, ast.Constant) else ("ext", e.id)
    return d


def convert(ev, ty, v):
    if ty in (NONE, ("ext", "str")) and v[0] == "t":
        return v
    if ty == ("ext", "bool") and v[0] == "t":
        return TRUE
    if ty[0] == "ext":
        return ev.external(ty[1], [v], {}, None)
    if ty[0] == "cls":
        return t("conv", ty[1].name, ev.freeze(v))
    if ty == NONE:
        return v
    raise fin.Opaque("result type")


def setup(prog, langs, given=None, shared=()):
    def func(ev, f, args, kw):
        if f.name not in MATCHERS or f.cls is None or f.cls.name != "BaseCfgLine" or not args:
            return None
        d = bind(f, args, kw)
        if d is None or "regex" not in d:
            return None
        p = pattern_of(d["regex"])
        if p is None:
            return None
        scope = MATCHERS[f.name]
        if scope == "iter":
            if d.get("recurse") not in (TRUE, FALSE):
                return None
            scope = "all" if d["recurse"] == TRUE else "direct"
        lk = langs.key(*p)
        hit = ev.fact(("match", scope, ev.freeze(args[0]), lk), f"a line in scope '{scope}' matches {p[0]!r}")
        gd = d.get("groupdict", NONE)

        def cap(g):
            langs.src.setdefault((lk, g), set()).add(p)
            return t("cap", scope, ev.freeze(args[0]), lk, g)
        if gd != NONE:
            if gd[0] != "ref" or ev.heap[gd[1]]["kind"] != "dict":
                return None
            out = []
            for k, ty in ev.heap[gd[1]]["items"]:
                out.append((k, convert(ev, ty, cap(k)) if hit else d["default"]))
            return ev.new("dict", out)
        ty = d.get("result_type", ("ext", "str"))
        if hit:
            return convert(ev, ty, cap(d.get("group", c(1))))
        if f.name == "re_match" or d.get("untyped_default") == TRUE:
            return d["default"]
        return convert(ev, ty, d["default"])

    def attr(ev, v, name):
        if given and v[0] == "ref" and ev.heap[v[1]].get("name") == "a" and name == given:
            return TRUE
        if name in shared and v[0] == "ref" and ev.heap[v[1]].get("name") == "a":
            return t("pure", name, (("sym", "a"),))
        return None

    def truth(ev, v):
        # the truth of a list, text or dictionary is its length being positive
        if v[0] == "t" and v[1] == "pure":
            return not ev.sign(t("len", v), c(0), "==")
        return None

    def rng(k):
        if k[0] == "t" and k[1] == "len":
            return (0, None)
        if k[0] == "t" and k[1] in ("int", "float") and k[2][:2] == ("t", "cap") and langs.nonneg(k[2][4], k[2][5]):
            return (0, None)
        return None
    return {"func": func, "attr": attr, "truth": truth, "range": rng, "soft": True, "isint": lambda v: False}


def read(ev, prog, cls, name, a):
    if prog.find_prop(cls, name) is not None:
        return ev.getattr(a, name)
    return ev.call_func(prog.find_method(cls, name), [a], {})


def unknowns(x, out):
    """uninterpreted terms in a value or fact"""
    if isinstance(x, tuple):
        if x[:1] == ("t",) and len(x) > 1:
            if x[1] in ("cap",):
                return
            if x[1] in ("len", "conv", "str", "int", "float", "bin"):
                for y in x[2:]:
                    unknowns(y, out)
                return
            out.add(x)
            return
        for y in x:
            unknowns(y, out)


POS = {"self": {"self"}, "direct": {"self", "child"}, "all": {"self", "child", "grandchild"}}


def witness(ev, langs):
    """lines that realise the row's match facts: list of texts, False when impossible, None when not decided"""
    pos = [(k[1], k[2], k[3]) for k, b in ev.facts.tr.items() if k[0] == "match" and b]
    neg = [(k[1], k[2], k[3]) for k, b in ev.facts.tr.items() if k[0] == "match" and not b]
    if len({x[1] for x in pos + neg}) > 1 or len([x for x in pos if x[0] == "self"]) > 1:
        return None
    out = []
    for sc, _, i in pos:
        best = False
        for p in ("child", "grandchild", "self"):
            if p not in POS[sc]:
                continue
            w = langs.beyond(i, sorted({j for s2, _, j in neg if p in POS[s2]}))
            if w is None:
                best = None
            elif w is not False:
                best = w
                break
        if best is False:
            return False
        if best is None:
            return None
        out.append(best)
    return out


def pairs_of(prog):
    for k in sorted(prog.classes.values(), key=lambda k: k.name):
        if k.module.name not in LINE_MODELS:
            continue
        for n in sorted(set(k.props) | set(k.methods)):
            if not n.startswith("has_"):
                continue
            v = EXTRA_IN.get((k.name, n)) or EXTRA.get(n) or n[4:]
            if prog.find_prop(k.name, v) is not None:
                yield k, n, v


def flags(prog, res, langs):
    for k, has, val in pairs_of(prog):
        res.count("flag and value pairs")
        r = Result("x")
        done = table(prog, r, langs, k, has, val)
        if not done and not r.findings:
            # once more with every other member of the model taken as it stands
            other = {n for x in k.mro for n in x.props} - {has, val}
            r2 = Result("x")
            if table(prog, r2, langs, k, has, val, other) or r2.findings:
                r, done = r2, not r2.undecided
        for f in r.findings:
            res.add(f.key, f.msg, f.where, f.path)
        for u in r.undecided:
            res.undec(u)
        res.count("rows compared", r.counts.get("rows compared", 0))
        if done:
            res.count("pairs decided on every row")


def table(prog, res, langs, k, has, val, shared=()):
    """decide one pair; True when every row was decided"""
    p = prog.find_prop(k.name, has) or prog.find_method(k.name, has)

    def body(ev):
        a = ev.symbol(k.name, "a")
        ev.depth = 1
        h = fin.outcome(ev, lambda: read(ev, prog, k.name, has, a))
        try:
            raw = read(ev, prog, k.name, val, a)
            v = ("ret", ev.freeze(raw))
            tv = ev.truth(raw)
        except fin.Raised as r:
            v, tv = ("raise", r.name), None
        ev.stash = (h, v, tv)
        return NONE
    try:
        for ev, o in fin.rows(prog, body, setup(prog, langs, GIVEN.get(has), shared), 600):
            if not fin.feasible(ev) or o[0] == "raise":
                continue
            res.count("rows compared")
            h, v, tv = ev.stash
            if h[0] == "raise" and v[0] == "raise":
                continue
            if h[0] == "raise" or v[0] == "raise" or h[1] not in (TRUE, FALSE):
                res.undec(f"{k.name}.{has}: {fin.show(h[1]) if h[0] == 'ret' else 'raises'} / {fin.show(v[1])[:60] if v[0] == 'ret' else 'raises'}")
                continue
            b = h[1] == TRUE
            if b == tv:
                continue
            un = set()
            for f in list(ev.facts.tr) + list(ev.facts.val) + [x for key in ev.facts.iv for x, _ in key]:
                if f[0] != "match":
                    unknowns(f, un)
            unknowns(v[1], un)
            anym = any(x[0] == "match" for x in ev.facts.tr)
            if v[1][0] == "c" and v[1][1]:
                res.undec(f"{k.name}.{val}: the value {v[1][1]!r} may be a default")
                continue
            # a captured zero or empty text cannot be told from the unconfigured value
            if b and not tv and (v[1][0] == "t" and v[1][1] != "pure" or v[1][0] == "lin"):
                continue
            w = witness(ev, langs)
            if w is False:
                continue
            if len(un) > 1 or un and anym or w is None:
                res.undec(f"{k.name}.{has}/{val}: disagreement under {'; '.join(ev.facts.show())[:200]}")
                continue
            res.add(f"{k.name}.{has}|{val}", f"{k.name}.{has} is {b} while {k.name}.{val} {'reports a value' if tv else 'reports nothing'}" + (f" (configuration line {w[0]!r})" if w else ""),
                    p.loc(), ev.facts.show())
    except fin.Opaque as e:
        res.undec(f"{k.name}.{has}/{val}: {e}")
    return not res.undecided and not res.findings


# commands that really are written differently on that platform (accessor -> models whose command differs from the others')
DIFFER = {
    "has_hsrp_usebia": {"BaseNXOSIntfLine"}, "has_hsrp_preempt": {"BaseNXOSIntfLine"}, "has_mpls": {"BaseNXOSIntfLine"},
    "hsrp_group": {"BaseNXOSIntfLine"}, "hsrp_hello_timer": {"BaseNXOSIntfLine"}, "hsrp_hold_timer": {"BaseNXOSIntfLine"},
    "hsrp_ip_addr": {"BaseNXOSIntfLine"}, "hsrp_ip_mask": {"BaseNXOSIntfLine"}, "hsrp_priority": {"BaseNXOSIntfLine"}, "hsrp_track": {"BaseNXOSIntfLine"},
    "hsrp_authentication_md5_keychain": {"BaseNXOSIntfLine"},
    "ip_helper_addresses": {"BaseNXOSIntfLine"}, "ipv6_dhcp_server": {"BaseNXOSIntfLine"},
    "ipv4_addr": {"BaseASAIntfLine", "BaseIOSXRIntfLine", "BaseNXOSIntfLine"}, "ipv4_netmask": {"BaseASAIntfLine", "BaseIOSXRIntfLine", "BaseNXOSIntfLine"},
    "ipv4_addr_object": {"BaseASAIntfLine", "BaseIOSXRIntfLine", "BaseNXOSIntfLine"},
    "vrf": {"BaseIOSXRIntfLine", "BaseNXOSIntfLine"},
}


def group_of(prog, sites, f, n, kind):
    """the capture a typed-matcher call reads: int, name, or None when it reads several"""
    gd = param_node(prog, n, kind, "groupdict")
    if gd is not None and not (isinstance(gd[1], ast.Constant) and gd[1].value is None):
        d = dict_node(sites, f, gd[1])
        if d is not None and len(d.keys) == 1 and isinstance(d.keys[0], ast.Constant):
            return d.keys[0].value
        return None
    g = param_node(prog, n, kind, "group")
    return g[1].value if g is not None and isinstance(g[1], ast.Constant) else None


def platforms(ctx_sites, prog, res):
    by = {}
    for f, m, n, kind, e, texts in ctx_sites.sites:
        if f is None or f.cls is None or f.kind != "property" or not (f.module.name.startswith("models_") or f.module.name == "m"):
            continue
        if "Intf" not in f.cls.name or kind.split(".")[-1] not in MATCHERS:
            continue
        by.setdefault(f.name, {}).setdefault(f.cls.name, []).append((f, n, kind, {x for x in texts if x is not None}))
    for nm, d in sorted(by.items()):
        ks = [k for k in sorted(d) if k not in DIFFER.get(nm, ())]
        if len(ks) < 2:
            continue
        shape = {}
        for k in ks:
            ss = d[k]
            if any(len(ts) != 1 or not next(iter(ts)).exact for *_, ts in ss):
                res.undec(f"{k}.{nm}: a pattern is not constant")
                continue
            shape[k] = [(next(iter(ts)), group_of(prog, ctx_sites, f, n, kind)) for f, n, kind, ts in ss]
        ks = [k for k in ks if k in shape]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if len(shape[a]) != len(shape[b]):
                    res.undec(f"{nm}: {a} reads {len(shape[a])} patterns, {b} {len(shape[b])}")
                    continue
                res.count("same-name accessors compared")
                try:
                    w = lang_diff(shape[a], shape[b])
                except rx.Unsupported as e:
                    res.undec(f"{nm}: {a} / {b}: {e}")
                    continue
                if w is not None:
                    # the odd one out is the one that differs from a third platform
                    odd = a
                    for x in ks:
                        if x not in (a, b) and len(shape[x]) == len(shape[a]):
                            try:
                                if lang_diff(shape[x], shape[a]) is None:
                                    odd = b
                            except rx.Unsupported:
                                pass
                    f = d[odd][0][0]
                    res.add(f"{nm}|{odd}|{w[0]}", f"{a}.{nm} and {b}.{nm} read the same command but {w[1]}", f.loc(d[odd][0][1]),
                            [f"{k}: {x.s}" for k in (a, b) for x, _ in shape[k]])


def lang_diff(A, B):
    def union(xs):
        fl = {x.flags for x, _ in xs}
        if len(xs) > 1 and (len(fl) > 1 or any(x.flags & re.X or re.search(r"\(\?P=|\\\d", x.s) for x, _ in xs)):
            raise rx.Unsupported("patterns that cannot be joined")
        return re.sub(r"\(\?P<\w+>", "(", "|".join(f"(?:{x.s})" for x, _ in xs)) if len(xs) > 1 else xs[0][0].s, xs[0][0].flags
    try:
        w = rx.differ(*union(A), *union(B))
    except rx.Unsupported:
        raise
    except Exception as e:
        raise rx.Unsupported(str(e))
    if w is not None:
        return "line", f"only one of them recognises {w!r}"
    if len(A) == 1 == len(B) and A[0][1] is not None and B[0][1] is not None:
        (x, g), (y, h) = A[0], B[0]
        gi = lambda p, q: rx.groups(p.s, p.flags)[1].get(q) if isinstance(q, str) else q      # noqa: E731
        try:
            al = rx.alphabet_for(rx.parse(x.s, x.flags), rx.parse(y.s, y.flags))
            g, h = gi(x, g), gi(y, h)
            if g is None or h is None:
                return None
            na, nb = rx.group_nfa(x.s, x.flags, g, al), rx.group_nfa(y.s, y.flags, h, al)
            if na.inexact or nb.inexact:
                return None
            for p, q in ((na, nb), (nb, na)):
                w = rx.included(p, q)
                if w is not None:
                    return "capture", f"they capture different parts of it: only one can capture {w!r}"
        except rx.Unsupported:
            return None
    return None


SELF = '''
import re
class BaseCfgLine:
    def re_match_iter_typed(self, regex, group=1, result_type=str, default="", untyped_default=False, groupdict=None, recurse=True):
        mm = re.search(regex, self.text)
        for x in self.all_children:
            pass
        return result_type(default)
class M(BaseCfgLine):
    @property
    def mtu(self):
        return self.re_match_iter_typed(r"^\\s*mtu\\s+(\\d+)$", result_type=int, default=0)
    @property
    def has_mtu(self):
        %s
'''
CASES = [
    ("return bool(self.mtu)", 0),
    ("return self.mtu != 0", 0),
    ("if self.mtu > 0:\n            return True\n        return False", 0),
    ('return self.re_match_iter_typed(r"^[ \\t\\n\\r\\f\\v]*mtu\\s\\s*([0-9]+)$", result_type=bool, default=False)', None),
    ('return self.re_match_iter_typed(r"^\\s*mtu\\s+(\\d+)$", result_type=bool, default=False)', 0),
    ('return self.re_match_iter_typed(r"^\\s*mtu\\s+(\\d+)$", result_type=bool, default=False, recurse=False)', 1),
    ('return self.re_match_iter_typed(r"^\\s*mtu\\s+(\\d+)\\s*$", result_type=bool, default=False)', 1),
    ('return self.re_match_iter_typed(r"^\\s*mtu\\s(\\d+)$", result_type=bool, default=False)', 1),
    ("return self.mtu > 1500", 1),
    ("return not self.mtu", 1),
]


def selftest():
    for body, bad in CASES:
        p = Program.from_source(SELF % body)
        r = Result("x")
        flags(p, r, Langs())
        if bad is not None and bool(r.findings) != bool(bad):
            raise AnalysisBroken(f"C27 self-test: {body}: {[f.msg for f in r.findings]} {r.undecided}")


def run(ctx):
    res = Result("flag/value decision tables over match facts; language comparison of same-name accessors across platforms")
    flags(ctx.prog, res, Langs())
    platforms(sites_of(ctx), ctx.prog, res)
    res.floor("flag and value pairs", 45)
    res.floor("pairs decided on every row", 35)
    res.floor("same-name accessors compared", 50)
    return res
