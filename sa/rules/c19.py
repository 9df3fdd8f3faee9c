"""C19: orderings are consistent.

Decision tables (sa/fin.py) of __lt__/__gt__/__le__/__ge__ of every class that defines
one, over two and three arbitrary objects: mirror images, irreflexive, asymmetric,
transitive, <= and >= include equality; addresses against the order
(network, prefix length, host address); configuration lines against the line number;
ConfigList against its underlying list.
"""
import itertools

from .. import fin, addr
from ..fin import c, TRUE, FALSE
from ..paths import covered, looks
from ..report import Result
from ..srcmodel import AnalysisBroken, Program
from . import c20
from .c18 import Setup, ALIEN, has_pure

OPS = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
SIGN = {"__lt__": "<", "__gt__": ">", "__le__": "<=", "__ge__": ">="}


def ordered(prog):
    for n, k in sorted(prog.classes.items()):
        if any(o in k.methods for o in OPS):
            yield n


def cmpterms(ev, a, b, op):
    """an order of the terms a, b decided by (and refining) the row's facts"""
    return {"<": lambda: ev.sign(a, b, "<"), ">": lambda: ev.sign(b, a, "<"), "<=": lambda: ev.sign(a, b, "<="), ">=": lambda: ev.sign(b, a, "<=")}[op]()


def lexi(ev, xs, ys, op):
    for x, y in zip(xs, ys):
        if not ev.sign(x, y, "=="):
            return cmpterms(ev, x, y, op)
    return op in ("<=", ">=")


def judge(prog, res, only=None):
    S = Setup(prog)
    S.M = addr.Model(prog, empty=False)

    def table(label, body, alien=False, cap=6000):
        try:
            return [(ev, o) for ev, o in fin.rows(prog, body, S.cfg(alien), cap=cap) if fin.feasible(ev)]
        except fin.Opaque as e:
            res.undec(f"{label}: {e}")
            return []

    def run1(ev, g, x, y):
        return fin.outcome(ev, lambda: c(ev.truth(ev.call_func(g, [x, y], {}))))

    for n in ordered(prog):
        if only and n not in only:
            continue
        res.count("classes")
        G = {o: prog.find_method(n, o) for o in OPS}
        G = {o: g for o, g in G.items() if g is not None}
        eqm = prog.find_method(n, "__eq__")

        def spec(ev, a, b, op):
            """the order the property states for this class, or None"""
            if n in addr.MAX:
                f = lambda o: [S.M.atom(ev.heap[o[1]]["name"], w) for w in "NPD"]
                return lexi(ev, f(a), f(b), op)
            if n in ("BaseCfgLine",):
                return cmpterms(ev, ev.getattr(a, "linenum"), ev.getattr(b, "linenum"), op)
            if n == "ConfigList":
                return cmpterms(ev, ev.getattr(a, "_list"), ev.getattr(b, "_list"), op)
            return None

        for o, g in sorted(G.items()):
            # irreflexive / reflexive
            def self_(ev):
                a = S.sym(ev, n, "a")
                return c(ev.truth(ev.call_func(g, [a, a], {})))
            want = o in ("__le__", "__ge__")
            for ev, r in table(f"{n}.{o} with itself", self_):
                res.count("rows")
                if r[0] == "ret" and r[1][1] != want:
                    res.add(f"{g.qual}|itself", f"{g.qual}: x {SIGN[o]} x is {r[1][1]}", g.loc(), ev.facts.show())
            mirror = G.get(OPS[o])

            def pair(ev):
                a, b = S.sym(ev, n, "a"), S.sym(ev, n, "b")
                ab, ba = run1(ev, g, a, b), run1(ev, g, b, a)
                mr = run1(ev, mirror, b, a) if mirror is not None else None
                e = None
                if want and eqm is not None and ab == ("ret", FALSE):
                    e = run1(ev, eqm, a, b)
                sp = spec(ev, a, b, SIGN[o]) if ab[0] == "ret" else None
                ev.stash = (ab, ba, mr, e, sp)
                return fin.NONE
            before = len(res.undecided)
            rows = table(f"{n}.{o}", pair)
            if len(res.undecided) > before and mirror is not None and o == min(o, OPS[o]):
                # not tabulated: the two directions must at least look at the same things
                la, lb = looks(prog, n, g), looks(prog, n, mirror)
                if la and lb and (covered(la, lb) or covered(lb, la)):
                    res.add(f"{n}|{min(SIGN[o], SIGN[OPS[o]])} mirror", f"{g.qual} compares {', '.join('.'.join(p) for p in sorted(la))} but {mirror.qual} compares {', '.join('.'.join(p) for p in sorted(lb))}", g.loc())
            for ev, r in rows:
                res.count("rows")
                if r[0] != "ret":
                    continue
                ab, ba, mr, e, sp = ev.stash
                why = ev.facts.show()
                if mr is not None and ab != mr and "ret" in (ab[0], mr[0]):
                    if ab[0] == mr[0] == "ret" or not has_pure(tuple(ev.facts.tr)):
                        res.add(f"{n}|{min(SIGN[o], SIGN[OPS[o]])} mirror", f"{g.qual} and {mirror.qual} are not mirror images: a {SIGN[o]} b gives {ab[1] if ab[0] == 'raise' else ab[1][1]}, b {SIGN[OPS[o]]} a gives {mr[1] if mr[0] == 'raise' else mr[1][1]}", g.loc(), why)
                if not want and ab == ba == ("ret", TRUE):
                    res.add(f"{g.qual}|asymmetric", f"{g.qual}: both a {SIGN[o]} b and b {SIGN[o]} a", g.loc(), why)
                if want and ab == ba == ("ret", FALSE) and n != "ConfigList":
                    res.add(f"{g.qual}|total", f"{g.qual}: neither a {SIGN[o]} b nor b {SIGN[o]} a", g.loc(), why)
                if e == ("ret", TRUE):
                    res.add(f"{g.qual}|includes equality", f"{g.qual}: equal objects are not {SIGN[o]} each other", g.loc(), why)
                if sp is not None:
                    res.count("rows compared with the specified order")
                    if ab[1][1] != sp:
                        res.add(f"{g.qual}|order", f"{g.qual}: a {SIGN[o]} b is {ab[1][1]} where the specified order says {sp}", g.loc(), why)
                else:
                    res.count("rows checked for mirror/asymmetry")

            def triple(ev):
                a, b, d = (S.sym(ev, n, x) for x in "abd")
                r1 = run1(ev, g, a, b)
                if r1 != ("ret", TRUE):
                    return fin.NONE
                r2 = run1(ev, g, b, d)
                if r2 != ("ret", TRUE):
                    return fin.NONE
                return c(run1(ev, g, a, d) != ("ret", FALSE))
            if n not in addr.MAX:      # there the specified order decides it
                for ev, r in table(f"{n}.{o} transitive", triple):
                    res.count("rows")
                    if r == ("ret", FALSE):
                        res.add(f"{g.qual}|transitive", f"{g.qual}: a {SIGN[o]} b and b {SIGN[o]} c but not a {SIGN[o]} c", g.loc(), ev.facts.show())

            if n == "ConfigList":
                def plain(ev):
                    a = S.sym(ev, n, "a")
                    ab = run1(ev, g, a, ALIEN)
                    sp = cmpterms(ev, ev.getattr(a, "_list"), ALIEN, SIGN[o])
                    ev.stash = (ab, sp)
                    return fin.NONE
                for ev, r in table(f"{n}.{o} with a list", plain, alien=True):
                    if r[0] != "ret":
                        continue
                    ab, sp = ev.stash
                    res.count("rows compared with the specified order")
                    if ab[0] == "ret" and ab[1][1] != sp:
                        res.add(f"{g.qual}|plain list", f"{g.qual}: comparing with a plain list gives {ab[1][1]} where the lists compare {sp}", g.loc(), ev.facts.show())


GOOD = """
class A:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def __lt__(self, o):
        if self.x == o.x:
            return self.y < o.y
        return self.x < o.x
    def __gt__(self, o):
        return o.x < self.x or (self.x == o.x and self.y > o.y)
class BaseCfgLine:
    def __init__(self, linenum):
        self.linenum = linenum
    def __lt__(self, o):
        return True if self.linenum < o.linenum else False
"""
BAD = """
class A:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def __lt__(self, o):
        return self.x < o.x or self.y < o.y
    def __gt__(self, o):
        if self.x == o.x:
            return self.y >= o.y
        return self.x > o.x
class BaseCfgLine:
    def __init__(self, linenum):
        self.linenum = linenum
    def __lt__(self, o):
        return self.linenum <= o.linenum
    def __le__(self, o):
        return self.linenum < o.linenum
    def __eq__(self, o):
        return self.linenum == o.linenum
"""


def selftest():
    r = Result("x")
    judge(Program.from_source(GOOD), r)
    if r.findings or r.undecided:
        raise AnalysisBroken(f"C19 self-test: {[f.key for f in r.findings]} {r.undecided}")
    r = Result("x")
    judge(Program.from_source(BAD), r)
    keys = {f.key for f in r.findings}
    need = {"asymmetric", "itself", "includes equality", "order", "< mirror", "transitive"}
    if not need <= {k.split("|")[1] for k in keys}:
        raise AnalysisBroken(f"C19 self-test found only {sorted(keys)}")


def run(ctx):
    res = Result("Decision tables of the ordering methods of every class over two and three arbitrary objects.")
    judge(ctx.prog, res)
    c20.definitions(ctx.prog, res, only=("as_decimal", "as_decimal_network"))
    res.floor("classes", 5)
    res.floor("rows compared with the specified order", 20)
    res.assumptions += ["compared keys are totally ordered values", "as_decimal, as_decimal_network and prefixlen of an address describe one network (checked by C21 for the alternative names)"]
    return res
