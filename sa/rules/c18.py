"""C18: equality and hashing agree.

For every class of the package that defines equality, the decision tables of
__eq__, __ne__ and __hash__ (sa/fin.py) are compared row by row: eq is reflexive,
symmetric, false for an unrelated object, __ne__ is its negation, and on every row
on which two objects are equal their hash values are the same term under the row's
equalities.  Address classes are read through the address model (sa/addr.py).
"""
from .. import fin, addr
from ..fin import c, TRUE, FALSE
from ..paths import covered, looks
from ..report import Result
from ..srcmodel import AnalysisBroken, Program

ALIEN = ("var", "other")
# derived quantities that stand for themselves (their computation is not needed to compare two objects)
ATOMS = {"CiscoIOSInterface": {"sort_list", "number"}, "CiscoIOSXRInterface": {"sort_list", "number"}}


class Setup:
    def __init__(self, prog):
        self.prog = prog
        self.M = addr.Model(prog, empty=True)

    def cfg(self, alien=False):
        d = self.M.cfg()
        base = d["attr"]

        def attr(ev, v, name):
            if v[0] == "ref" and ev.heap[v[1]]["kind"] == "obj" and ev.heap[v[1]]["name"]:
                for k in ev.heap[v[1]]["cls"].mro:
                    if name in ATOMS.get(k.name, ()):
                        return fin.t("attr", ("sym", ev.heap[v[1]]["name"]), name)
            return base(ev, v, name)
        d["attr"] = attr
        if alien:
            d["alien"] = ALIEN
        return d

    def sym(self, ev, cls, name):
        if cls in addr.MAX:
            return self.M.symbol(ev, cls, name)
        return ev.symbol(cls, name)


def eq_classes(prog):
    for n, k in sorted(prog.classes.items()):
        if "__eq__" in k.methods:
            yield n


def has_pure(v):
    if isinstance(v, tuple):
        if v[:2] == ("t", "pure"):
            return True
        return any(has_pure(x) for x in v)
    return False


def judge(prog, res, only=None):
    S = Setup(prog)
    names = [n for n in eq_classes(prog) if only is None or n in only]

    def table(label, body, alien=False):
        try:
            return [(ev, o) for ev, o in fin.rows(prog, body, S.cfg(alien)) if fin.feasible(ev)]
        except fin.Opaque as e:
            res.undec(f"{label}: {e}")
            return []

    def eq(ev, g, x, y):
        r = fin.outcome(ev, lambda: ev.truth(ev.call_func(g, [x, y], {})) and TRUE or FALSE)
        return r

    for n in names:
        g = prog.find_method(n, "__eq__")
        h = prog.classes[n].methods.get("__hash__")
        ne = prog.find_method(n, "__ne__")
        res.count("classes")

        def refl(ev):
            a = S.sym(ev, n, "a")
            return ev.truth(ev.call_func(g, [a, a], {})) and TRUE or FALSE
        for ev, o in table(f"{n} reflexive", refl):
            res.count("rows")
            if o == ("ret", FALSE) and not ev.facts.tr:
                res.add(f"{g.qual}|reflexive", f"{g.qual}: an object need not equal itself", g.loc(), ev.facts.show())

        def pair(ev):
            a, b = S.sym(ev, n, "a"), S.sym(ev, n, "b")
            r1 = eq(ev, g, a, b)
            r2 = eq(ev, g, b, a)
            hs = None
            if h is not None and r1 == ("ret", TRUE):
                hs = (fin.outcome(ev, lambda: ev.call_func(h, [a], {})), fin.outcome(ev, lambda: ev.call_func(h, [b], {})))
                if hs[0][0] == hs[1][0] == "ret":
                    hs = (fin.canon(ev, hs[0][1]), fin.canon(ev, hs[1][1]))
                else:
                    hs = None
            rn = fin.outcome(ev, lambda: c(ev.truth(ev.call_func(ne, [a, b], {})))) if ne is not None else None
            ev.stash = (r1, r2, hs, rn)
            return fin.NONE
        before = len(res.undecided)
        rows = table(f"{n} pair", pair)
        def extra():
            # not tabulated: what the hash looks at must be something equality looks at
            more = covered(looks(prog, n, h), looks(prog, n, g))
            if more:
                res.add(f"{h.qual}|equal objects, different hashes", f"{h.qual} looks at {', '.join('.'.join(p) for p in sorted(more))}, which {g.qual} does not compare", h.loc())
        if len(res.undecided) > before and h is not None:
            extra()
        for ev, o in rows:
            res.count("rows")
            r1, r2, hs, rn = ev.stash
            if r1[0] == r2[0] == "ret" and r1 != r2:
                res.add(f"{g.qual}|symmetric", f"{g.qual}: a == b is {r1[1][1]} where b == a is {r2[1][1]}", g.loc(), ev.facts.show())
            if rn is not None and r1[0] == "ret":
                if rn[0] == "ret" and rn[1][1] == r1[1][1]:
                    res.add(f"{n}.__ne__|negation", f"{ne.qual}: a != b and a == b are both {r1[1][1]}", ne.loc(), ev.facts.show())
            if hs is not None:
                if has_pure(hs[0]):
                    res.undec(f"{h.qual}: hash goes through a helper outside the fragment")
                    extra()
                elif hs[0] != hs[1]:
                    res.add(f"{h.qual}|equal objects, different hashes", f"{h.qual}: two equal objects can have different hashes", h.loc(),
                            ["equal when: " + "; ".join(ev.facts.show()), f"hash(a) = {fin.show(hs[0])}", f"hash(b) = {fin.show(hs[1])}"])
                else:
                    res.count("equal rows with equal hashes")

        def alien(ev):
            a = S.sym(ev, n, "a")
            return ev.truth(ev.call_func(g, [a, ALIEN], {})) and TRUE or FALSE
        for ev, o in table(f"{n} unrelated", alien, alien=True):
            res.count("rows")
            if o[0] == "raise":
                res.add(f"{g.qual}|unrelated raises", f"{g.qual}: comparing with an unrelated object raises {o[1]}", g.loc(), ev.facts.show())
            elif o[1] == TRUE:
                res.add(f"{g.qual}|unrelated equal", f"{g.qual}: an unrelated object can compare equal", g.loc(), ev.facts.show())
        if ne is not None:
            def alien2(ev):
                a = S.sym(ev, n, "a")
                return ev.truth(ev.call_func(ne, [a, ALIEN], {})) and TRUE or FALSE
            for ev, o in table(f"{n} unrelated !=", alien2, alien=True):
                if o[0] == "raise" or o[1] == FALSE:
                    res.add(f"{ne.qual}|unrelated", f"{ne.qual}: != with an unrelated object is not true", ne.loc(), ev.facts.show())

    # objects of two classes that model the same thing
    for x, y in (("IPv4Obj", "IPv6Obj"), ("CiscoIOSInterface", "CiscoIOSXRInterface"), ("TrackingInterface", "HSRPInterfaceGroup"), ("BaseCfgLine", "TrackingInterface"), ("BaseCfgLine", "HSRPInterfaceGroup")):
        if x not in names or y not in names:
            continue
        gx, gy = prog.find_method(x, "__eq__"), prog.find_method(y, "__eq__")
        hx, hy = prog.find_method(x, "__hash__"), prog.find_method(y, "__hash__")

        def cross(ev):
            a, b = S.sym(ev, x, "a"), S.sym(ev, y, "b")
            r1, r2 = eq(ev, gx, a, b), eq(ev, gy, b, a)
            hs = None
            if r1 == ("ret", TRUE) == r2 and hx is not None and hy is not None:
                h1, h2 = fin.outcome(ev, lambda: ev.call_func(hx, [a], {})), fin.outcome(ev, lambda: ev.call_func(hy, [b], {}))
                if h1[0] == h2[0] == "ret":
                    hs = fin.canon(ev, h1[1]), fin.canon(ev, h2[1])
            ev.stash = (r1, r2, hs)
            return fin.NONE
        for ev, o in table(f"{x}/{y}", cross):
            res.count("rows")
            r1, r2, hs = ev.stash
            if r1[0] == r2[0] == "ret" and r1 != r2 and (x, y) not in (("BaseCfgLine", "TrackingInterface"), ("BaseCfgLine", "HSRPInterfaceGroup")):
                res.add(f"{x}/{y}|symmetric", f"{x} == {y} is {r1[1][1]} where {y} == {x} is {r2[1][1]}", gx.loc(), ev.facts.show())
            if hs is not None and hs[0] != hs[1] and not has_pure(hs):
                res.add(f"{x}/{y}|equal objects, different hashes", f"a {x} and a {y} can be equal and have different hashes", gx.loc(), ["equal when: " + "; ".join(ev.facts.show())])


GOOD = """
class A:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def __eq__(self, o):
        if isinstance(o, A):
            return self.x == o.x and self.y == o.y
        return False
    def __hash__(self):
        return hash((self.x, str(self.y)))
class B:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def _key(self):
        return (self.x, self.y)
    def __eq__(self, o):
        try:
            return self._key() == o._key()
        except Exception:
            return False
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash(self._key())
"""
BAD = """
class A:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def __eq__(self, o):
        return isinstance(o, A) and self.x == o.x
    def __hash__(self):
        return hash((self.x, self.y))
class B:
    def __init__(self, x, y):
        self.x = x
        self.y = y
    def __eq__(self, o):
        return self.x == o.x and (self.y is None or self.y == o.y)
    def __ne__(self, o):
        return self.x != o.x
"""


def selftest():
    r = Result("x")
    judge(Program.from_source(GOOD), r)
    if r.findings or r.undecided:
        raise AnalysisBroken(f"C18 self-test: {[f.key for f in r.findings]} {r.undecided}")
    r = Result("x")
    judge(Program.from_source(BAD), r)
    keys = {f.key.split(".")[-1] for f in r.findings}
    need = {"__hash__|equal objects, different hashes", "__eq__|symmetric", "__eq__|unrelated raises", "__ne__|negation"}
    if not need <= keys:
        raise AnalysisBroken(f"C18 self-test found only {sorted(keys)}")


def run(ctx):
    prog = ctx.prog
    res = Result("Decision tables of __eq__/__ne__/__hash__ of every class that defines equality: reflexive, symmetric, false for unrelated objects, negated by __ne__, and equal rows give equal hash terms.")
    judge(prog, res)
    res.floor("classes", 7)
    res.floor("equal rows with equal hashes", 5)
    res.assumptions += ["as_decimal determines the address object of an IPv4Obj/IPv6Obj and conversely; fields of an object are independent of each other",
                        "sort_list and number of an interface are functions of the interface alone"]
    return res
