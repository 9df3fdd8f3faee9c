"""C20: address containment and arithmetic respect exact bounds.

Over the address model (sa/addr.py: address D, first N, last H, prefix length P):
 - the integer properties are D, N and H;
 - `x in y` is decided for every relation two CIDR blocks can have;
 - + and - succeed exactly when the result lies in 0 .. 2**bits - 1, keep the prefix
   length and move the address by exactly the offset;
 - the offset inside the network reads D - N and can be set exactly to 0 .. H - N.
"""
from .. import fin, addr
from ..fin import c, t, TRUE, FALSE, add
from ..report import Result
from ..srcmodel import AnalysisBroken, Program

FAM = {"IPv4Obj": 32, "IPv6Obj": 128}
DEFS = {"as_decimal": "D", "as_int": "D", "_ip": "D", "__int__": "D", "__index__": "D", "as_decimal_network": "N", "as_decimal_broadcast": "H", "as_decimal_network_maxint": "H"}
ABSENT = {("IPv6Obj", "as_decimal_broadcast"), ("IPv4Obj", "as_decimal_network_maxint")}
K = ("var", "k")


def call(ev, prog, cls, name, a, args=()):
    g = prog.find_method(cls, name)
    if g is None:
        return ev.getattr(a, name)
    return ev.call_func(g, [a] + list(args), {})


def definitions(prog, res, only=None):
    """the integer properties denote the address and the bounds of its network"""
    for cls, bits in FAM.items():
        for name, what in DEFS.items():
            if (cls, name) in ABSENT or only and name not in only or cls not in prog.classes:
                continue
            g = prog.find_method(cls, name) or prog.find_prop(cls, name)
            if g is None:
                continue
            M = addr.Model(prog)
            M.defs = True

            def body(ev):
                return call(ev, prog, cls, name, M.symbol(ev, cls, "a"))
            try:
                for ev, o in fin.rows(prog, body, M.cfg()):
                    if o[0] == "raise":
                        if addr.modelled(ev):
                            res.add(f"{cls}.{name}|raises", f"{cls}.{name} raises {o[1]} for a non-empty address", g.loc(), ev.facts.show())
                        continue
                    got, want = M.expand(o[1], bits), M.expand(M.atom("a", what), bits)
                    if got != want and M.expand(fin.canon(ev, o[1]), bits) != want:
                        if clean(got) and addr.modelled(ev):
                            res.add(f"{cls}.{name}|value", f"{cls}.{name} is not the {dict(D='address', N='first address of the network', H='last address of the network')[what]} as a number", g.loc(),
                                    ev.facts.show() + [f"value: {fin.show(fin.canon(ev, o[1]))}"])
                        else:
                            res.undec(f"{cls}.{name}: {fin.show(o[1])[:120]}")
                    else:
                        res.count("integer properties")
            except fin.Opaque as e:
                res.undec(f"{cls}.{name}: {e}")


def clean(v):
    """a term made of digits, addresses and constants only"""
    k, d = fin.lin(v)
    return all(a[:2] in (("t", "octn"), ("t", "first")) or a[0] == "var" for a in d)


# relations between two CIDR blocks s (container) and v, as zone assumptions
def relations(M, bits):
    N, H, P = (lambda n: M.atom(n, "N")), (lambda n: M.atom(n, "H")), (lambda n: M.atom(n, "P"))
    mx = c(2 ** bits - 1)

    def same(ev):
        ev.assume(N("s"), "==", N("v")), ev.assume(H("s"), "==", H("v")), ev.assume(P("s"), "==", P("v"))

    def nested(o, i, left, right):
        def f(ev):
            ev.assume(P(o), "<", P(i))
            ev.assume(N(o), "==" if left else "<", N(i))
            ev.assume(H(i), "==" if right else "<", H(o))
        return f

    def apart(a, b):
        def f(ev):
            ev.assume(H(a), "<", N(b)), ev.assume(c(1), "<=", P("s")), ev.assume(c(1), "<=", P("v"))
        return f

    yield "the same network", True, same
    for left, right, txt in ((True, False, "at its start"), (False, True, "at its end"), (False, False, "in its interior")):
        yield f"a smaller network {txt}", True, nested("s", "v", left, right)
        yield f"a larger network around it ({txt})", False, nested("v", "s", left, right)
    yield "a network after it", False, apart("s", "v")
    yield "a network before it", False, apart("v", "s")


def sizes(ev, M, name, bits):
    """the size of a block is 2**(bits - P): used to drop rows that fix P and the block inconsistently"""
    P, N, H = (M.atom(name, w) for w in "PNH")
    lo, hi, _ = ev.facts.iv.get(((P, 1),), (0, bits, None))
    lo, hi = 0 if lo is None else lo, bits if hi is None else hi
    ev.assume(add(H, N, -1), "<=", c(2 ** (bits - lo) - 1))
    ev.assume(c(2 ** (bits - hi) - 1), "<=", add(H, N, -1))
    if lo == 0 == hi:
        ev.assume(N, "==", c(0)), ev.assume(H, "==", c(2 ** bits - 1))


def containment(prog, res):
    for cls, bits in FAM.items():
        g = prog.find_method(cls, "__contains__")
        if g is None:
            res.undec(f"{cls} defines no __contains__")
            continue
        M = addr.Model(prog)
        for label, want, rel in relations(M, bits):
            def body(ev):
                s, v = M.symbol(ev, cls, "s"), M.symbol(ev, cls, "v")
                rel(ev)
                n0 = len(ev.facts.log)
                out = fin.outcome(ev, lambda: c(ev.truth(ev.call_func(g, [s, v], {}))))
                why = ev.facts.show()[n0:]
                if out != ("ret", c(want)):
                    ok = addr.modelled(ev)
                    if ok:
                        sizes(ev, M, "s", bits), sizes(ev, M, "v", bits)
                    ev.stash = (out, why, ok)
                else:
                    ev.stash = None
                return fin.NONE
            try:
                for ev, o in fin.rows(prog, body, M.cfg()):
                    res.count("containment rows")
                    if ev.stash is None or not fin.feasible(ev):
                        continue
                    out, why, ok = ev.stash
                    if ok:
                        got = f"raises {out[1]}" if out[0] == "raise" else f"is {out[1][1]}"
                        res.add(f"{g.qual}|{label}", f"{g.qual}: for {label} the answer {got}", g.loc(), why)
                    else:
                        res.undec(f"{g.qual}: {label}: " + "; ".join(why)[:160])
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {label}: {e}")


def arithmetic(prog, res):
    for cls, bits in FAM.items():
        mx = 2 ** bits - 1
        for name, s in (("__add__", 1), ("__sub__", -1)):
            g = prog.find_method(cls, name)
            if g is None:
                res.undec(f"{cls} defines no {name}")
                continue
            M = addr.Model(prog)
            M.ints.add(K)

            def body(ev):
                a = M.symbol(ev, cls, "a")
                total = add(M.atom("a", "D"), K, s)
                inside = ev.sign(c(0), total, "<=") and ev.sign(total, c(mx), "<=")
                n0 = len(ev.facts.log)
                try:
                    r = ev.call_func(g, [a, K], {})
                    out = ("ret", r)
                    if r[0] == "ref" and ev.heap[r[1]]["kind"] == "obj":
                        fs = ev.heap[r[1]]["fields"]
                        net = M.netparts(fs.get("network_object", fin.NONE))
                        out = ("obj", ev.heap[r[1]]["cls"].name, fs.get("ip_object"), net and fs["network_object"])
                except fin.Raised as x:
                    out = ("raise", x.name)
                ev.stash = (inside, total, out, n0)
                return fin.NONE
            try:
                for ev, o in fin.rows(prog, body, M.cfg()):
                    if not fin.feasible(ev):
                        continue
                    res.count("arithmetic rows")
                    inside, total, out, n0 = ev.stash
                    word = "sum" if s == 1 else "difference"
                    why = ev.facts.show()
                    if not addr.modelled(ev):
                        res.undec(f"{g.qual}: " + "; ".join(why)[:160])
                    elif inside and out[0] == "raise":
                        res.add(f"{g.qual}|rejects", f"{g.qual} raises {out[1]} although the {word} is a valid address", g.loc(), why)
                    elif not inside and out[0] != "raise":
                        res.add(f"{g.qual}|accepts", f"{g.qual} accepts a {word} outside 0..2**{bits}-1", g.loc(), why)
                    elif inside and out[0] == "obj":
                        if out[1] != cls:
                            res.add(f"{g.qual}|family", f"{g.qual} gives a {out[1]}", g.loc(), why)
                        if out[2] is not None and out[2][:2] == ("t", "addr") and fin.canon(ev, out[2][2]) != fin.canon(ev, total):
                            res.add(f"{g.qual}|result", f"{g.qual}: the result is {fin.show(out[2][2])}, not {fin.show(total)}", g.loc(), why)
                        elif out[2] is None or out[2][:2] != ("t", "addr"):
                            res.undec(f"{g.qual}: address of the result")
                        if out[3]:
                            first, p, _ = M.netparts(out[3])
                            if fin.canon(ev, p) != fin.canon(ev, M.atom("a", "P")):
                                res.add(f"{g.qual}|prefix length", f"{g.qual}: the prefix length of the result is {fin.show(p)}, not that of the operand", g.loc(), why)
                            elif out[3][:2] == ("t", "mknet") and fin.canon(ev, out[3][2]) != fin.canon(ev, total):
                                res.add(f"{g.qual}|network", f"{g.qual}: the network of the result is not the one around the new address", g.loc(), why)
                            elif out[3][:2] == ("t", "net"):
                                # the operand's own network: right only when the result stays inside it
                                N, H = M.atom("a", "N"), M.atom("a", "H")
                                if fin.canon(ev, total) != fin.canon(ev, M.atom("a", "D")):
                                    res.add(f"{g.qual}|network", f"{g.qual}: the result keeps the network of the operand", g.loc(), why)
                        else:
                            res.undec(f"{g.qual}: network of the result")
                    elif inside:
                        res.undec(f"{g.qual}: result {out[0]}")
            except fin.Opaque as e:
                res.undec(f"{g.qual}: {e}")


def offset(prog, res):
    for cls, bits in FAM.items():
        p = prog.find_prop(cls, "network_offset")
        if p is None:
            res.undec(f"{cls} has no network_offset")
            continue
        M = addr.Model(prog)
        M.ints.add(K)
        D, N, H = (M.atom("a", w) for w in "DNH")

        def read(ev):
            return ev.getattr(M.symbol(ev, cls, "a"), "network_offset")

        def write(ev):
            a = M.symbol(ev, cls, "a")
            inside = ev.sign(c(0), K, "<=") and ev.sign(K, add(H, N, -1), "<=")
            try:
                ev.setattr(a, "network_offset", K)
                out = ("ret", ev.getattr(a, "ip_object"), ev.getattr(a, "network_object"))
            except fin.Raised as x:
                out = ("raise", x.name)
            ev.stash = (inside, out)
            return fin.NONE
        try:
            for ev, o in fin.rows(prog, read, M.cfg()):
                if not fin.feasible(ev):
                    continue
                res.count("offset rows")
                if o[0] == "raise" or fin.canon(ev, o[1]) != fin.canon(ev, add(D, N, -1)):
                    if addr.modelled(ev) and (o[0] == "raise" or clean(o[1])):
                        res.add(f"{cls}.network_offset|read", f"{cls}.network_offset is {fin.show(o[1]) if o[0] == 'ret' else 'an error'}, not the distance of the address from its network", p.loc(), ev.facts.show())
                    else:
                        res.undec(f"{cls}.network_offset: " + fin.show(o[1])[:100])
            for ev, o in fin.rows(prog, write, M.cfg()):
                if not fin.feasible(ev):
                    continue
                res.count("offset rows")
                inside, out = ev.stash
                why = ev.facts.show()
                if not addr.modelled(ev):
                    res.undec(f"{cls}.network_offset setter: " + "; ".join(why)[:160])
                elif inside and out[0] == "raise":
                    res.add(f"{cls}.network_offset|rejects", f"setting {cls}.network_offset to a position inside the network raises {out[1]}", p.loc(), why)
                elif not inside and out[0] != "raise":
                    res.add(f"{cls}.network_offset|accepts", f"setting {cls}.network_offset accepts a position outside the network", p.loc(), why)
                elif inside:
                    if out[1][:2] != ("t", "addr"):
                        res.undec(f"{cls}.network_offset setter: address")
                    elif fin.canon(ev, out[1][2]) != fin.canon(ev, add(N, K)):
                        res.add(f"{cls}.network_offset|write", f"after setting {cls}.network_offset the address is {fin.show(out[1][2])}, not network + offset", p.loc(), why)
                    if M.netparts(out[2]) and out[2] != t("net", "a"):
                        first, pl, _ = M.netparts(out[2])
                        if pl != M.atom("a", "P"):
                            res.add(f"{cls}.network_offset|network", f"setting {cls}.network_offset changes the network", p.loc(), why)
        except fin.Opaque as e:
            res.undec(f"{cls}.network_offset: {e}")


BADSRC = """
class IPv4Obj:
    def __init__(self, x=None):
        self.ip_object = None
        self.network_object = None
        self.empty = False
        if isinstance(x, int):
            self.ip_object = IPv4Address(x)
            self.network_object = IPv4Network(x)
    @property
    def prefixlen(self):
        return int(self.network_object.prefixlen)
    @prefixlen.setter
    def prefixlen(self, arg):
        self.network_object = IPv4Network(f"{self.ip_object}/{arg}", strict=False)
    @property
    def as_decimal(self):
        return %s
    @property
    def as_decimal_network(self):
        return int(self.network_object.network_address)
    @property
    def as_decimal_broadcast(self):
        return self.as_decimal_network + 2 ** (32 - self.prefixlen) %s
    def __contains__(self, val):
        return %s
    def __add__(self, k):
        t = self.as_decimal + k
        if %s:
            raise ValueError()
        r = IPv4Obj(t)
        %s
        return r
    def __sub__(self, k):
        return self + (-k)
    @property
    def network_offset(self):
        return self.as_decimal - self.as_decimal_network
    @network_offset.setter
    def network_offset(self, arg):
        if %s:
            raise ValueError()
        self.ip_object = IPv4Address(arg + self.as_decimal_network)
"""
OKV = ("sum(int(x) * 256 ** i for i, x in enumerate(reversed(str(self.ip_object).split('.'))))", "- 1",
       "val.as_decimal_network >= self.as_decimal_network and val.as_decimal_broadcast < self.as_decimal_broadcast + 1", "not (0 <= t < 2 ** 32)", "r.prefixlen = self.prefixlen",
       "arg < 0 or arg > self.as_decimal_broadcast - self.as_decimal_network")
MUT = {0: ("sum(int(x) * 255 ** i for i, x in enumerate(reversed(str(self.ip_object).split('.'))))", "as_decimal|value"),
       1: ("- 2", "as_decimal_broadcast|value"),
       2: ("self.as_decimal_network <= val.as_decimal <= self.as_decimal_broadcast and self.prefixlen < val.prefixlen", "__contains__|the same network"),
       3: ("not (0 < t < 2 ** 32)", "__add__|rejects"),
       4: ("pass", "__add__|prefix length"),
       5: ("arg < 0 or arg > self.as_decimal_broadcast - self.as_decimal_network + 1", "network_offset|accepts")}
BASE = "class IPv6Obj(IPv4Obj):\n    pass\n"


def selftest():
    FAM6 = FAM.pop("IPv6Obj")
    try:
        def go(vals):
            r = Result("x")
            p = Program.from_source("from ipaddress import IPv4Address, IPv4Network\n" + BADSRC % vals)
            definitions(p, r)
            containment(p, r)
            arithmetic(p, r)
            offset(p, r)
            return r
        r = go(OKV)
        if r.findings or r.undecided:
            raise AnalysisBroken(f"C20 self-test: {[f.key for f in r.findings]} {r.undecided}")
        for i, (txt, want) in MUT.items():
            v = list(OKV)
            v[i] = txt
            keys = [f.key for f in go(tuple(v)).findings]
            if not any(want in k for k in keys):
                raise AnalysisBroken(f"C20 self-test: {want} not in {keys}")
    finally:
        FAM["IPv6Obj"] = FAM6


def run(ctx):
    res = Result("Address properties, containment, addition, subtraction and network offset of both families, evaluated over an interval/zone model and compared with the interval specification.")
    definitions(ctx.prog, res)
    containment(ctx.prog, res)
    arithmetic(ctx.prog, res)
    offset(ctx.prog, res)
    res.floor("containment rows", 16)
    res.floor("integer properties", 8)
    res.assumptions += ["the stdlib ipaddress objects describe the (address, prefix length) they were built from",
                        "operands are non-empty address objects and integer offsets"]
    return res
