"""C21: alternative names always agree.

Addresses: every name of an alias group is evaluated over the address model and must
give the same value on every row, also after any of the group's setters; a name both
families offer is the same kind of member in both.  Line models, interfaces: each
alternative name evaluates to the member it stands for.
"""
import ast

from .. import fin, addr
from . import c20
from ..fin import c, t, NONE
from ..report import Result
from ..srcmodel import AnalysisBroken, Program

FAM = {"IPv4Obj": 32, "IPv6Obj": 128}
GROUPS = [
    ("the prefix length", ["prefixlen", "prefixlength", "masklen", "masklength", "_prefixlen"]),
    ("the address as an integer", ["as_decimal", "as_int", "_ip", "__int__", "__index__"]),
    ("the address object", ["ip_object", "ip", "ipv4", "ipv6"]),
    ("the host mask", ["hostmask", "inverse_netmask"]),
    ("the network object", ["network_object", "network"]),
    ("the IP version", ["version", "_version"]),
]
ONLY = {"ipv4": "IPv4Obj", "ipv6": "IPv6Obj"}
# (class, alternative name, member it stands for)
ALIASES = []
for k in ("BaseIOSIntfLine", "BaseNXOSIntfLine", "BaseIOSXRIntfLine", "BaseASAIntfLine"):
    ALIASES += [(k, "ip", "ipv4_addr_object"), (k, "ipv4", "ipv4_addr_object"), (k, "ipv4_network_object", "ip_network_object"), (k, "ip_addr", "ipv4_addr")]
for k in ("BaseIOSIntfLine", "BaseNXOSIntfLine", "BaseIOSXRIntfLine"):
    ALIASES += [(k, "ip_accessgroup_in", "ipv4_accessgroup_in"), (k, "ip_accessgroup_out", "ipv4_accessgroup_out")]
ALIASES += [("HSRPInterfaceGroup", "ip", "ipv4"), ("TrackingInterface", "name", "interface_name"), ("TrackingInterface", "interface", "interface_name"),
            ("JunosCfgLine", "name", "intf_name"), ("BaseCfgLine", "index", "linenum"), ("BaseCfgLine", "dna", "classname"),
            ("CiscoIOSInterface", "name", "render_as_string"), ("CiscoIOSXRInterface", "name", "render_as_string"),
            ("CiscoIOSInterface", "__str__", "render_as_string"), ("CiscoIOSXRInterface", "__str__", "render_as_string")]
K = ("var", "k")


def read(ev, prog, cls, name, a):
    g = prog.find_method(cls, name)
    if g is not None and prog.find_prop(cls, name) is None:
        return ev.call_func(g, [a], {})
    return ev.getattr(a, name)


def setter(prog, cls, name):
    for k in prog.classes[cls].mro:
        if name in k.setters:
            return k.setters[name]
        if name in k.props or name in k.methods:
            return None
    return None


def addresses(prog, res):
    for cls, bits in FAM.items():
        if cls not in prog.classes:
            continue
        k = prog.classes[cls]
        stored = {n.attr for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for what, names in GROUPS:
            names = [n for n in names if ONLY.get(n, cls) == cls]
            for n in names:
                if prog.find_prop(cls, n) is None and prog.find_method(cls, n) is None and n not in stored:
                    res.add(f"{cls}.{n}|missing", f"{cls} does not offer {n}, a name of {what}", k.loc())
            names = [n for n in names if prog.find_prop(cls, n) or prog.find_method(cls, n) or n in stored]
            M = addr.Model(prog)
            M.ints.add(K)

            def same(prepare, label, loc):
                def body(ev):
                    a = M.symbol(ev, cls, "a")
                    if prepare:
                        try:
                            ev.setattr(a, prepare, K)
                        except fin.Raised:
                            raise fin.Infeasible()
                    ev.stash = [(n, fin.outcome(ev, lambda: read(ev, prog, cls, n, a))) for n in names]
                    return NONE
                try:
                    for ev, _ in fin.rows(prog, body, M.cfg()):
                        if not fin.feasible(ev):
                            continue
                        vals = [(n, (o[0], norm(M, ev, o[1], bits) if o[0] == "ret" else o[1])) for n, o in ev.stash]
                        if what == "the IP version":
                            vals.insert(0, ("ip_object.version", ("ret", c(4 if bits == 32 else 6))))
                        ref = vals[0]
                        for n, v in vals[1:]:
                            res.count("address names compared")
                            if v != ref[1]:
                                if v[0] == "ret" == ref[1][0] and (fin_opaque(v[1]) or fin_opaque(ref[1][1])):
                                    res.undec(f"{cls}.{n} {label}: {fin.show(v[1])[:80]}")
                                    continue
                                res.add(f"{cls}.{n}|{ref[0]}{label and '|' + prepare}", f"{cls}.{n} and {cls}.{ref[0]} are two names of {what} but {label or 'they'} differ: {txt(v)} / {txt(ref[1])}",
                                        (prog.find_prop(cls, n) or prog.find_method(cls, n) or prog.find_prop(cls, ref[0])).loc(), ev.facts.show())
                except fin.Opaque as e:
                    res.undec(f"{cls} {what} {label}: {e}")
            same(None, "", None)
            for n in ("prefixlen", "prefixlength", "masklen", "masklength", "network_offset"):
                s = setter(prog, cls, n)
                if s is not None:
                    same(n, f"after setting {n} they", s.loc())
        # every setter of the prefix length gives the same object
        M = addr.Model(prog)
        M.ints.add(K)
        out = {}
        for n in ("prefixlen", "prefixlength", "masklen", "masklength"):
            s = setter(prog, cls, n)
            if s is None:
                continue

            def body(ev):
                a = M.symbol(ev, cls, "a")
                ev.setattr(a, n, K)
                return ev.new("tuple", [ev.getattr(a, "ip_object"), ev.getattr(a, "network_object")])
            try:
                for ev, o in fin.rows(prog, body, M.cfg()):
                    want = ("tuple", t("addr", M.atom("a", "D")), t("mknet", M.atom("a", "D"), K, bits))
                    res.count("setter rows")
                    got = ev.freeze(o[1]) if o[0] == "ret" else o[1]
                    if o[0] == "raise" and any(k[0] == "truth" and k[1][:2] == ("t", "hostbits") and b for k, b in ev.facts.tr.items()):
                        res.add(f"{cls}.{n}|setter refuses", f"setting {cls}.{n} raises {o[1]} when the address has host bits, the other names accept it", s.loc(), ev.facts.show())
                    elif o[0] == "raise":
                        res.undec(f"{cls}.{n} setter raises {o[1]}")
                    elif got[1] != want[1]:
                        res.add(f"{cls}.{n}|setter changes the address", f"setting {cls}.{n} changes the address", s.loc(), ev.facts.show())
                    elif M.netparts(got[2]) is None:
                        res.undec(f"{cls}.{n} setter: {fin.show(got[2])[:100]}")
                    elif M.netparts(got[2])[1] != K:
                        res.add(f"{cls}.{n}|setter", f"setting {cls}.{n} does not set the prefix length: the network is {fin.show(got[2])}", s.loc(), ev.facts.show())
                    elif got[2] != want[2]:
                        res.add(f"{cls}.{n}|setter network", f"setting {cls}.{n} does not keep the network around the address: {fin.show(got[2])}", s.loc(), ev.facts.show())
            except fin.Opaque as e:
                res.undec(f"{cls}.{n} setter: {e}")
    # parity of the two families
    a, b = (prog.classes.get(x) for x in FAM)
    if a and b:
        def kinds(k):
            d = {}
            for c_ in reversed(k.mro):
                for n in c_.methods:
                    d[n] = "property" if n in c_.props else "method"
                for n in c_.props:
                    d[n] = "settable property" if n in c_.setters else "property"
            return d
        ka, kb = kinds(a), kinds(b)
        for n in sorted(set(ka) & set(kb)):
            res.count("names of both families")
            if ka[n] != kb[n]:
                res.add(f"{n}|kind", f"{n} is a {ka[n]} of IPv4Obj and a {kb[n]} of IPv6Obj", (prog.find_prop("IPv6Obj", n) or prog.find_method("IPv6Obj", n)).loc())


def norm(M, ev, v, bits):
    v = fin.canon(ev, v)
    if isinstance(v, tuple) and (v[0] in ("lin", "var") or v[:2] == ("t", "octn")):
        return M.expand(v, bits)
    return v


def fin_opaque(v):
    """a term the model does not interpret"""
    if not isinstance(v, tuple):
        return False
    if v[:2] in (("t", "call"), ("t", "pure"), ("t", "comp"), ("t", "bin"), ("t", "sub")):
        return True
    return any(fin_opaque(x) for x in v)


def txt(o):
    return fin.show(o[1]) if o[0] == "ret" else f"raises {o[1]}"


def aliases(prog, res, table=None):
    for cls, alias, target in table or ALIASES:
        k = prog.classes.get(cls)
        if k is None:
            continue
        p = prog.find_prop(cls, alias) or prog.find_method(cls, alias)
        q = prog.find_prop(cls, target) or prog.find_method(cls, target)
        if p is None or p.cls is None:
            res.add(f"{cls}.{alias}|missing", f"{cls} does not offer {alias}, the alternative name of {target}", k.loc())
            continue
        res.count("alternative names")

        def hook(names):
            def attr(ev, v, name):
                if v[0] == "ref" and ev.heap[v[1]].get("name") == "a" and name in names:
                    if prog.find_prop(cls, name) is None and prog.find_method(cls, name) is not None:
                        return ("lam_atom", name)
                    return t("member", name)
                return None
            return attr
        # every other member of the class is taken as it stands
        others = set()
        for x in k.mro:
            others |= set(x.props) | set(x.methods)
        others.discard(alias)

        def attr(ev, v, name):
            if v[0] == "ref" and ev.heap[v[1]].get("name") == "a" and name in others and not (name.startswith("__") and name != "__str__") and prog.find_prop(cls, name) is not None:
                return t("member", name)
            return None

        def func(ev, f, args, kw):
            if f.name in others and f.cls is not None and len(args) == 1 and not kw and args[0][0] == "ref" and ev.heap[args[0][1]].get("name") == "a" and f.name != alias:
                return t("member", f.name)
            return None

        def body(ev):
            a = ev.symbol(cls, "a")
            return read(ev, prog, cls, alias, a)
        try:
            got = [(ev, o) for ev, o in fin.rows(prog, body, {"attr": attr, "func": func, "soft": True}) if fin.feasible(ev)]
        except fin.Opaque as e:
            res.undec(f"{cls}.{alias}: {e}")
            continue
        want = [("ret", t("member", target))]
        if q is None:
            want.append(("ret", t("attr", ("sym", "a"), target)))
        if all(o in want for _, o in got):
            continue

        # both evaluated in full
        def both(ev):
            a = ev.symbol(cls, "a")
            ev.stash = (fin.outcome(ev, lambda: read(ev, prog, cls, alias, a)), fin.outcome(ev, lambda: read(ev, prog, cls, target, a)))
            return NONE
        try:
            for ev, _ in fin.rows(prog, both, {"soft": True}):
                if not fin.feasible(ev):
                    continue
                x, y = ev.stash
                x, y = (x[0], fin.canon(ev, x[1]) if x[0] == "ret" else x[1]), (y[0], fin.canon(ev, y[1]) if y[0] == "ret" else y[1])
                if x != y:
                    if isinstance(x[1], tuple) and x[1][:1] == ("t",) and x[1][1] in ("str", "int", "bool") and x[1][2] == y[1]:
                        res.undec(f"{cls}.{alias}: {fin.show(x[1])[:80]}")
                        continue
                    res.add(f"{cls}.{alias}|{target}", f"{cls}.{alias} is not the same value as {cls}.{target}: {txt(x)[:120]} / {txt(y)[:120]}", p.loc(), ev.facts.show())
        except fin.Opaque as e:
            names = {o[1][2] for _, o in got if o[0] == "ret" and isinstance(o[1], tuple) and o[1][:2] == ("t", "member")}
            wrong = names - {target}
            if wrong:
                res.add(f"{cls}.{alias}|{target}", f"{cls}.{alias} gives {', '.join(sorted(wrong))}, not {target}", p.loc())
            else:
                res.undec(f"{cls}.{alias}: {e}")


ALI = """
class A:
    def __init__(self):
        self.x = 1
    @property
    def one(self):
        return self.x + 1
    @property
    def two(self):
        return self.x + 2
    @property
    def uno(self):
        return %s
"""


def selftest():
    for body, bad in (("self.one", 0), ("1 + self.x", 0), ("self.two", 1), ("self.x", 1)):
        r = Result("x")
        aliases(Program.from_source(ALI % body), r, [("A", "uno", "one")])
        if bool(r.findings) != bool(bad) or r.undecided:
            raise AnalysisBroken(f"C21 self-test: {body}: {[f.key for f in r.findings]} {r.undecided}")


def run(ctx):
    res = Result("Alias groups of both address families evaluated before and after every setter; member kinds of both families; alternative names of line models and interfaces.")
    addresses(ctx.prog, res)
    # the integer is the integer of the address object; the offset reads back as it was set
    c20.definitions(ctx.prog, res, {"as_decimal", "as_int", "_ip", "__int__", "__index__"})
    c20.offset(ctx.prog, res)
    aliases(ctx.prog, res)
    res.floor("address names compared", 40)
    res.floor("alternative names", 20)
    res.assumptions += ["the stdlib ipaddress objects describe the (address, prefix length) they were built from"]
    return res
