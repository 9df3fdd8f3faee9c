"""Abstract model of an address object for the decision tables.

An IPv4Obj/IPv6Obj stands for (address D, prefix length P, first address N of its
network, last address H).  The stdlib objects it holds are images of these: the
address object of D, the network of (N, P).  The relations between the four are
zone facts; the size 2**(max - P) is H - N + 1.
"""
from . import fin
from .fin import c, t, lin, mk, add, is_num

MAX = {"IPv4Obj": 32, "IPv6Obj": 128}


class Model:
    """cfg hooks for fin.rows over objects of one or more address classes"""

    NUM = {"as_decimal": "D", "as_decimal_network": "N"}

    def __init__(self, prog, empty=False):
        self.prog = prog
        self.bits = {}           # atom -> (object name, bits)
        self.empty = empty
        self.ints = set()        # variables that stand for integers
        self.defs = False        # evaluate as_decimal / as_decimal_network instead of taking them as D / N

    def atom(self, name, what):
        return ("var", f"{name}.{what}")

    def width(self, ev, v):
        return MAX[ev.heap[v[1]]["cls"].name]

    def of(self, term):
        """(object name, what) of an atom"""
        if term[0] == "var" and "." in term[1]:
            n, w = term[1].split(".", 1)
            if w in ("D", "N", "H", "P"):
                return n, w
        return None

    def symbol(self, ev, cls, name):
        v = ev.symbol(cls, name)
        ev.heap[v[1]]["bits"] = MAX[cls]
        self.bits[name] = MAX[cls]
        ev.cfg.setdefault("zones", {})
        D, N, H = (self.atom(name, w) for w in "DNH")
        for a, b in ((N, D), (D, H), (N, H)):
            ev.cfg["zones"][(a, b)] = 0          # a - b <= 0
        return v

    def cfg(self):
        return {"isint": self.isint, "isbool": self.isbool, "attr": self.attr, "range": self.range, "bin": self.bin,
                "method": self.method, "ext": self.ext, "contains": self.contains, "soft": True, "zones": {}, "notnone": self.notnone, "isstr": self.isstr, "isinstance": self.isinst}

    def notnone(self, v):
        return self.of(v) is not None or v[0] == "t" and v[1] in ("addr", "net", "mask", "hmask")

    def isint(self, v):
        return self.of(v) is not None or v[0] == "t" and v[1] in ("size", "octn", "first") or v in self.ints

    def isinst(self, ev, v, ty):
        if v[0] == "t" and v[1] in ("net", "mknet") and ty[0] == "ext":
            return ty[1].split(".")[-1] in ("IPv4Network", "IPv6Network")
        if v[0] == "t" and v[1] == "addr" and ty[0] == "ext":
            return ty[1].split(".")[-1] in ("IPv4Address", "IPv6Address")
        return None

    def isbool(self, v):
        return v[0] == "t" and v[1] == "attr" and v[3] == "empty"

    def isstr(self, v):
        return v[0] == "t" and v[1] in ("oct", "netstr", "exploded")

    # definitions: addresses and networks as text and as numbers
    def parts(self, x, bits):
        """the number x written in base 256 (IPv4) or 65536 (IPv6) digits, highest first"""
        n, base = (4, 256) if bits == 32 else (8, 65536)
        acc = c(0)
        for i in range(n):
            acc = add(acc, fin.mul(t("octn", x, bits, i), base ** (n - 1 - i)))
        return acc

    def expand(self, v, bits):
        """rewrite address numbers by their digits so that two ways of computing a number compare equal"""
        k, d = lin(v)
        acc = c(k)
        for a, x in d.items():
            o = self.of(a)
            acc = add(acc, fin.mul(self.parts(a, bits) if o and o[1] in "DNH" or a[:2] == ("t", "first") else a, x))
        return acc

    def mknet(self, x, p, bits):
        o = self.of(x)
        if o and o[1] in "DNH" and p == self.atom(o[0], "P"):
            return t("net", o[0])
        return t("mknet", x, p, bits)

    def netparts(self, v):
        """(first address, prefix length, bits) of a network term"""
        if v[:2] == ("t", "net") and isinstance(v[2], str):
            return self.atom(v[2], "N"), self.atom(v[2], "P"), self.bits[v[2]]
        if v[:2] == ("t", "mknet"):
            if v[3] == c(v[4]):
                return v[2], v[3], v[4]
            return t("first", v[2], v[3], v[4]), v[3], v[4]
        return None

    def number(self, ev, v):
        """an integer written as str(n) or n"""
        if v[:2] == ("t", "str"):
            return v[2]
        if is_num(v) or v[0] == "lin" or v[0] == "var":
            return v
        if fin.is_c(v) and isinstance(v[1], str) and v[1].isdigit():
            return c(int(v[1]))
        return None

    def network_of(self, ev, v, bits):
        """the network a constructor argument denotes"""
        if v[0] == "ref" and ev.heap[v[1]]["kind"] in ("tuple", "list") and len(ev.heap[v[1]]["items"]) == 2:
            a, p = ev.heap[v[1]]["items"]
            a = a[2] if a[:2] == ("t", "addr") else a
            p = self.number(ev, p)
            return None if p is None else self.mknet(a, p, bits)
        if v[:2] == ("t", "netstr"):
            return v[2]
        if v[:2] == ("t", "str") and self.netparts(v[2]):
            return v[2]
        if self.netparts(v):
            return v
        if v[:2] == ("t", "addr"):
            return self.mknet(v[2], c(bits), bits)
        if v[:2] == ("t", "fstr"):
            xs = list(v[2:])
            if len(xs) == 2 and fin.is_c(xs[1]) and str(xs[1][1]).startswith("/"):
                xs = [xs[0], c("/"), c(xs[1][1][1:])]
            if len(xs) == 3 and xs[1] == c("/"):
                a = xs[0][2] if xs[0][:2] == ("t", "str") else xs[0][2] if xs[0][:2] == ("t", "exploded") else None
                if a is not None and a[:2] == ("t", "addr"):
                    a = a[2]
                elif xs[0][:2] != ("t", "exploded"):
                    return None
                p = self.number(ev, xs[2])
                if p is not None:
                    return self.mknet(a, p, bits)
            return None
        if ev.isint(v) or v[0] == "lin":
            return self.mknet(v, c(bits), bits)
        return None

    def range(self, v):
        o = self.of(v)
        if o:
            b = self.bits.get(o[0])
            if b:
                return (0, b) if o[1] == "P" else (0, 2 ** b - 1)
        return None

    def attr(self, ev, v, name):
        if v[0] == "ref" and ev.heap[v[1]]["kind"] == "obj" and ev.heap[v[1]]["cls"] is not None and ev.heap[v[1]]["cls"].name in MAX and not self.defs:
            # the integer of an address, the first integer of a network object that was assigned
            fs = ev.heap[v[1]]["fields"]
            if name == "as_decimal" and fs.get("ip_object", fin.NONE)[:2] == ("t", "addr"):
                return fs["ip_object"][2]
            if name == "as_decimal_network" and self.netparts(fs.get("network_object", fin.NONE)):
                return self.netparts(fs["network_object"])[0]
        if v[0] == "ref" and ev.heap[v[1]]["kind"] == "obj" and ev.heap[v[1]]["name"] and ev.heap[v[1]].get("bits"):
            n = ev.heap[v[1]]["name"]
            if name in self.NUM and not self.defs:
                return self.atom(n, self.NUM[name])
            if name == "ip_object":
                return t("addr", self.atom(n, "D"))
            if name == "network_object":
                return t("net", n)
            if name == "empty":
                if not self.empty:
                    return fin.FALSE
                return None
            return None
        if (v[:2] == ("t", "addr") or self.netparts(v)) and name in ("version", "_version"):
            w = self.wide(v[2]) if v[1] == "addr" else self.netparts(v)[2]
            return c(4 if w == 32 else 6) if w else None
        if v[:2] == ("t", "addr"):
            if name == "_ip":
                return v[2]
            if name == "max_prefixlen":
                return None
            if name == "exploded":
                return t("exploded", v[2])
            if name == "compressed":
                return t("str", v)
            return None
        if self.netparts(v):
            first, p, bits = self.netparts(v)
            if name in ("compressed", "with_prefixlen"):
                return t("netstr", v)
            if name == "exploded":
                return t("netexp", v)
            if v[1] == "mknet":
                return {"prefixlen": p, "_prefixlen": p, "network_address": t("addr", first), "netmask": t("mask", p), "hostmask": t("hmask", p), "max_prefixlen": c(bits)}.get(name)
        if v[0] == "t" and v[1] == "net":
            n = v[2]
            if not isinstance(n, str):
                return None
            return {"prefixlen": self.atom(n, "P"), "_prefixlen": self.atom(n, "P"), "network_address": t("addr", self.atom(n, "N")), "broadcast_address": t("addr", self.atom(n, "H")),
                    "netmask": t("mask", self.atom(n, "P")), "hostmask": t("hmask", self.atom(n, "P")), "max_prefixlen": c(self.bits[n]),
                    "num_addresses": add(add(self.atom(n, "H"), self.atom(n, "N"), -1), c(1))}.get(name)
        return None

    def size(self, expo):
        """2**(bits - P) of some object"""
        k, d = lin(expo)
        if len(d) == 1:
            (a, x), = d.items()
            o = self.of(a)
            if o and o[1] == "P" and x == -1 and k == self.bits[o[0]]:
                return add(add(self.atom(o[0], "H"), self.atom(o[0], "N"), -1), c(1))
        return None

    def hostbits(self, ev, arg, net):
        """an address and a prefix length of which the address is not the network address"""
        if self.netparts(arg) or arg[:2] == ("t", "netstr") or arg[:2] == ("t", "str") and self.netparts(arg[2]):
            return False
        if net[1] == "mknet":
            x, p, bits = net[2:]
            o = self.of(x)
            if p == c(bits) or x[:2] == ("t", "first") and x[3] == p or o and o[1] == "N" and p == self.atom(o[0], "P"):
                return False
            return ev.truth(t("hostbits", x, p))
        n = net[2]
        x = arg
        if arg[:2] == ("t", "fstr"):
            x = arg[2]
        elif arg[0] == "ref":
            x = ev.heap[arg[1]]["items"][0]
        if self.atom(n, "D") in flat(x):
            return not ev.sign(self.atom(n, "D"), self.atom(n, "N"), "==")
        return False

    def bin(self, ev, on, a, b):
        if on == "Pow" and a == c(2) or on == "LShift" and a == c(1):
            return self.size(b)
        return None

    def wide(self, x):
        """address family of a number, from the symbols in it"""
        for k in lin(x)[1]:
            o = self.of(k)
            if o:
                return self.bits.get(o[0])
            if k[:2] == ("t", "first"):
                return k[4]
        return None

    def nets(self, v):
        return v[2] if v[0] == "t" and v[1] == "net" and isinstance(v[2], str) else None

    def inside(self, ev, inner, outer):
        A = self.atom
        return ev.sign(A(outer, "N"), A(inner, "N"), "<=") and ev.sign(A(inner, "H"), A(outer, "H"), "<=")

    def method(self, ev, b, name, args, kw):
        if name == "split" and len(args) == 1:
            if args[0] == c("/"):
                n = b[2] if b[0] == "t" and b[1] in ("str", "netstr", "netexp") else None
                if n is not None and self.netparts(n):
                    first, p, bits = self.netparts(n)
                    return ev.new("list", [t("exploded", first) if b[1] == "netexp" else t("str", t("addr", first)), t("str", p)])
            x = b[2][2] if b[:2] == ("t", "str") and b[2][:2] == ("t", "addr") else b[2] if b[:2] == ("t", "exploded") else None
            if x is not None:
                bits = self.wide(x)
                if args[0] == c(".") and bits == 32:
                    return ev.new("list", [t("oct", x, 32, i) for i in range(4)])
                if args[0] == c(":") and bits == 128:
                    # the short text of an address with a run of zeros has an empty group
                    return ev.new("list", [t("oct", x, 128, i) if b[1] == "exploded" else t("gap", x, i) for i in range(8)])
        n = self.nets(b)
        if n and len(args) == 1 and self.nets(args[0]):
            m = self.nets(args[0])
            if name == "subnet_of":
                return c(self.inside(ev, n, m))
            if name == "supernet_of":
                return c(self.inside(ev, m, n))
            if name == "__contains__":
                return None
        if n and name == "__contains__" and len(args) == 1 and args[0][:2] == ("t", "addr"):
            return c(ev.sign(self.atom(n, "N"), args[0][2], "<=") and ev.sign(args[0][2], self.atom(n, "H"), "<="))
        return None

    def contains(self, ev, x, cont):
        n = self.nets(cont)
        if n and x[:2] == ("t", "addr"):
            return ev.sign(self.atom(n, "N"), x[2], "<=") and ev.sign(x[2], self.atom(n, "H"), "<=")
        return None

    def ext(self, ev, name, args, kw):
        if name == "int" and len(args) == 1 and args[0][:2] == ("t", "addr"):
            return args[0][2]
        if name == "int" and args and args[0][:2] == ("t", "gap"):
            raise fin.Raised("ValueError")
        if name == "int" and args and args[0][:2] == ("t", "oct"):
            base = args[1] if len(args) == 2 else kw.get("base", c(10))
            if args[0][3] == 128 and base == c(10):
                raise fin.Raised("ValueError")
            if base == c(10 if args[0][3] == 32 else 16):
                return t("octn", *args[0][2:])
        if name == "str" and len(args) == 1 and args[0][0] == "t" and args[0][1] in ("netexp", "exploded", "netstr", "oct", "str"):
            return args[0]
        if name == "int" and len(args) == 1 and args[0][:2] == ("t", "str") and (ev.isint(args[0][2]) or args[0][2][0] == "lin"):
            return args[0][2]
        if name.split(".")[-1] in ("IPv4Network", "IPv6Network", "ip_network") and len(args) == 1 and set(kw) <= {"strict"}:
            r = self.network_of(ev, args[0], 32 if "4" in name else 128)
            if r is not None:
                if kw.get("strict", fin.TRUE) == fin.TRUE and self.hostbits(ev, args[0], r):
                    raise fin.Raised("ValueError")
                return r
        if name.split(".")[-1] in ("IPv4Address", "IPv6Address") and len(args) == 1 and not kw:
            v = args[0]
            if ev.isint(v) or v[0] == "lin":
                return t("addr", v)
            if v[:2] == ("t", "addr"):
                return v
        return None


def flat(v):
    """every sub-term"""
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from flat(x)


def modelled(ev, extra=()):
    """the row's decisions are all about modelled quantities"""
    for k in ev.facts.tr:
        if not (k[0] == "truth" and (k[1][:2] == ("t", "attr") and k[1][3] == "empty" or k[1][:2] == ("t", "hostbits"))) and k not in extra:
            return False
    for k in list(ev.facts.val):
        if k not in extra:
            return False
    for key in ev.facts.iv:
        for a, _ in key:
            if a[0] != "var":
                return False
    return True
