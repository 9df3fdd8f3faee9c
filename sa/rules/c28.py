"""C28: port operators denote exact port sets.

L4Object.__init__ is evaluated for every operator over an arbitrary port number p (and q):
the port list it stores is read as a set of integers and compared with the operator's
meaning for an arbitrary x (interval facts); the name table consulted must be the one of
the protocol.  The tables themselves are compared with the registered numbers.
"""
import ast
import re

from .. import fin
from ..fin import c, t, NONE, TRUE, FALSE
from ..report import Result
from ..srcmodel import AnalysisBroken, Program

OPS = ("eq", "neq", "lt", "gt", "range", "")
X = ("var", "x")
# registered numbers of the names that have one meaning only (IANA service name registry)
REG = {
    "tcp": {"bgp": 179, "chargen": 19, "daytime": 13, "discard": 9, "domain": 53, "echo": 7, "exec": 512, "finger": 79, "ftp": 21, "ftp-data": 20, "gopher": 70, "hostname": 101,
            "http": 80, "https": 443, "ident": 113, "irc": 194, "kerberos": 88, "klogin": 543, "kshell": 544, "ldap": 389, "ldaps": 636, "login": 513, "lpd": 515, "netbios-ssn": 139,
            "nfs": 2049, "nntp": 119, "pop2": 109, "pop3": 110, "pptp": 1723, "rsh": 514, "cmd": 514, "rtsp": 554, "sip": 5060, "smtp": 25, "sqlnet": 1521, "ssh": 22, "sunrpc": 111,
            "tacacs": 49, "talk": 517, "telnet": 23, "uucp": 540, "whois": 43, "www": 80, "h323": 1720, "aol": 5190, "citrix-ica": 1494, "imap4": 143, "lotusnotes": 1352,
            "pcanywhere-data": 5631, "pim-auto-rp": 496, "ctiqbe": 2748},
    "udp": {"biff": 512, "bootpc": 68, "bootps": 67, "discard": 9, "dnsix": 90, "domain": 53, "echo": 7, "http": 80, "isakmp": 500, "kerberos": 88, "mobile-ip": 434, "nameserver": 42,
            "netbios-dgm": 138, "netbios-ns": 137, "nfs": 2049, "ntp": 123, "pcanywhere-status": 5632, "pim-auto-rp": 496, "rip": 520, "sip": 5060, "snmp": 161, "snmptrap": 162,
            "sunrpc": 111, "syslog": 514, "tacacs": 49, "talk": 517, "tftp": 69, "time": 37, "who": 513, "www": 80, "xdmcp": 177},
}
TABLE = {"tcp": "ASA_TCP_PORTS", "udp": "ASA_UDP_PORTS"}


def spec(op):
    if not op:
        return ("var", "p")
    toks = {"range": ("p", "q")}.get(op, ("p",))
    return t("spec", op, tuple(("var", x) for x in toks))


class Cfg:
    def __init__(self):
        self.lazy = []
        self.used = set()

    def cfg(self):
        return {"isint": lambda v: v in (X, ("var", "p#"), ("var", "q#")), "contains": self.contains, "method": self.method, "ext": self.ext, "global": self.glob, "comp": self.comp,
                "isinstance": self.isinst, "dictmerge": self.merge, "bin": self.bin, "isstr": lambda v: v[:2] == ("t", "spec") or v in (("var", "p"), ("var", "q")), "notnone": lambda v: v[:2] == ("t", "spec")}

    def isinst(self, ev, v, ty):
        if v[:2] == ("t", "spec") or v in (("var", "p"), ("var", "q")):
            return ty == ("ext", "str")
        return None

    def merge(self, ev, parts):
        """one dictionary made of several: a port table by the names of all of them"""
        names = [p[2] if p[:2] == ("t", "table") else "other entries" for p in parts]
        if all(n == "other entries" for n in names):
            return None
        return t("table", names[0] if len(set(names)) == 1 else " and ".join(names))

    def bin(self, ev, on, a, b):
        if on == "BitOr" and a[:2] == b[:2] == ("t", "table"):
            return self.merge(ev, [a, b])
        return None

    def glob(self, ev, mod, name):
        if name in TABLE.values():
            return t("table", name)
        return None

    def comp(self, ev, e, env, f, m, kind):
        if len(e.generators) == 1 and kind != "dict":
            self.lazy.append((e, dict(env), f, m))
            return t("lazy", len(self.lazy) - 1)
        return None

    def texts(self, s):
        if s[0] == "var":
            return ["80", "ssh"]
        op = s[2]
        n = len(s[3])
        return [(op + " " if op else "") + " ".join([tok] * n) for tok in ("80", "ssh")]

    def contains(self, ev, x, cont):
        if cont[:2] == ("t", "table"):
            self.used.add(cont[2])
            return ev.fact(("in", x, cont))
        if (cont[:2] == ("t", "spec") or cont == ("var", "p")) and fin.is_c(x):
            r = {x[1] in s for s in self.texts(cont)}
            if len(r) == 1:
                return r.pop()
            raise fin.Opaque("substring of a port token")
        return None

    def method(self, ev, b, name, args, kw):
        if b[:2] == ("t", "table"):
            if name == "copy" and not args:
                return b
            if name == "get" and args:
                self.used.add(b[2])
                if len(args) == 2 and args[1] == args[0]:
                    return t("port", b[2], args[0])
                if ev.fact(("in", args[0], b)):
                    return t("port", b[2], args[0])
                return args[1] if len(args) > 1 else NONE
            raise fin.Opaque(f"table method {name}")
        if b[:2] == ("t", "spec") or b in (("var", "p"), ("var", "q")):
            if name in ("strip", "lstrip", "rstrip", "lower") and not args:
                return b
            if name in ("startswith", "endswith", "__contains__") and len(args) == 1 and fin.is_c(args[0]):
                r = {s.startswith(args[0][1]) if name == "startswith" else s.endswith(args[0][1]) if name == "endswith" else args[0][1] in s for s in self.texts(b)}
                if len(r) == 1:
                    return c(r.pop())
            if name == "split" and (not args or args[0] == c(" ")):
                return self.words(ev, b)
            raise fin.Opaque(f"text method {name}")
        return None

    def text(self, v):
        return v[:2] == ("t", "spec") or v in (("var", "p"), ("var", "q"))

    def words(self, ev, s):
        if s[0] == "var":
            return ev.new("list", [s])
        return ev.new("list", ([c(s[2])] if s[2] else []) + list(s[3]))

    def ext(self, ev, name, args, kw):
        if name == "dict" and len(args) == 1 and args[0][:2] == ("t", "table") and not kw:
            return args[0]
        if name == "int" and len(args) == 1:
            v = args[0]
            if v[:2] == ("t", "port"):
                v = v[3]
            if v[:2] == ("t", "sub") and v[2][:2] == ("t", "table"):
                self.used.add(v[2][2])
                v = v[3]
            if v in (("var", "p"), ("var", "q")):
                return ("var", v[1] + "#")
        if name == "str" and len(args) == 1 and args[0] in (("var", "p"), ("var", "q")):
            return args[0]
        if name in ("re.split",) and len(args) == 2 and self.text(args[1]) and args[0] in (c(r"\s+"), c(" "), c(" +")):
            return self.words(ev, args[1])
        if name in ("re.search", "re.match", "re.fullmatch") and len(args) == 2 and self.text(args[1]) and fin.is_c(args[0]):
            r = {bool(getattr(re, name[3:])(args[0][1], s)) for s in self.texts(args[1])}
            if len(r) == 1:
                return t("nonempty", args[0], args[1]) if r.pop() else NONE
            raise fin.Opaque("pattern on a port token")
        return None

    # ---- sets of integers
    def member(self, ev, x, v):
        if v[0] == "ref":
            o = ev.heap[v[1]]
            if o["kind"] in ("list", "tuple", "set"):
                return any(ev.sign(x, i, "==") if i[0] != "ref" else self.no() for i in o["items"])
            self.no()
        if v[0] in ("list", "tuple", "set"):
            return any(ev.sign(x, i, "==") for i in v[1:])
        if fin.is_c(v) and isinstance(v[1], (range, list, tuple)):
            return ev.sign(c(v[1][0]), x, "<=") and ev.sign(x, c(v[1][-1]), "<=") if len(v[1]) and list(v[1]) == list(range(v[1][0], v[1][-1] + 1)) else self.no()
        if v[0] == "t":
            k = v[1]
            if k == "range" and len(v) in (3, 4):
                lo, hi = (c(0), v[2]) if len(v) == 3 else (v[2], v[3])
                return ev.sign(lo, x, "<=") and ev.sign(x, hi, "<")
            if k == "call" and v[2] == "range" and not v[4] and len(v[3]) in (1, 2):
                lo, hi = (c(0), v[3][0]) if len(v[3]) == 1 else v[3]
                return ev.sign(lo, x, "<=") and ev.sign(x, hi, "<")
            if (k == "range" and len(v) == 5 or k == "call" and v[2] == "range" and not v[4] and len(v[3]) == 3):
                lo, hi, st = v[2:] if k == "range" else v[3]
                if fin.is_num(st) and st[1] >= 1:
                    if not (ev.sign(lo, x, "<=") and ev.sign(x, hi, "<")):
                        return False
                    # the first element is there, another one as the stride allows
                    return st[1] == 1 or ev.sign(lo, x, "==") or ev.truth(t("aligned", x, lo, st))
            if k in ("sorted", "list", "tuple", "set", "reversed"):
                return self.member(ev, x, v[2])
            if k == "bin" and v[2] in ("Add", "BitOr"):
                return self.member(ev, x, v[3]) or self.member(ev, x, v[4])
            if k == "bin" and v[2] == "Sub":
                return self.member(ev, x, v[3]) and not self.member(ev, x, v[4])
            if k == "lazy":
                e, env, f, m = self.lazy[v[2]]
                g = e.generators[0]
                if not isinstance(g.target, ast.Name) or not (isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
                    self.no()
                env = dict(env)
                if not self.member(ev, x, ev.expr(g.iter, env, f, m)):
                    return False
                env[g.target.id] = x
                return all(ev.truth(ev.expr(y, env, f, m)) for y in g.ifs)
        self.no()

    def no(self):
        raise fin.Opaque("port list outside the fragment")


def meaning(ev, op):
    p, q = ("var", "p#"), ("var", "q#")
    if op in ("eq", ""):
        return ev.sign(X, p, "==")
    if op == "neq":
        return not ev.sign(X, p, "==")
    if op == "lt":
        return ev.sign(X, p, "<")
    if op == "gt":
        return ev.sign(p, X, "<")
    return ev.sign(p, X, "<=") and ev.sign(X, q, "<=")


def judge(prog, res, cls="L4Object"):
    ini = prog.find_method(cls, "__init__")
    if ini is None:
        res.undec(f"{cls} has no constructor")
        return
    for proto in ("tcp", "udp"):
        for op in OPS:
            C = Cfg()

            def body(ev):
                C.used.clear()
                o = ev.new("obj", cls=prog.classes[cls])
                try:
                    ev.call_func(ini, [o], {"protocol": c(proto), "port_spec": spec(op), "syntax": c("asa")})
                except fin.Raised as r:
                    ev.stash = ("raise", r.name, set(C.used), ev.facts.show())
                    # a raise is right only when no port satisfies the specification
                    ev.assume(c(1), "<=", X)
                    ev.assume(X, "<=", c(65535))
                    ev.assume(c(1), "<=", ("var", "p#"))
                    ev.assume(("var", "p#"), "<=", c(65535))
                    if op == "range":
                        ev.assume(c(1), "<=", ("var", "q#"))
                        ev.assume(("var", "q#"), "<=", c(65535))
                    ev.stash += (meaning(ev, op),)
                    return NONE
                n0 = len(ev.facts.log)
                lst = ev.heap[o[1]]["fields"].get("port_list", NONE)
                inside = ev.sign(c(1), X, "<=") and ev.sign(X, c(65535), "<=")
                ev.stash = ("ret", self_member(C, ev, lst), inside and meaning(ev, op), set(C.used), ev.facts.show())
                return NONE
            try:
                for ev, _ in fin.rows(prog, body, C.cfg()):
                    if not fin.feasible(ev):
                        continue
                    res.count("rows")
                    st = ev.stash
                    if st[0] == "raise":
                        if st[4]:
                            res.add(f"{ini.qual}|{op or 'bare'} rejected", f"{ini.qual}: `{op} p` raises {st[1]} although ports satisfy it", ini.loc(), ev.facts.show())
                        continue
                    if st[1] != st[2]:
                        res.add(f"{ini.qual}|{op or 'bare'}", f"{ini.qual}: `{(op + ' p').strip()}{' q' if op == 'range' else ''}` {'contains' if st[1] else 'lacks'} a port x that {'does not satisfy' if st[1] else 'satisfies'} it", ini.loc(), st[4])
                    if st[3] != {TABLE[proto]}:
                        res.add(f"{ini.qual}|{proto} names", f"{ini.qual}: names of {proto} ports ({op or 'bare'}) are looked up in {', '.join(sorted(st[3])) or 'no table'}", ini.loc(), st[4])
                    res.count("operators decided", 1)
            except fin.Opaque as e:
                res.undec(f"{ini.qual} {proto} {op or 'bare'}: {e}")


def self_member(C, ev, lst):
    return C.member(ev, X, lst)


def tables(prog, res):
    for proto, name in TABLE.items():
        mod = next((m for m in prog.modules.values() if name in m.globals and m.name.endswith("protocol_values")), None)
        if mod is None:
            res.undec(f"{name} not found")
            continue
        vals = mod.globals[name]
        try:
            d = ast.literal_eval(vals[0])
        except Exception:
            res.undec(f"{name} is not a literal")
            continue
        node = vals[0]
        if isinstance(node, ast.Dict):
            seen = {}
            for k, v in zip(node.keys, node.values):
                seen.setdefault(k.value, []).append(v)
        for k, v in sorted(d.items()):
            res.count("port names")
            line = next((x.lineno for y, x in zip(node.keys, node.values) if y.value == k), node.lineno) if isinstance(node, ast.Dict) else node.lineno
            if not isinstance(v, int) or not 1 <= v <= 65535:
                res.add(f"{name}|{k} range", f"{name}[{k!r}] is {v!r}, not a port", f"{mod.path}:{line}")
            elif REG[proto].get(k, v) != v:
                res.add(f"{name}|{k}", f"{name}[{k!r}] is {v}; the registered port is {REG[proto][k]}", f"{mod.path}:{line}")
        for k in REG[proto]:
            if k not in d:
                res.add(f"{name}|{k} missing", f"{name} lacks the well-known name {k!r}", f"{mod.path}:{node.lineno}")


SRC = """
import re
ASA_TCP_PORTS = {"ssh": 22}
ASA_UDP_PORTS = {"ntp": 123}
class L4Object:
    def __init__(self, protocol="", port_spec="", syntax=""):
        port_spec = port_spec.strip()
        ports = {"tcp": ASA_TCP_PORTS, "udp": ASA_UDP_PORTS}[protocol]
        words = port_spec.split()
        if len(words) == 1:
            words.insert(0, "eq")
        op = words[0]
        p = self.num(ports, words[1])
        if op == "eq":
            self.port_list = [p]
        elif op == "neq":
            self.port_list = list(range(1, p)) + list(range(p + 1, 65536))
        elif op == "lt":
            self.port_list = [x for x in range(1, 65536) if x < p]
        elif op == "gt":
            self.port_list = list(range(p + 1, %s))
        else:
            q = self.num(ports, words[2])
            self.port_list = sorted(range(p, q + 1))
    def num(self, ports, w):
        p = int(ports[w]) if w in ports else int(w)
        if not 0 < p < %s:
            raise ValueError()
        return p
"""


def selftest():
    for vals, want in ((("65536", "65536"), set()), (("65535", "65536"), {"gt"}), (("65536", "65535"), {"eq rejected", "bare rejected", "range rejected", "gt", "lt rejected", "neq rejected"})):
        r = Result("x")
        judge(Program.from_source(SRC % vals), r)
        got = {f.key.split("|")[1] for f in r.findings}
        if r.undecided or not (got == want or want and got & want):
            raise AnalysisBroken(f"C28 self-test {vals}: {got} {r.undecided}")


def run(ctx):
    res = Result("L4Object.__init__ evaluated for each operator and protocol over arbitrary ports; membership of an arbitrary x compared with the operator's meaning; port-name tables compared with the registered numbers.")
    judge(ctx.prog, res)
    tables(ctx.prog, res)
    res.floor("rows", 12)
    res.floor("port names", 60)
    res.assumptions += ["a port token is a number or a name without blanks, and contains no operator word followed by a blank",
                        "names whose number differs between Cisco and IANA registries are not judged (radius, radius-acct, secureid-udp, cifs, rtsp over UDP)"]
    return res
