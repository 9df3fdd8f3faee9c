"""C29: type-7 decryption uses the full vendor key at every offset.

CiscoPassword.decrypt is evaluated over an arbitrary ciphertext of n bytes (two-digit start
offset S, bytes B0..Bn-1, all unknown): the k-th character of the result must be
B_k xor key[(S + k) mod 53] with the vendor's 53-byte key, and no index may leave the key.
"""
import re

from .. import fin
from ..fin import c, t, NONE, add
from ..report import Result
from ..srcmodel import AnalysisBroken, Program

KEY = [ord(x) for x in "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"]
S = ("var", "S")
LENGTHS = (1, 2, 25, 60, 130)


class Cfg:
    """the ciphertext as positions: ('t','txt',a,b) is its text from a to b"""

    def __init__(self, n):
        self.n = 2 + 2 * n

    def cfg(self):
        return {"isint": self.isint, "ext": self.ext, "method": self.method, "slice": self.slice, "subscript": self.subscript, "isstr": self.isstr, "bin": self.bin,
                "range": lambda v: (0, 99) if v == S else (0, 255) if v[0] == "var" and v[1].startswith("B") else None, "isinstance": self.isinst, "notnone": self.isstr, "truth": lambda ev, v: v[3] > v[2] if v[:2] == ("t", "txt") else True if v[:2] == ("t", "mm") else None}

    def isint(self, v):
        return v == S or v[0] == "var" and v[1].startswith("B")

    def isstr(self, v):
        return v[:2] in (("t", "txt"), ("t", "chr"))

    def isinst(self, ev, v, ty):
        if self.isstr(v):
            return ty == ("ext", "str")
        return None

    def span(self, v):
        return (v[2], v[3]) if v[:2] == ("t", "txt") else None

    def bin(self, ev, on, a, b):
        if on == "Mod" and a in (c("%c"), c("%s")) and b[0] != "ref":
            return t("chr", b) if a == c("%c") else None
        if on in ("Mod", "BitXor", "FloorDiv", "BitAnd", "BitOr", "LShift", "RShift") and not (fin.is_c(a) and fin.is_c(b)):
            return t("bin", on, ev.freeze(a), ev.freeze(b))
        return None

    def texts(self, sp):
        n = sp[1] - sp[0]
        return ["0" * n, ("1F" * n)[:n], ("9a" * n)[:n]]

    def match(self, ev, how, pat, sp):
        rs = [getattr(re.compile(pat), how)(x) for x in self.texts(sp)]
        if all(r is None for r in rs):
            return NONE
        if any(r is None for r in rs):
            raise fin.Opaque("a pattern whose match depends on the digits")
        regs = {r.regs for r in rs}
        if len(regs) != 1:
            raise fin.Opaque("a pattern whose groups depend on the digits")
        return t("mm", sp[0], regs.pop(), rs[0].re.pattern)

    def ext(self, ev, name, args, kw):
        if name == "re.compile" and len(args) == 1 and fin.is_c(args[0]):
            return t("rx", args[0][1])
        if name in ("re.search", "re.match", "re.fullmatch") and len(args) == 2 and fin.is_c(args[0]) and self.span(args[1]):
            return self.match(ev, name[3:], args[0][1], self.span(args[1]))
        if name in ("re.findall",) and len(args) == 2 and args[0] == c("..") and self.span(args[1]):
            a, b = self.span(args[1])
            return ev.new("list", [t("txt", i, i + 2) for i in range(a, b - 1, 2)])
        if name == "len" and len(args) == 1 and self.span(args[0]):
            return c(args[0][3] - args[0][2])
        if name == "int" and args:
            if self.span(args[0]):
                a, b = self.span(args[0])
                base = args[1] if len(args) == 2 else kw.get("base", c(10))
                if (a, b) == (0, 2) and base == c(10):
                    return S
                if b - a == 2 and base == c(16) and a >= 2 and a % 2 == 0:
                    return ("var", f"B{(a - 2) // 2}")
                if b == a:
                    raise fin.Raised("ValueError")
                return t("digits", a, b, base[1])
            if args[0][0] == "t" and args[0][1] in ("sub", "bin", "ord"):
                return args[0]
        if name == "ord" and len(args) == 1 and not fin.is_c(args[0]):
            return t("ord", ev.freeze(args[0]))
        if name == "chr" and len(args) == 1:
            return t("chr", ev.freeze(args[0]))
        if name == "str" and len(args) == 1 and self.isstr(args[0]):
            return args[0]
        if name in ("bytes.fromhex", "binascii.unhexlify", "bytearray.fromhex") and len(args) == 1 and self.span(args[0]):
            a, b = self.span(args[0])
            if a >= 2 and a % 2 == 0 and (b - a) % 2 == 0:
                return ev.new("list", [("var", f"B{(i - 2) // 2}") for i in range(a, b, 2)])
        return None

    def method(self, ev, b, name, args, kw):
        if b[:2] == ("t", "rx") and name in ("search", "match", "fullmatch") and len(args) == 1 and self.span(args[0]):
            return self.match(ev, name, b[2], self.span(args[0]))
        if b[:2] == ("t", "mm"):
            if name == "group":
                out = []
                for g in args or [c(0)]:
                    if not fin.is_num(g) or g[1] >= len(b[3]):
                        raise fin.Raised("IndexError")
                    x, y = b[3][g[1]]
                    out.append(t("txt", b[2] + x, b[2] + y) if x >= 0 else NONE)
                return out[0] if len(out) == 1 else ev.new("tuple", out)
            if name == "groups" and not args:
                return ev.new("tuple", [t("txt", b[2] + x, b[2] + y) for x, y in b[3][1:]])
        if b == NONE and name == "group":
            raise fin.Raised("AttributeError")
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "replace", "split", "splitlines", "expandtabs") and b[:2] == ("t", "fstr") and any(x[:2] == ("t", "chr") for x in b[2:]):
            return t("changed", name)
        if self.span(b) and name in ("strip", "lower", "upper") and not args:
            return b
        return None

    def slice(self, ev, b, lo, hi, st):
        if self.span(b) and st is None and all(x is None or fin.is_num(x) for x in (lo, hi)):
            a, z = self.span(b)
            r = range(a, z)[slice(None if lo is None else lo[1], None if hi is None else hi[1])]
            return t("txt", r.start, max(r.stop, r.start))
        return None

    def subscript(self, ev, b, i):
        if b[:2] == ("t", "mm") and fin.is_num(i):
            x, y = b[3][i[1]]
            return t("txt", b[2] + x, b[2] + y)
        return None


def judge(prog, res, cls="CiscoPassword"):
    g = prog.find_method(cls, "decrypt")
    if g is None:
        res.undec(f"{cls}.decrypt not found")
        return
    for n in LENGTHS:
        C = Cfg(n)

        def body(ev):
            o = ev.symbol(cls, "pw")
            r = ev.call_func(g, [o], {"ep": t("txt", 0, 2 + 2 * n)})
            parts = list(r[2:]) if r[:2] == ("t", "fstr") else [r]
            ev.stash = []
            for k, p in enumerate(parts):
                ev.stash.append((k, p))
            return NONE
        try:
            for ev, o in fin.rows(prog, body, C.cfg()):
                if not fin.feasible(ev):
                    continue
                res.count("rows")
                if o[0] == "raise":
                    res.add(f"{g.qual}|raises", f"{g.qual} raises {o[1]} for a ciphertext of {n} byte(s)", g.loc(), ev.facts.show())
                    continue
                if len(ev.stash) == 1 and ev.stash[0][1][:2] == ("t", "changed"):
                    res.add(f"{g.qual}|changed", f"{g.qual}: the decoded text goes through {ev.stash[0][1][2]}(), which loses decoded characters", g.loc())
                    continue
                if len(ev.stash) != n:
                    if all(p[:2] == ("t", "chr") for _, p in ev.stash) or ev.stash == [(0, c(""))]:
                        res.add(f"{g.qual}|length", f"{g.qual}: a ciphertext of {n} byte(s) gives {0 if ev.stash == [(0, c(''))] else len(ev.stash)} character(s)", g.loc(), ev.facts.show())
                    else:
                        res.undec(f"{g.qual}: result of {n} byte(s): {fin.show(ev.stash[0][1])[:100]}")
                    continue
                for k, p in ev.stash:
                    try:
                        bad = table(ev, k, p)
                    except Unknown as e:
                        res.undec(f"{g.qual}: character {k}: {e} in {fin.show(p)[:100]}")
                        break
                    if bad:
                        kind, why = explain(ev, k, p, bad)
                        res.add(f"{g.qual}|{kind}", f"{g.qual}: {why}", g.loc(), ev.facts.show() + [f"character {k}: {fin.show(p)[:200]}"])
                        break
                    res.count("characters decided")
        except fin.Opaque as e:
            res.undec(f"{g.qual} n={n}: {e}")


class Unknown(Exception):
    pass


class Fails(Exception):
    pass


def numb(v, S_, B, k=None):
    """the number a term denotes for start offset S_ and byte values B"""
    if fin.is_c(v):
        return v[1]
    if v == S:
        return S_
    if v[0] == "var" and v[1].startswith("B"):
        return B(int(v[1][1:]))
    if v[0] == "lin":
        kk, d = fin.lin(v)
        return kk + sum(numb(a, S_, B) * x for a, x in d.items())
    if v[0] == "t":
        if v[1] == "bin":
            a, b = numb(v[3], S_, B), numb(v[4], S_, B)
            f = OPS.get(v[2])
            if f is None or not (isinstance(a, int) and isinstance(b, int)):
                raise Unknown(f"operator {v[2]}")
            if b == 0 and v[2] in ("Mod", "FloorDiv"):
                raise Fails("ZeroDivisionError")
            return f(a, b)
        if v[1] == "ord":
            x = numb(v[2], S_, B)
            return ord(x) if isinstance(x, str) else x
        if v[1] in ("chr", "int") and len(v) == 3:
            return numb(v[2], S_, B)
        if v[1] == "digits":
            txt = f"{S_:02}" + "".join(f"{B(i):02X}" for i in range((v[3] - 1) // 2))
            try:
                return int(txt[v[2]:v[3]], v[4])
            except ValueError:
                raise Fails("ValueError")
        if v[1] == "sub":
            key, i = keys(v[2]), numb(v[3], S_, B)
            if key is None or not isinstance(i, int):
                raise Unknown("subscript")
            if not -len(key) <= i < len(key):
                raise Fails("IndexError")
            return key[i]
    raise Unknown(str(v[1] if v[0] == "t" else v[0]))


OPS = {"Mod": lambda a, b: a % b, "FloorDiv": lambda a, b: a // b, "BitXor": lambda a, b: a ^ b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "Add": lambda a, b: a + b,
       "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "LShift": lambda a, b: a << b if 0 <= b < 64 else 0, "RShift": lambda a, b: a >> b if 0 <= b < 64 else 0}
BYTES = (0x00, 0xFF, 0x5A, 0xA5, 0x1F, 0x80)


def keys(v):
    """the constant key: a table of integers or a string"""
    if v[0] in ("tuple", "list") and all(fin.is_c(x) for x in v[1:]):
        return [x[1] for x in v[1:]]
    if fin.is_c(v) and isinstance(v[1], (str, bytes, tuple, list)):
        return v[1]
    return None


def holds(ev, s, B):
    """the row's decisions about numbers, for these numbers"""
    for key, iv in ev.facts.iv.items():
        try:
            x = sum(numb(a, s, B) * k for a, k in key)
        except (Unknown, Fails):
            continue
        if iv[0] is not None and x < iv[0] or iv[1] is not None and x > iv[1] or x in (iv[2] if len(iv) > 2 and iv[2] else ()):
            return False
    return True


def table(ev, k, p):
    """the first (offset, byte, got, want) on which the character is not the specified one"""
    for b in BYTES:
        for s in range(100):
            B = lambda i: b if i == k else (b * 7 + 13 * i + 91) % 256
            if not holds(ev, s, B):
                continue
            try:
                got = numb(p, s, B) if p[:2] == ("t", "chr") else None
            except Fails as e:
                return s, b, f"raises {e}", b ^ KEY[(s + k) % 53]
            if got is None:
                if fin.is_c(p) and isinstance(p[1], str):
                    got = p[1]
                else:
                    raise Unknown("not a character")
            if got != b ^ KEY[(s + k) % 53]:
                return s, b, got, b ^ KEY[(s + k) % 53]
    return None


def explain(ev, k, p, bad):
    s, b, got, want = bad
    txt = f"character {k} of a password with start offset {s} and byte {b:#04x} there is {got}, not {want} (byte xor vendor key byte {(s + k) % 53})"
    return ("raises" if isinstance(got, str) and got.startswith("raises") else "value"), txt


SRC = """
class CiscoPassword:
    KEY = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
    def __init__(self, ep=""):
        self.ep = ep
    def decrypt(self, ep=""):
        ep = ep or self.ep
        start, text = int(ep[:2]), ep[2:]
        return "".join(chr(b ^ ord(self.KEY[%s])) for i, b in enumerate(bytes.fromhex(text)))
"""


def selftest():
    for expr, want in (("(start + i) % len(self.KEY)", None), ("(i + start) % 53", None), ("(start + i) % 52", "value"), ("start % 53 + i", "raises"), ("(start + i + 1) % 53", "value"), ("start + i", "raises"), ("min(start, 15) + i", "value raises")):
        r = Result("x")
        judge(Program.from_source(SRC % expr), r)
        got = {f.key.split("|")[1] for f in r.findings}
        if got != set((want or "").split()):
            raise AnalysisBroken(f"C29 self-test {expr}: {got} {r.undecided}")


def run(ctx):
    res = Result(f"CiscoPassword.decrypt evaluated over unknown ciphertexts of {LENGTHS} bytes and an unknown start offset: every character compared with B_k xor key[(S+k) mod 53].")
    judge(ctx.prog, res)
    res.floor("characters decided", 60)
    res.assumptions += ["the start offset is two decimal digits; ciphertexts longer than 130 bytes behave as the first 130"]
    return res
