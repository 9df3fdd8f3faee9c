"""C25: no built-in pattern backtracks exponentially."""
from ..report import Result
from ..srcmodel import AnalysisBroken
from ..patterns import HOLE, owner, where
from .. import rx
from .c23 import sites_of


def run(ctx):
    res = Result("Exponential-ambiguity test on the automaton of every pattern text that reaches the re module: no state may be reachable from itself by two different runs over the same text when some continuation makes the match attempt fail.")
    done = {}
    for f, m, n, kind, e, texts in sites_of(ctx).sites:
        for t in texts:
            if t is None:
                continue
            if t not in done:
                try:
                    done[t] = rx.eda(t.filled(), t.flags)
                except rx.Unsupported as x:
                    res.undec(f"{t.s!r}: {x}")
                    done[t] = None
                except Exception:
                    done[t] = None      # does not compile: C23
                res.count("patterns")
            if done[t]:
                pre, pump, why = done[t]
                res.add(f"{t.s}", f"{owner(f, m)}: {t.s!r} takes exponential time: after {pre!r}, {pump!r} repeated ({why})", where(f, m, n))
    res.floor("patterns", 100)
    res.assumptions += ["a line contains no line end", "look-arounds and atomic groups are treated as absent", "the unknown part of a template is taken to be unambiguous"]
    return res


def selftest():
    for p, bad in ((r"(a+)+$", True), (r"(a|b)*c", False), (r"^(\s*\d*)*x", True), (r"^\s*(\S+)\s+(\d+)\s*$", False), (r"(a*)*b", True), (r"^(a\s?)+$", False), (r"(.*)*", False),
                   (r"^x\s*(a+)+$|^x.*", True), (r"^x(b*c)?", False), (r"^x((b*)*c)?", True), (r"^(a*)*(b|.*)", False), (r"^x.*|^(x+)+y", False)):
        if bool(rx.eda(p)) != bad:
            raise AnalysisBroken(f"C25 self-example not decided: {p}")
