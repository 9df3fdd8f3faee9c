#!/usr/bin/env python3
"""usage: check.py C01 [C02 ...]   - decide properties from /repo's source"""
import importlib
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sa import report                                    # noqa: E402
from sa.srcmodel import Program, AnalysisBroken          # noqa: E402


class Ctx:
    """lazily shared engines"""

    def __init__(self, prog=None):
        self._p = prog
        self._i = None

    @property
    def prog(self):
        if self._p is None:
            self._p = Program()
        return self._p

    @property
    def interp(self):
        if self._i is None:
            from sa.absint import Interp
            from sa.seeds import SEEDS
            self._i = Interp(self.prog, SEEDS)
        return self._i


BUDGET = 600


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime


def run_one(pid, ctx):
    t0 = time.time()
    try:
        mod = importlib.import_module("sa.rules." + pid.lower())
        if hasattr(mod, "selftest"):
            mod.selftest()
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(BUDGET)
        report.CURRENT.clear()
        try:
            res = mod.run(ctx)
        except OutOfTime:
            # what was decided so far stands; the rest is reported as undecided
            res = report.CURRENT[0]
            res.floors.clear()
            res.undec(f"the analysis stopped after its budget of {BUDGET} s")
        signal.alarm(0)
        return report.finish(pid, res, t0)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: property={pid} {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN: property={pid} source does not parse: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN: property={pid} internal error")
        return 3


def main(argv):
    ids = argv or []
    if ids == ["all"]:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")
        ids = sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:3].isdigit())
    ctx = Ctx()
    rc = 0
    for pid in ids:
        r = run_one(pid, ctx)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
