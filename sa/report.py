"""Findings, known findings, evidence and the exit-code protocol."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Finding:
    def __init__(self, key, msg, where, path=(), alts=()):
        self.key = key          # stable: rule + construct, never a line number
        self.alts = [a for a in alts if a != key]   # the same construct attributed to every caller of the helper it sits in
        self.msg = msg
        self.where = where      # file:line (diagnostic only)
        self.path = list(path)

    def as_dict(self):
        return {"key": self.key, "message": self.msg, "where": self.where, "path": self.path}


CURRENT = []      # every result of this run; the first is the rule's own


class Result:
    def __init__(self, rule):
        self.rule = rule
        self.findings = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.assumptions = []
        self.floors = {}
        CURRENT.append(self)

    def add(self, key, msg, where, path=(), alts=()):
        if all(f.key != key for f in self.findings):
            self.findings.append(Finding(key, msg, where, path, alts))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap and s not in self.samples:
            self.samples.append(s)

    def undec(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def floor(self, name, n):
        """instances confirmed by hand: fewer means the rule lost its subject"""
        self.floors[name] = n


def load_known():
    known = {}
    if not os.path.exists(KNOWN):
        return known
    with open(KNOWN) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            rest = line[len("known: "):]
            head, _, what = rest.partition(" :: ")
            f = dict(x.split("=", 1) for x in head.split(" ", 1)[:1])
            key = head.split(" key=", 1)[1]
            known.setdefault(f["property"], {})[key] = what
    return known


def finish(prop, res, t0, level="other"):
    known = load_known().get(prop, {})
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    for f in res.findings:
        # a listed construct that moved into a helper is the same finding when
        # every function that uses the helper is listed
        if f.key not in known and f.alts and all(a in known for a in f.alts):
            f.key = f.alts[0]
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = {"explanation": res.rule, "analysed": dict(res.counts), "samples": res.samples[:12],
           "instance_floors": dict(res.floors),
           "undecided": res.undecided[:40], "undecided_count": len(res.undecided),
           "known_findings_seen": [f.key for f in old]}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f.key}: {known[f.key]}")
    if new:
        rp = os.path.join(evdir, f"{prop}.replay.json")
        with open(rp, "w") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1)
        for f in new:
            print(f"{f.where}: [{prop}] {f.msg}")
            print(f"    key: {f.key}")
            for step in f.path:
                print(f"    via {step}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for name, n in res.floors.items():
        if res.counts.get(name, 0) < n:
            print(f"ANALYSIS-BROKEN: property={prop} only {res.counts.get(name, 0)} '{name}' found, at least {n} confirmed by hand")
            return 2
    print(f"OK property={prop} " + " ".join(f"{k}={v}" for k, v in sorted(res.counts.items())) +
          (f" undecided={len(res.undecided)}" if res.undecided else ""))
    return 0
