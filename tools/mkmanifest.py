#!/usr/bin/env python3
"""write /verif/MANIFEST.json from the rules that exist"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("whole-program effect (mod/ref) analysis over an abstract heap", "Sound over the analysed call graph up to the listed assumptions; no execution."),
    "C02": ("alias/escape analysis of shared mutable state (class attributes, defaults, globals, caches)", "Flow-insensitive heap; shared immutable values are exempt."),
    "C03": ("effect analysis specialised to caller-supplied containers", "Mutations and retention of argument containers."),
    "C04": ("freshness (escape) analysis of returned containers", "Every return of every public listing call."),
    "C05": ("typestate dataflow on the line list: every mutation reaches a renumbering or re-parse", ""),
    "C06": ("value flow of rebuild arguments and must-reach analysis of the atomic option", ""),
    "C07": ("path-sensitive dataflow of the line list from constructor through the parse loop to the listing", ""),
    "C08": ("paired-effect dataflow on parent/children writes", ""),
    "C10": ("term dataflow of options (liveness, all yes/no combinations) and path-sensitive forwarding", ""),
    "C11": ("term dataflow of every caller's pattern into the regular-expression engine", ""),
    "C12": ("taint analysis from nondeterministic sources and unordered containers", ""),
    "C13": ("capability lint over resolved call sites", "Whole package, name resolution through imports."),
    "C14": ("call-site lint over resolved names and exception classes", "Whole package."),
    "C15": ("handler reachability analysis", "Every handler, logging wrapper and logged error of the package."),
    "C16": ("definite-assignment dataflow and name resolution", ""),
    "C17": ("typed call binding and attribute resolution over the program model", ""),
    "C18": ("trace-partitioned abstract interpretation: decision tables of ==, != and hash over an interval/zone fact domain", ""),
    "C19": ("trace-partitioned abstract interpretation: decision tables of the orderings over an interval/zone fact domain", ""),
    "C20": ("trace-partitioned abstract interpretation of containment and arithmetic against the interval specification", ""),
    "C21": ("trace-partitioned abstract interpretation (decision tables over an interval/zone fact domain) of alias groups, setters and member kinds", ""),
    "C22": ("decision tables of syntax dispatch; class-table exhaustiveness and hierarchy checks", ""),
    "C23": ("regular-expression syntax analysis of every pattern constant and its group uses", ""),
    "C24": ("automata inclusion of capture languages", ""),
    "C25": ("ambiguity (EDA) analysis of pattern automata", ""),
    "C26": ("abstract interpretation of return types", ""),
    "C27": ("decision tables with pattern-match atoms, automata implication and equality of accessor pairs", ""),
    "C28": ("trace-partitioned abstract interpretation (decision tables over an interval/zone fact domain): the stored port set against each operator's interval; constant tables", ""),
    "C29": ("trace-partitioned abstract interpretation (decision tables over an interval/zone fact domain): index of the key table per position", ""),
    "C30": ("resource typestate (open/close/encoding) and dataflow of the written lines", ""),
    "C31": ("wrapper dataflow: arguments in, result out", ""),
    "C33": ("effect-before-check ordering dataflow", ""),
    "C34": ("index and collection dataflow of multi-position edits", ""),
    "C09": ("decision tables of the searches over configuration skeletons (atoms: pattern matches line), pair compared for complementarity", ""),
    "C32": ("shape analysis with opaque components (abstract words; regex captures read back as components)", ""),
    "C35": ("finite-label typestate analysis (decision tables of the label setters and of the diff pipeline)", ""),
    "C36": ("decision tables of each sequence operation beside the same operation on the held list", ""),
    "C37": ("finite-domain abstract interpretation of the import-time code", ""),
    "C43": ("shape analysis of text (slice widths, case, blanks, sequence kind) deciding satisfiability of comparisons", ""),
}
NA = {
    "C38": "which earlier line is the nearest one with smaller indentation depends on the runtime indent values of an unbounded sequence; a static argument would be a functional-correctness proof of the parser loop, which no dataflow or type rule decides",
    "C39": "brace conversion is a string transducer over unbounded nesting with a data-dependent stack; its losslessness is a functional property of runtime text outside static rules",
    "C40": "that compressing and expanding denote the same set is an arithmetic fact about runtime member values and their gaps, not a flow or shape fact",
    "C41": "needs the meaning of applying an arbitrary diff to an arbitrary configuration; the computation is delegated to the third-party hier_config at run time",
    "C42": "round-tripping is a statement about the stdlib ipaddress parser on every text; the relevant code is outside the package and value-dependent",
}


def main():
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sa", "rules")) if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    na = []
    for p in props:
        if p in have and p not in NA:
            t, note = TECH[p]
            checks.append({"property": p, "quick_cmd": f"python3 sa/check.py {p}", "thorough_cmd": f"python3 sa/check.py {p}", "technique": "static analysis: " + t, "level": "other",
                           "level_note": note or "Decided from the source on every run; assumptions and undecided constructs are listed in the evidence."})
        else:
            na.append({"property": p, "reason": NA.get(p, "not built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na}
    return m


if __name__ == "__main__":
    m = main()
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
