"""C11: user patterns are embedded intact."""
import ast

from ..opts import Engine, combos, option_params, roots
from ..report import Result
from ..srcmodel import AnalysisBroken, Program, dotted

OPTIONS = ("exactmatch", "ignore_ws", "escape_chars", "recurse", "all_children", "regex_groups")
PATTERNS = ("linespec", "parentspec", "childspec", "regexspec", "regex", "exist_val", "excludespec", "ignore_rgx", "branchspec", "dnaspec", "intfspec", "cfgspec", "uncfgspec")
PRIMARY = ("linespec", "parentspec", "regexspec", "regex", "exist_val", "dnaspec")
PREFIXES = ("find_", "re_", "has_", "replace", "delete", "insert_", "req_", "sync_")
# compare command lines without their indent
STRIPPED = {"req_cfgspec_all_diff", "req_cfgspec_excl_diff"}
CLASSES = ("CiscoConfParse", "ConfigList", "BaseCfgLine")
# literal text or a range, not a pattern
NOT_A_PATTERN = {("ConfigList", "insert_before"), ("ConfigList", "insert_after"), ("ConfigList", "insert_before_deprecated"), ("CiscoConfParse", "find_interface_objects")}


def layers(t):
    out = []
    while t is not None and t[0] in ("ex", "st", "esc"):
        out.append(t[0])
        t = t[1]
    return out, t


def helpers(prog):
    """search, match and edit calls that take a pattern"""
    for cn in CLASSES:
        for n, g in sorted(prog.classes[cn].methods.items()):
            if n.startswith(PREFIXES) and (cn, n) not in NOT_A_PATTERN:
                ps = [p for p in g.params if p in PATTERNS]
                if ps:
                    yield g, ps


def walk(prog, res):
    """every helper under every combination of its yes/no options"""
    eng = Engine(prog)
    for g, ps in helpers(prog):
        opts = [o for o in option_params(g) if o in OPTIONS]
        for c in combos(opts, OPTIONS):
            ev, ret = eng.operation(g, c)
            yield g, ps, c, ev, ret, set(eng.odd)


def name(r):
    return r.rstrip("+")


def role(p, target):
    """the kind of line a parent or child pattern may be tried on; -> complaint or None"""
    if target is None or target[0] not in ("text",):
        return None
    o = target[1]
    if p == "parentspec" and o[0] in ("kid", "akid") and has_found(o, ("parentspec",)):
        return "the parent pattern is matched against children of the parents"
    if p == "parentspec" and o[0] == "found" and o[1] == "childspec":
        return "the parent pattern is matched against the child itself"
    if p in ("childspec", "parentspec+") and o[0] == "found" and o[1] == "parentspec":
        return "the child pattern is matched against the parent itself"
    if p in ("childspec", "parentspec+") and o[0] == "anc":
        return "the child pattern is matched against parents"
    return None


def has_found(o, names):
    while isinstance(o, tuple) and o:
        if o[0] == "found":
            return o[1] in names
        o = o[1] if len(o) > 1 else None
    return False


def check(prog, res):
    for c in CLASSES:
        if c not in prog.classes:
            raise AnalysisBroken(f"{c} no longer exists")
    seen = set()
    for g, ps, c, ev, ret, odd in walk(prog, res):
        if g.qual not in seen:
            seen.add(g.qual)
            res.count("search, match and edit calls")
        for o in odd:
            if any(x in o for x in ps):
                res.undec(f"{g.qual}: {o}")
        for op, pat, target, flags, fq, line in sorted(ev, key=repr):
            ls, core = layers(pat)
            rs = {name(r) for r in roots(pat)}
            if not rs & set(ps):
                continue
            res.count("uses of a caller's pattern")
            who = "/".join(sorted(rs))
            where = f"{g.module.rel}:{line}"
            if op == "swapped":
                res.add(f"{g.qual}|{who}|swapped", f"{g.qual} uses the line text as the pattern and {who} as the text ({fq})", where)
                continue
            if core[0] == "tpl":
                if core[1] == "?":
                    res.undec(f"{g.qual}: pattern text built in {fq}")
                else:
                    res.add(f"{g.qual}|{who}|template", f"{g.qual} matches {core[1]!r} in {fq}: the caller's {who} is not kept as one unit", where)
            if "esc" in ls and ls.index("esc") < len(ls) - 1:
                res.add(f"{g.qual}|{who}|order", f"{g.qual} escapes a pattern the library has already built from {who} ({fq})", where)
            if op == "match" or op == "split":
                res.add(f"{g.qual}|{who}|op", f"{g.qual} applies {who} with re.{op}() instead of a search of the line ({fq})", where)
            if flags is not None and flags not in (("c", 0), ("p", "regex_flags")):
                if flags[0] == "c":
                    res.add(f"{g.qual}|{who}|flags", f"{g.qual} applies {who} with flags the caller did not give: {flags[1]} ({fq})", where)
                else:
                    res.undec(f"{g.qual}: flags in {fq}")
            if target is None:
                continue
            if target[0] == "chg" and g.name in STRIPPED and target[2] == "strip":
                continue
            if target[0] == "chg":
                res.add(f"{g.qual}|{who}|text", f"{g.qual} matches {who} against a changed line text ({target[2]}) in {fq}", where)
            elif target[0] == "dna" and who != "dnaspec":
                res.add(f"{g.qual}|{who}|text", f"{g.qual} matches {who} against something other than the line text in {fq}", where)
            elif target[0] == "text" and who == "dnaspec":
                res.add(f"{g.qual}|{who}|text", f"{g.qual} matches {who} against the line text in {fq}", where)
            elif target[0] in ("p", "st", "ex", "esc", "tpl"):
                res.add(f"{g.qual}|{who}|text", f"{g.qual} matches {who} against {'/'.join(sorted(roots(target)))} instead of a line text in {fq}", where)
            for r in roots(pat):
                x = role(r, target)
                if x:
                    res.add(f"{g.qual}|{r}|role", f"in {g.qual}, {x} ({fq})", where)
    tolerant(prog, res)


def tolerant(prog, res):
    """white space becomes \\s+ and nothing else changes"""
    f = next((x for x in prog.all_funcs() if x.name == "build_space_tolerant_regex" and x.cls is None), None)
    if f is None:
        res.undec("build_space_tolerant_regex no longer exists")
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and dotted(n.func) == "re.sub" and len(n.args) >= 3:
            res.count("white-space substitutions")
            p = n.args[0]
            if isinstance(p, ast.Constant) and isinstance(p.value, str) and isinstance(n.args[2], ast.Name) and n.args[2].id in f.params:
                why = splits(p.value)
                if why:
                    res.add(f"{f.qual}|escape", f"{f.qual} {why}", f.loc(n))
            rep = n.args[1]
            consts = [x.value for x in ast.walk(rep) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            for v in consts:
                if v not in (r"\s+", r"\\s+", r"\1", ""):
                    res.add(f"{f.qual}|replacement", f"{f.qual} puts {v!r} in place of white space", f.loc(n))
            if isinstance(rep, ast.Name):
                vals = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == rep.id for t in a.targets)]
                cs = [x.value for v in vals for x in ast.walk(v) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                if cs and not any("s+" in x for x in cs):
                    res.add(f"{f.qual}|replacement", f"{f.qual} puts {cs!r} in place of white space", f.loc(n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "upper") and isinstance(n.func.value, ast.Name) and n.func.value.id in f.params:
            res.add(f"{f.qual}|changes", f"{f.qual} changes the caller's pattern with {n.func.attr}()", f.loc(n))


def splits(p):
    """where a white-space pattern cuts an escape in two"""
    import re
    try:
        rx = re.compile(p)
    except re.error:
        return None
    # a\ b: the backslash belongs to the blank after it
    for m in rx.finditer(r"a\ b"):
        if m.group(0) and m.start() == 2:
            return f"takes the blank of an escaped blank and leaves its backslash in front of the replacement ({p!r})"
    # a\\ b: two backslashes are one escape of their own
    for m in rx.finditer(r"a\\ b"):
        if m.start() == 2 or m.start() == 1 and m.end() == 2:
            return f"takes half of an escaped backslash for the escape of the blank after it ({p!r})"
    # blanks in a row are one gap
    if len([m for m in rx.finditer("a  b") if m.group(0)]) > 1:
        return f"takes a run of blanks for several gaps ({p!r})"
    if not any(m.group(0) for m in rx.finditer("a\tb")):
        return f"takes blanks only for white space ({p!r})"
    return None


def run(ctx):
    res = Result("Term dataflow of every caller's pattern into the regular-expression engine, under every combination of the yes/no options, package calls followed: "
                 "the wrapper around the pattern, the operation, its flags and the text it is applied to.")
    check(ctx.prog, res)
    res.floor("search, match and edit calls", 22)
    res.floor("uses of a caller's pattern", 100)
    res.assumptions.append("the literal-substring shortcut of BaseCfgLine.re_search (a pattern that is itself part of the text counts as found) is deliberate and not judged")
    return res


EX = r'''
import re
def build_space_tolerant_regex(linespec): return re.sub(r"(\\\\)|(?:\\?\s)+", lambda mm: mm.group(1) or r"\s+", linespec)
class BaseCfgLine:
    def re_search(self, regex): return re.search(regex, self.text)
    def re_search_children(self, regex, recurse=False):
        if recurse is False:
            return [c for c in self.children if c.re_search(regex)]
        return [c for c in self.all_children if c.re_search(regex)]
class ConfigList:
    def has_line_with(self, linespec): return any(re.search(linespec, x.text) for x in self._list)
class CiscoConfParse:
    def _find(self, linespec, exactmatch=False):
        rx = re.compile("^(?:%s)$" % linespec) if exactmatch else re.compile(linespec)
        return list(filter(lambda o: rx.search(o.text), self.ConfigObjs))
    def find_objects(self, linespec, exactmatch=False, ignore_ws=False):
        if ignore_ws:
            linespec = build_space_tolerant_regex(linespec)
        return self._find(linespec, exactmatch)
    def find_parent_objects(self, parentspec, childspec, ignore_ws=False, recurse=False):
        if ignore_ws:
            parentspec = build_space_tolerant_regex(parentspec)
            childspec = build_space_tolerant_regex(childspec)
        return [p for p in self.find_objects(parentspec) if p.re_search_children(childspec, recurse=recurse)]
    def insert_after_child(self, parentspec, childspec, ignore_ws=False, exactmatch=False, excludespec=None):
        if ignore_ws:
            childspec = build_space_tolerant_regex(childspec)
        for p in self.find_objects(parentspec, exactmatch=exactmatch, ignore_ws=ignore_ws):
            for c in p.children:
                if excludespec and re.search(excludespec, c.text):
                    continue
                if re.search(childspec, c.text):
                    self.x(c)
'''
BAD = (("^(?:%s)$", "^%s$", "CiscoConfParse.find_objects|linespec|template"), ("rx.search(o.text)", "rx.match(o.text)", "CiscoConfParse.find_objects|linespec|op"),
       ("re.compile(linespec)\n", "re.compile(linespec, re.I)\n", "CiscoConfParse.find_objects|linespec|flags"), ("rx.search(o.text)", "rx.search(o.text.strip())", "CiscoConfParse.find_objects|linespec|text"),
       ("if p.re_search_children(childspec,", "if p.re_search_children(parentspec,", "CiscoConfParse.find_parent_objects|parentspec|role"),
       ("re.search(childspec, c.text)", "re.search(childspec, p.text)", "CiscoConfParse.insert_after_child|childspec|role"),
       (r'r"\s+", linespec', r'r"\s*", linespec', "m.build_space_tolerant_regex|replacement"),
       (r'r"(\\\\)|(?:\\?\s)+"', r'r"\s+"', "m.build_space_tolerant_regex|escape"), (r'r"(\\\\)|(?:\\?\s)+"', r'r"(?:\\?\s)+"', "m.build_space_tolerant_regex|escape"),
       ("re.search(childspec, c.text)", "re.search(c.text, childspec)", "CiscoConfParse.insert_after_child|childspec|swapped"))


def selftest():
    r = Result("x")
    check(Program.from_source(EX), r)
    if r.findings or r.undecided:
        raise AnalysisBroken(f"C11 self-example: {[f.key for f in r.findings]} {r.undecided}")
    for a, b, want in BAD:
        if a not in EX:
            raise AnalysisBroken(f"C11 self-example text {a!r}")
        r = Result("x")
        check(Program.from_source(EX.replace(a, b, 1)), r)
        if want not in [f.key for f in r.findings]:
            raise AnalysisBroken(f"C11 self-example: {[f.key for f in r.findings]} without {want} ({r.undecided})")
