"""C01: queries never modify the configuration or their operands.

Interprocedural effect analysis: for every public query method / property, the
set of access paths rooted at its parameters, at globals or at class objects
that any path through it (and everything it calls) may mutate must contain no
observable state.
"""
from ..report import Result
from ..srcmodel import Program, AnalysisBroken
from ..absint import Interp
from ..seeds import SEEDS

# classes whose public members form the API surface (subclasses included)
ROOT_CLASSES = ["CiscoConfParse", "ConfigList", "BaseCfgLine", "IPv4Obj", "IPv6Obj", "L4Object",
                "CiscoRange", "CiscoIOSInterface", "CiscoIOSXRInterface", "CiscoPassword", "DiffObject", "HDiff", "Diff"]
# Documented mutators (confirmed by reading): everything else public is a query.
MUTATORS = {
    # CiscoConfParse: edits
    "CiscoConfParse": {"atomic", "commit", "insert_before", "insert_after", "insert_after_child", "delete_lines", "prepend_line",
                       "append_line", "replace_lines", "replace_children", "replace_all_children", "handle_ccp_syntax",
                       "handle_ccp_brace_syntax", "read_config_file", "check_ccp_input_good",
                       # documented to annotate / build up diffs
                       "req_cfgspec_excl_diff"},
    # the sequence interface of the line list
    "ConfigList": {"__setitem__", "__delitem__", "__iadd__", "__imul__", "append", "extend", "insert", "pop", "remove",
                   "clear", "reverse", "sort", "insert_before", "insert_after", "reassign_linenums",
                   "bootstrap_obj_init_ng", "__enter__", "__exit__", "append_line", "prepend_line"},
    # line edits
    "BaseCfgLine": {"add_parent", "add_child", "add_uncfgtext", "delete", "delete_children_matching", "insert_before",
                    "insert_after", "append_to_family", "replace", "re_sub", "set_comment_bool", "reset", "replace_text"},
    "CiscoRange": {"__setitem__", "__delitem__", "append", "insert", "remove", "extend", "pop", "clear", "reverse",
                   "attribute_sort", "parse_integers", "parse_strings", "parse_floats", "parse_cisco_interfaces",
                   "__iadd__", "sort"},
    "CiscoIOSInterface": {"update_internal_state", "parse_single_interface", "from_dict"},
    "CiscoIOSXRInterface": {"update_internal_state", "parse_single_interface", "from_dict"},
    "CiscoPassword": set(), "L4Object": set(), "IPv4Obj": set(), "IPv6Obj": set(), "DiffObject": set(), "Diff": set(),
    # the steps by which the constructor works out a diff on parses of its own
    "HDiff": {"parse_hdiff_configs", "build_diff_obj_lists", "build_diff_obj_list", "build_ios_diffs", "dict_diffs", "find_in_before_obj_list",
              "render_after_obj_diffs", "compress_dict_diffs", "sort_lines"},
}
# Memo fields: written by accessors, derived from the object alone and never an
# answer of their own (confirmed by reading each writer).
MEMO = {"_line_id": "hash of the ancestor chain, recomputed on every read",
        "_number": "string rendered from the other components on every read",
        "_mm_results": "groupdict cache of the ACL line's own regex match",
        "_network_cache": "text -> address object cache of the owning list"}


def observable(what, path):
    """is the mutated thing part of observable state?"""
    if what.startswith("setattr:") or what.startswith("delattr:"):
        return what[8:] not in MEMO
    return not any(seg.lstrip(".") in MEMO for seg in path)


def short_path(root, path, what):
    return root[2:] + "".join(path) + " " + what


def known_attrs(prog):
    """attribute names stored anywhere on self/objs in the package (today's tree)"""
    import ast
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
    return out


def check(prog, interp, res, roots, mutators):
    n_q = 0
    for rc in roots:
        if rc not in prog.classes:
            raise AnalysisBroken(f"public class {rc} no longer exists")
        names = [c for c in sorted(prog.subclasses.get(rc, ()))]
        for cn in names:
            c = prog.classes[cn]
            muts = set()
            for k in c.mro:
                muts |= mutators.get(k.name, set())
            for kind, table in (("method", c.methods), ("property", c.props)):
                for name, f in sorted(table.items()):
                    public = not name.startswith("_") or (name.startswith("__") and name.endswith("__"))
                    if not public or name in ("__init__", "__new__", "__setattr__", "__init_subclass__") or name in muts:
                        continue
                    n_q += 1
                    s = interp.sum[f.qual]
                    for (root, path, what), chain in sorted(s.muts.items()):
                        if root.startswith("g:") or root.startswith("c:"):
                            # shared state is C02's subject, unless it is a line object
                            continue
                        if not observable(what, path):
                            continue
                        p = root[2:]
                        res.add(f"{f.qual}|{p}{''.join(path)}|{what}",
                                f"query {f.qual} may modify `{p}{''.join(path)}` ({what})",
                                f"{f.file}:{chain[0][1]}",
                                [f"{q}:{ln}" for q, ln in chain])
                    res.sample(f"{f.qual}: effects {sorted(set(what for _, _, what in s.muts)) or 'none'}")
    return n_q


def run(ctx):
    res = Result("Interprocedural effect/alias analysis to a fixpoint over the package: a public query (every public method, property and operator "
                 "of the configuration, line-list, line-model, address, port, range and interface classes that is not in the documented mutator table) "
                 "must have an empty may-mutate set over observable access paths of its parameters.")
    interp = ctx.interp
    n = check(ctx.prog, interp, res, ROOT_CLASSES, MUTATORS)
    res.count("queries", n)
    res.count("functions_analysed", len(interp.sum))
    res.count("call_sites_resolved", interp.resolved)
    res.count("fixpoint_rounds", interp.rounds)
    res.floor("queries", 700)
    res.assumptions += ["calls that resolve to no package function (standard library, loguru, dns) do not mutate package objects, except the modelled container mutators",
                        "memo fields exempt: " + ", ".join(f"{k} ({v})" for k, v in MEMO.items())]
    return res


EX_BAD = '''
class Box:
    def __init__(self):
        self.items = []
    def find(self, spec):
        acc = self._collect()
        return self._trim(acc)
    def _collect(self):
        return self.items
    def _trim(self, acc):
        acc.sort()
        return acc
    def ok(self, spec):
        acc = list(self._collect())
        acc.sort()
        return self._trim(acc)
'''


def selftest():
    p = Program.from_source(EX_BAD)
    i = Interp(p, {})
    r = Result("x")
    check(p, i, r, ["Box"], {"Box": set()})
    keys = [f.key for f in r.findings]
    if not any(k.startswith("Box.find|self.items|call:sort") for k in keys) or any(k.startswith("Box.ok") for k in keys):
        raise AnalysisBroken(f"C01 self-example not decided: {keys}")
