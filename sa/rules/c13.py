"""C13: who may start processes, open sockets, write files, evaluate code."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from ..absint import Interp
from .. import cg

PROC = {"subprocess": None, "os": {"system", "popen", "execv", "execve", "execvp", "execvpe", "execl", "execle", "execlp", "spawnl", "spawnv", "spawnve", "spawnvp",
        "fork", "forkpty", "posix_spawn", "posix_spawnp", "startfile"}, "pty": None, "multiprocessing": None, "commands": None, "popen2": None}
NET = {"socket": None, "urllib": None, "requests": None, "http": None, "ftplib": None, "smtplib": None, "telnetlib": None, "ssl": None, "xmlrpc": None, "asyncio": None,
       "dns": {"resolver", "query", "reversename", "zone", "asyncresolver"}}
WRITE = {"os": {"remove", "unlink", "rename", "replace", "rmdir", "removedirs", "makedirs", "mkdir", "truncate", "symlink", "link", "chmod", "chown", "utime", "mkfifo", "open", "write", "renames"},
         "shutil": None, "tempfile": None}
WRITE_METHODS = {"write_text", "write_bytes", "unlink", "rmdir", "mkdir", "touch", "symlink_to", "hardlink_to", "rename"}
CODE = {"pickle": None, "marshal": None, "shelve": None, "dill": None, "cPickle": None, "jsonpickle": None, "code": None, "importlib": {"import_module", "reload"}, "runpy": None,
        "ctypes": None, "cffi": None}
CODE_BUILTINS = {"eval", "exec", "compile", "__import__", "execfile", "input", "breakpoint"}
# yaml functions that build arbitrary objects unless a safe loader is given
YAML_UNSAFE = {"load", "load_all", "unsafe_load", "unsafe_load_all", "full_load", "full_load_all"}
YAML_SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
HARMLESS = {"socket": {"error", "gaierror", "timeout", "herror", "AF_INET", "AF_INET6", "SOCK_STREAM", "SOCK_DGRAM", "inet_aton", "inet_pton", "inet_ntoa", "inet_ntop", "ntohl", "htonl"},
            "dns": {"exception"}, "subprocess": {"PIPE", "STDOUT", "DEVNULL", "CalledProcessError", "TimeoutExpired", "SubprocessError", "CompletedProcess", "list2cmdline"},
            "urllib": set()}
# capability -> documented holders
ALLOW = {
    "start a process": {"ccp_util.run_this_posix_command"},
    "open a network connection": {"ccp_util.dns_query", "ccp_util.dns_lookup", "ccp_util.dns6_lookup", "ccp_util.reverse_dns_lookup",
                                  "ccp_util.dns_lookup_stub", "ccp_util.check_valid_ipaddress"},
    "write or delete a file": {"CiscoConfParse.save_as", "ccp_util.ccp_logger_control", "ccp_util.configure_loguru"},
    "read a file": {"CiscoConfParse.read_config_file", "Diff.__init__", "ciscoconfparse.get_version_number", "ciscoconfparse.initialize_globals",
                    "ciscoconfparse.initialize_ciscoconfparse", "ciscoconfparse.parse_global_options"},
    "evaluate text as code": set(),
}
DEFAULT_ALLOWED_ARG = None


def full_name(prog, m, f, d):
    """dotted name with its first part resolved through the imports (function-level ones included)"""
    root = d.split(".")[0]
    imp = None
    if f is not None:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == root:
                        imp = a.name if a.asname else root
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == root:
                        imp = f"{n.module}.{a.name}"
    if imp is None and root in m.imports:
        i = m.imports[root]
        imp = i[1] if i[0] == "mod" else f"{i[1]}.{i[2]}"
    if imp is None:
        return None
    return imp + d[len(root):]


IMPORTERS = {"__import__", "importlib.import_module"}


def spelled(prog, m, f, e):
    """full name of what an expression names: getattr() with a constant, an imported module taken
    from the import function and a local name for a module or function included"""
    d = dotted(e)
    if d is not None:
        full = full_name(prog, m, f, d)
        if full is not None:
            return full
        root = d.split(".")[0]
        if f is not None:
            v = given(f.node, root)
            if v is not None:
                b = spelled(prog, m, None, v) if dotted(v) == root else spelled(prog, m, f, v)
                if b is not None:
                    return b + d[len(root):]
        return None
    if isinstance(e, ast.Attribute):
        b = spelled(prog, m, f, e.value)
        return f"{b}.{e.attr}" if b else None
    if isinstance(e, ast.Call):
        fn = dotted(e.func)
        if fn == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
            b = spelled(prog, m, f, e.args[0])
            return f"{b}.{e.args[1].value}" if b else None
        if (fn in IMPORTERS or fn and full_name(prog, m, f, fn) in IMPORTERS) and e.args and isinstance(e.args[0], ast.Constant):
            return str(e.args[0].value).split(".")[0] if fn == "__import__" else str(e.args[0].value)
        if fn in ("partial", "functools.partial") and e.args:
            return spelled(prog, m, f, e.args[0])
    return None


def given(fnode, name):
    """the one expression a local name is bound to"""
    vals = []
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            vals.append(n)
        elif isinstance(n, ast.arg) and n.arg == name:
            return None
    if len(vals) != 1:
        return None
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and any(t is vals[0] for t in n.targets):
            return n.value
    return None


def in_table(full, table, strict=False):
    parts = full.split(".")
    if parts[0] not in table:
        return False
    if any(p in HARMLESS.get(parts[0], ()) for p in parts[1:2]):
        return False
    allow = table[parts[0]]
    if allow is None:
        return True
    return len(parts) > 1 and parts[1] in allow


def open_mode(n, prog, m, kwname="mode", pos=1):
    node = None
    if len(n.args) > pos:
        node = n.args[pos]
    for k in n.keywords:
        if k.arg == kwname:
            node = k.value
    if node is None:
        if any(k.arg is None for k in n.keywords):
            return "**"
        return "r"
    try:
        v = prog.const(m, node)
        return v if isinstance(v, str) else "?"
    except ValueError:
        return "?"


def kwargs_mode(prog, f, n):
    """open(**self.openargs): the mode in the dictionaries that property may return"""
    for k in n.keywords:
        if k.arg is None and isinstance(k.value, ast.Attribute) and f.cls is not None:
            g = prog.find_prop(f.cls.name, k.value.attr)
            if g is not None:
                modes = set()
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Dict):
                        for kk, vv in zip(x.keys, x.values):
                            if isinstance(kk, ast.Constant) and kk.value == "mode" and isinstance(vv, ast.Constant):
                                modes.add(vv.value)
                    elif isinstance(x, ast.Call) and dotted(x.func) == "dict":
                        for kk in x.keywords:
                            if kk.arg == "mode" and isinstance(kk.value, ast.Constant):
                                modes.add(kk.value.value)
                    elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Constant) \
                            and x.targets[0].slice.value == "mode" and isinstance(x.value, ast.Constant):
                        modes.add(x.value.value)
                return "".join(sorted(modes)) or "r"
    return "r"


def uses(prog, f, body=None):
    """(capability, node, description) of every primitive use in f"""
    m = f.module if f is not None else None
    heads = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            heads.add(id(n.value))
        elif isinstance(n, ast.Call):
            heads.add(id(n.func))
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
            if isinstance(getattr(n, "ctx", None), ast.Store):
                continue
            # a reference that is not called here: kept under another name, handed to somebody
            if id(n) not in heads and (full := full_name(prog, m, f, dotted(n) or "")):
                for cap, table in (("start a process", PROC), ("open a network connection", NET), ("write or delete a file", WRITE), ("evaluate text as code", CODE)):
                    if in_table(full, table) and (table[full.split(".")[0]] is not None or "." in full):
                        yield cap, n, full
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d in ("getattr", "__import__") or d in ("partial", "functools.partial"):
                # the function itself, whatever becomes of it
                full = spelled(prog, m, f, n)
                for cap, table in (("start a process", PROC), ("open a network connection", NET), ("write or delete a file", WRITE), ("evaluate text as code", CODE)):
                    if full and "." in full and in_table(full, table):
                        yield cap, n, full
            if d is None and (full := spelled(prog, m, f, n.func)) and "." in full:
                for cap, table in (("start a process", PROC), ("open a network connection", NET), ("write or delete a file", WRITE), ("evaluate text as code", CODE)):
                    if in_table(full, table):
                        yield cap, n, full
            if d is None:
                if isinstance(n.func, ast.Attribute) and n.func.attr in WRITE_METHODS and n.func.attr not in prog.by_name:
                    yield "write or delete a file", n, n.func.attr + "()"
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text", "write_bytes"):
                    yield "write or delete a file", n, n.func.attr + "()"
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("read_text", "read_bytes"):
                    yield "read a file", n, n.func.attr + "()"
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "open" and isinstance(n.func.value, ast.Call):
                    md = open_mode(n, prog, m, pos=0)
                    yield ("read a file" if not set(md) & set("wax+?") else "write or delete a file"), n, f"open({md})"
                continue
            full = full_name(prog, m, f, d) or spelled(prog, m, f, n.func)
            if full is not None and full.startswith("builtins."):
                full, d = None, full[9:]
            if full == "loguru.logger.add":
                sink = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "sink"), None)
                if sink is None or not (dotted(sink) or "").startswith(("sys.std", "sys.__std")):
                    yield "write or delete a file", n, "logger.add() with a sink of its own"
                continue
            if full is None:
                if d in CODE_BUILTINS and prog.resolve_name(m, d) is None:
                    yield "evaluate text as code", n, d + "()"
                elif d == "open" and prog.resolve_name(m, d) is None:
                    md = open_mode(n, prog, m)
                    if md == "**":
                        md = kwargs_mode(prog, f, n)
                    yield ("read a file" if not set(md) & set("wax+?") else "write or delete a file"), n, f"open() mode {md!r}"
                elif d.split(".")[-1] in ("write_text", "write_bytes", "unlink", "rmdir", "touch"):
                    yield "write or delete a file", n, d + "()"
                elif d.split(".")[-1] in ("read_text", "read_bytes"):
                    yield "read a file", n, d + "()"
                elif d.split(".")[-1] == "open" and "." in d:
                    md = open_mode(n, prog, m, pos=0)
                    yield ("read a file" if not set(md) & set("wax+?") else "write or delete a file"), n, d + f"() mode {md!r}"
                continue
            if full in ("io.open", "codecs.open", "pathlib.Path.open", "gzip.open", "bz2.open", "lzma.open"):
                md = open_mode(n, prog, m)
                yield ("read a file" if not set(md) & set("wax+?") else "write or delete a file"), n, full
            elif in_table(full, PROC):
                yield "start a process", n, full
            elif in_table(full, NET):
                yield "open a network connection", n, full
            elif in_table(full, WRITE):
                yield "write or delete a file", n, full
            elif in_table(full, CODE):
                yield "evaluate text as code", n, full
            elif full.split(".")[0] == "yaml" and full.split(".")[-1] in YAML_UNSAFE:
                safe = False
                ld = n.args[1] if len(n.args) > 1 else None
                for k in n.keywords:
                    if k.arg == "Loader":
                        ld = k.value
                if ld is not None and (dotted(ld) or "").split(".")[-1] in YAML_SAFE_LOADERS and full.split(".")[-1] in ("load", "load_all"):
                    safe = True
                if not safe:
                    yield "evaluate text as code", n, full + " without a safe loader"
            elif full.split(".")[-1] in ("write_text", "write_bytes"):
                yield "write or delete a file", n, full
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("eval", "exec", "__import__") and prog.resolve_name(m, n.id) is None:
            yield "evaluate text as code", n, n.id


def check(prog, interp, res, allow):
    e = cg.edges(prog, interp)
    entries = cg.entry_points(prog, e)
    nuse = 0
    seen_calls = 0
    for f in cg.outer_funcs(prog):
        seen_calls += 1
        got = {}
        for cap, n, desc in uses(prog, f):
            nuse += 1
            res.sample(f"{f.qual}: may {cap} via {desc}")
            got.setdefault(cap, (n, desc))
        for cap, (n, desc) in sorted(got.items()):
            holders = allow[cap]
            if f.qual in holders:
                continue
            # a helper is fine when every public way to it goes through a holder
            via = cg.paths_to(e, f.qual, holders)
            private = f.name.startswith("_") and not f.name.startswith("__")
            bad = [q for q in via if q in entries and q not in holders and (q != f.qual or not private)]
            callers_ = [q for q in via if q != f.qual]
            if private and f.qual in entries and not callers_:
                bad = [f.qual]
            if f.qual in bad and callers_ and all(q in holders for q in cg.callers(e).get(f.qual, ())) and f.qual not in KNOWN_PUBLIC:
                bad = [q for q in bad if q != f.qual]
            if bad:
                q = sorted(bad)[0]
                res.add(f"{f.qual}|{cap}|{desc}", f"{f.qual} can {cap} ({desc}); reachable from {q} which is not one of the operations documented to do so", f.loc(n), cg.chain(via, q))
    # nobody else may lean on a holder
    cs = cg.callers(e)
    for cap in ("start a process", "open a network connection", "write or delete a file"):
        for h in sorted(allow[cap]):
            for q in sorted(cs.get(h, ())):
                if q not in allow[cap] and q not in SETUP and q in prog.funcs:
                    res.add(f"{q}|uses|{h}", f"{q} calls {h} and so can {cap}; it is not one of the operations documented to do so", prog.funcs[q].loc())
    # module level code
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    full = full_name(prog, m, None, d) or d
                    if d in CODE_BUILTINS or in_table(full, PROC) or in_table(full, WRITE) or in_table(full, CODE):
                        res.add(f"{m.name}|module|{full}", f"module {m.name} runs {full} at import", f"{m.rel}:{n.lineno}")
    res.count("functions", seen_calls)
    res.count("primitive_uses", nuse)
    res.count("call_edges", sum(len(v) for v in e.values()))


KNOWN_PUBLIC = set()
SETUP = {"CiscoConfParse.__init__", "ciscoconfparse.initialize_ciscoconfparse", "ciscoconfparse.parse_global_options"}


def run(ctx):
    res = Result("Capability lint over the call graph: each primitive that starts a process, opens a connection, writes/deletes/reads a file or evaluates text as code "
                 "may be reached only through the operations documented to hold that capability.")
    prog = ctx.prog
    for f in prog.funcs.values():
        if f.outer is None and not f.name.startswith("_"):
            pass
    check(prog, ctx.interp, res, ALLOW)
    res.floor("functions", 900)
    res.floor("primitive_uses", 10)
    res.assumptions += [f"{cap}: {', '.join(sorted(h)) or 'nobody'}" for cap, h in ALLOW.items()]
    res.assumptions.append("capabilities are recognised by the standard-library / dnspython names that provide them")
    return res


EX = '''
import os, subprocess as sp
def runner(cmd):
    return _spawn(cmd)
def _spawn(cmd):
    return sp.run(cmd)
def find(x):
    return _helper(x)
def _helper(x):
    os.unlink(x)
    return eval(x)
'''


def selftest():
    p = Program.from_source(EX)
    i = Interp(p, {})
    r = Result("x")
    check(p, i, r, {"start a process": {"m.runner"}, "write or delete a file": set(), "read a file": set(), "evaluate text as code": set(), "open a network connection": set()})
    k = " ".join(f.key for f in r.findings)
    if "_spawn" in k or "m._helper|write" not in k or "m._helper|evaluate" not in k:
        raise AnalysisBroken(f"C13 self-example not decided: {k}")
