"""C14: no library call terminates, signals or replaces the interpreter."""
import ast

from ..report import Result
from ..srcmodel import Program, AnalysisBroken, dotted
from .c13 import full_name, spelled

FULL = {"sys.exit", "os._exit", "os.abort", "os.kill", "os.killpg", "signal.raise_signal", "signal.pthread_kill", "signal.alarm", "signal.setitimer",
        "os.execv", "os.execve", "os.execvp", "os.execvpe", "os.execl", "os.execle", "os.execlp", "faulthandler._sigsegv", "atexit._run_exitfuncs",
        "_thread.interrupt_main", "sys.setrecursionlimit"}
BUILTIN = {"exit", "quit"}
NOT_ORDINARY = {"SystemExit", "KeyboardInterrupt", "GeneratorExit", "BaseException"}
CLI = {"ciscoconfparse.parse_global_options": "the command line's own main function"}


def check(prog, res):
    nraise = ncall = 0
    for f in prog.funcs.values():
        if f.outer is not None:
            continue
        m = f.module
        # a name bound locally is not the builtin
        local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.all_params)
        for n in ast.walk(f.node):
            what = None
            if isinstance(n, ast.Call):
                ncall += 1
                d = dotted(n.func)
                full = spelled(prog, m, f, n.func)
                if d is None and full is None:
                    continue
                if full in FULL:
                    what = full + "()"
                elif full in ("builtins.exit", "builtins.quit"):
                    what = full + "()"
                elif d in BUILTIN and d not in local and prog.resolve_name(m, d) is None and full is None:
                    what = d + "()"
                else:
                    # handed to somebody who will call it
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        g = spelled(prog, m, f, a) if not isinstance(a, ast.Call) else None
                        if g in FULL or isinstance(a, ast.Name) and a.id in BUILTIN and a.id not in local and prog.resolve_name(m, a.id) is None and g is None:
                            what = f"{g or a.id} handed on"
            elif isinstance(n, ast.Raise) and n.exc is not None:
                nraise += 1
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                d = dotted(e)
                if d in NOT_ORDINARY and d not in local:
                    what = "raise " + d
                elif d in prog.classes:
                    c = prog.classes[d]
                    ext = {b for k in c.mro for b in k.external_bases}
                    if ext & NOT_ORDINARY and not (ext & {"Exception"}):
                        what = f"raise {d} (derived from {', '.join(sorted(ext & NOT_ORDINARY))})"
            if what is None or f.qual in CLI:
                continue
            from .c15 import users
            res.add(f"{f.qual}|{what}", alts=[f"{c.qual}|{what}" for c in users(prog, f)], msg=f"{f.qual} ends the caller's process or raises something an ordinary handler does not catch: {what}", where=f.loc(n))
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and "__main__" in ast.dump(st.test):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    full = full_name(prog, m, None, d) or d
                    if full in FULL or (d in BUILTIN and prog.resolve_name(m, d) is None):
                        res.add(f"{m.name}|module|{full}", f"importing {m.name} runs {full}()", f"{m.rel}:{n.lineno}")
    res.count("functions", len([f for f in prog.funcs.values() if f.outer is None]))
    res.count("raise_statements", nraise)
    res.count("call_sites", ncall)


def run(ctx):
    res = Result("Every call site and raise statement of the package: none may be a process-terminating primitive or raise an exception that is not derived from Exception.")
    check(ctx.prog, res)
    res.floor("functions", 900)
    res.floor("raise_statements", 200)
    res.assumptions += [f"exempt: {k} ({v})" for k, v in CLI.items()]
    return res


def selftest():
    p = Program.from_source("import sys\nfrom os import _exit as bye\ndef a():\n    sys.exit(1)\ndef b():\n    bye(2)\ndef c(exit):\n    exit(1)\ndef d():\n    raise SystemExit\n")
    r = Result("x")
    check(p, r)
    if sorted(f.key.split("|")[0] for f in r.findings) != ["m.a", "m.b", "m.d"]:
        raise AnalysisBroken("C14 self-example not decided")
