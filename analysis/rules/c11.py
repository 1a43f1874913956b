"""
Who-may-call rule with handle propagation. Handles (connections, cursors) of the synchronous drivers are propagated through
assignments, attributes, parameters and returns of the whole package; each operation on a handle (call, iteration, context
entry) and each call into a driver module is located. A function is *blocking* if it performs such an operation or calls
(class-hierarchy resolution) a blocking function other than through the thread-dispatch decorator. No coroutine function may
be blocking, no dispatched function may be a coroutine or generator, and the dispatcher itself must hand its function to an
executor and not call it or wait for it synchronously.
"""

import ast

from ..calls import Calls, Driver
from ..framework import Ctx
from ..program import AnalysisError, dotted, walk_own

BLOCKING = {"pyodbc", "oracledb", "redshift_connector"}
ASSUMPTIONS = ["drivers pyodbc, oracledb (thin/thick) and redshift_connector are synchronous; every operation on their handles may block"]


def is_dispatched(f) -> bool:
    return f.has_decorator("thread_dispatch")


DISPATCHERS = {"to_thread", "run_in_executor", "submit", "thread_dispatch", "Thread"}
NEUTRAL = {"partial", "wraps", "isinstance", "callable", "iscoroutinefunction", "getattr", "hasattr", "debug", "info", "id", "repr", "str", "type"}


def escapes(ctx: Ctx, calls: Calls, drv: Driver, f, why: dict) -> None:
    "A blocking function that a coroutine refers to as a value may only go to a dispatcher."
    names: set[str] = set()

    def blocking(e: ast.AST) -> bool:
        if isinstance(e, ast.Lambda):
            return any(True for _ in drv.operations(f, e)) or any(isinstance(n, ast.Call) and reaches(n) for n in ast.walk(e.body))
        if isinstance(e, ast.Name) and e.id in names:
            return True
        if isinstance(e, ast.Attribute) and drv.handle(f, e.value) and not drv.handle(f, e):
            return e.attr not in ("description", "rowcount")
        if isinstance(e, (ast.Name, ast.Attribute)):
            return any(g in why and not is_dispatched(g) and not g.is_async and not g.is_property for g in calls.resolve_callee(f, e))
        if isinstance(e, ast.Call) and last(e) == "partial" and e.args:
            return blocking(e.args[0])
        if isinstance(e, ast.IfExp):
            return blocking(e.body) or blocking(e.orelse)
        return False

    def reaches(n: ast.Call) -> bool:
        return any(g in why and not is_dispatched(g) and not g.is_async for g in calls.resolve(f, n)) or isinstance(n.func, ast.Attribute) and drv.handle(f, n.func.value)

    def last(n: ast.Call) -> str:
        return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""

    nodes = list(walk_own(f.node))
    for _ in range(3):
        for n in nodes:
            if isinstance(n, ast.Assign) and blocking(n.value):
                names.update(t.id for t in n.targets if isinstance(t, ast.Name))
    for n in nodes:
        if not isinstance(n, ast.Call):
            continue
        if isinstance(n.func, ast.Name) and n.func.id in names or isinstance(n.func, (ast.Lambda, ast.Call)) and blocking(n.func):
            ctx.bad("no-blocking-in-coroutine", f.short, f.loc(n), "coroutine function calls a blocking function on the event loop thread")
        elif last(n) not in DISPATCHERS | NEUTRAL:
            for a in list(n.args) + [k.value for k in n.keywords]:
                if blocking(a.value if isinstance(a, ast.Starred) else a):
                    ctx.bad("no-blocking-in-coroutine", f.short, f.loc(n), f"coroutine function passes a blocking function to {last(n)!r}, which does not run it in a worker thread")


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    calls = Calls(prog)
    drv = Driver(prog, calls, BLOCKING)
    direct = {}
    funcs = list(prog.functions())
    for f in funcs:
        ops = list(drv.driver_calls(f))
        if ops:
            direct[f] = ops
            ctx.analysed(f)
            ctx.count("driver operations", len(ops))
    # blocking functions and a witness
    why = {f: (ops[0][0], ops[0][1]) for f, ops in direct.items()}
    changed = True
    while changed:
        changed = False
        for f in funcs:
            if f in why:
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    for g in calls.resolve(f, n):
                        if g in why and not is_dispatched(g) and not g.is_async:
                            why[f] = (n, f"call of blocking {g.short}")
                            changed = True
                            break
                if f in why:
                    break
    for f in sorted(why, key=lambda f: f.qualname):
        node, desc = why[f]
        if f.is_async:
            ctx.bad("no-blocking-in-coroutine", f.short, f.loc(node), f"coroutine function performs blocking driver operation {desc} on the event loop thread")
        else:
            ctx.ok("no-blocking-in-coroutine", f.short, f.loc(node))
    for f in funcs:
        if f.is_async:
            escapes(ctx, calls, drv, f, why)
    for f in funcs:
        if is_dispatched(f):
            ctx.count("dispatched functions")
            ctx.analysed(f)
            ctx.check(not f.is_async and not f.is_generator, "dispatched-is-plain", f.short, f.loc(), "function dispatched to a thread is a coroutine or a generator, whose body would run on the event loop thread")
    # synchronous overrides of coroutine operations would run on the loop
    for f in funcs:
        if f in why and f.cls is not None and f.parent is None and not f.is_async and not is_dispatched(f):
            for base in f.cls.project_mro()[1:]:
                b = base.methods.get(f.name)
                if b is not None and (b.is_async or is_dispatched(b)):
                    ctx.bad("override-dispatched", f.short, f.loc(), f"blocking operation overrides coroutine {b.short} without being dispatched to a thread")
                    break
    # the dispatcher
    d = prog.find_func("util.dispatch.thread_dispatch")
    ctx.analysed(d)
    p = (d.args.posonlyargs + d.args.args)[0].arg
    inner = [f for f in funcs if f.parent is not None and f.parent.node is d.node and f.is_async]
    rets = [n for n in walk_own(d.node) if isinstance(n, ast.Return) and n.value is not None]
    ctx.check(len(inner) >= 1 and bool(rets), "dispatcher", "wrapper", d.loc(), "dispatcher does not return a coroutine function")
    aliases = {p}
    exec_ok = False
    scope = inner + [f for f in funcs if f.parent is not None and f.parent.node is d.node and f not in inner] + [f for f in funcs if f.parent in inner]
    for f in [d] + scope:
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").split(".")[-1] == "partial" and n.value.args and isinstance(n.value.args[0], ast.Name) and n.value.args[0].id in aliases:
                aliases.update(t.id for t in n.targets if isinstance(t, ast.Name))
    worker = {f.name for f in scope if not f.is_async}
    for f in inner:
        ctx.analysed(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                nm = (dotted(n.func) or (n.func.attr if isinstance(n.func, ast.Attribute) else ""))
                last = nm.split(".")[-1]
                if isinstance(n.func, ast.Name) and n.func.id in aliases | worker:
                    ctx.bad("dispatcher", "direct call", f.loc(n), "the wrapped function is called on the event loop thread")
                if last in ("result", "join", "shutdown") and isinstance(n.func, ast.Attribute):
                    ctx.bad("dispatcher", f"{last}()", f.loc(n), "the event loop thread waits synchronously for the worker thread")
                if last in ("run_in_executor", "to_thread"):
                    names = {x.id for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                    if names & (aliases | worker) or any(isinstance(a, ast.Lambda) for a in n.args):
                        exec_ok = True
                        # arguments of the executor must not call the function
                        for a in n.args:
                            for x in ast.walk(a):
                                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in aliases:
                                    par_lambda = isinstance(a, ast.Lambda)
                                    if not par_lambda:
                                        ctx.bad("dispatcher", "direct call", f.loc(x), "the wrapped function is called on the event loop thread")
                if last == "submit":
                    exec_ok = True
    ctx.check(exec_ok, "dispatcher", "executor", d.loc(), "the wrapped function is not handed to an executor")
    refuses = any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "iscoroutinefunction" for n in walk_own(d.node)) and any(isinstance(n, ast.Raise) for n in walk_own(d.node))
    ctx.check(refuses, "dispatcher", "refuses coroutine functions", d.loc(), "a coroutine function passed to the dispatcher is not refused")
    ctx.minimum("driver operations", 20)
    ctx.minimum("dispatched functions", 10)
